"""C32: layered-earth EM data are those of the layered earth (frequency and time domain)."""

import numpy as np
from hypothesis import strategies as st
from scipy.constants import mu_0
from scipy.interpolate import InterpolatedUnivariateSpline
from scipy.special import j0, j1, roots_legendre
from simpeg.electromagnetics import frequency_domain as fdem
from simpeg.electromagnetics import time_domain as tdem

from checks import c05_em1d as em
from lib import gen
from lib.oracle import close, require
from lib.pbt import Sub

PROPERTY = "C32"
RULE = (
    "A case is a layered earth (1-5 layers: conductivity or resistivity, permeability, chargeability, magnetic viscosity, thicknesses, heights) "
    "and a survey as in C05, with any of the Hankel and Fourier filters. Frequency domain: against direct quadrature of the Sommerfeld integrals with an own "
    "reflection recursion, plus the free-space primary. Time domain: the step response against the cosine transform of the frequency-domain "
    "response; other waveforms against the convolution of the waveform with the step response. Non-trivial: a non-zero response."
)
ASSUMPTIONS = em.ASSUMPTIONS

H_FILTERS = ["key_101_2009", "key_201_2009", "key_401_2009", "key_201_2012", "wer_201_2018"]
T_FILTERS = ["key_81_2009", "key_241_2009", "key_201_2012", "key_601_2009"]


def case(td):
    d = em.earth()
    # wires are integrated by quadrature along their segments: not too close to the ground
    high = lambda s: dict(s, z=s["z"] + 5.0) if s["kind"] == "wire" else s  # noqa: E731
    d["src"] = st.lists(em.source(td).map(high), min_size=1, max_size=2)
    d["topo"] = st.sampled_from([0.0, 25.0])
    d["filter"] = st.sampled_from(H_FILTERS)
    if td:
        d["tfilter"] = st.sampled_from(T_FILTERS)
    d["seed"] = gen.seeds
    return st.fixed_dictionaries(d)


# ---------------------------------------------------------------------------------------------- the reference
def properties(c, kw, m):
    """conductivity, permeability, thicknesses and heights the documented way, by name"""
    val = {}
    for k in ("sigma", "rho", "mu", "thicknesses", "h"):
        if k + "Map" in kw:
            val[k] = kw[k + "Map"] * m
        elif k in kw:
            val[k] = kw[k]
    sig = val["sigma"] if "sigma" in val else 1.0 / val["rho"]
    n = sig.size
    mu = np.ones(n) * val.get("mu", mu_0)
    t = np.asarray(val.get("thicknesses", []), float)
    heights = val.get("h", np.array([s["z"] for s in c["src"]]))
    return sig, mu, t, heights


def complexes(kw, sig, mu, w):
    eta, tau, cc = (np.ones(sig.size) * kw.get(k, d) for k, d in (("eta", 0.0), ("tau", 1.0), ("c", 0.5)))
    s = sig - sig * eta / (1 + (1 - eta) * (1j * w * tau) ** cc)
    dchi, t1, t2 = (np.ones(sig.size) * kw.get(k, d) for k, d in (("dchi", 0.0), ("tau1", 1e-10), ("tau2", 10.0)))
    return s, mu + mu_0 * dchi * (1 - np.log((1 + 1j * w * t2) / (1 + 1j * w * t1)) / np.log(t2 / t1))


def reflection(lam, w, sig, mu, t):
    """TE reflection seen from the air: (Y0 - Y) / (Y0 + Y) with surface admittances by recursion from below"""
    u = [np.sqrt(lam**2 + 1j * w * m * s) for s, m in zip(sig, mu)]
    Y = u[-1] / mu[-1]
    for i in range(len(sig) - 2, -1, -1):
        yi = u[i] / mu[i]
        th = np.tanh(u[i] * t[i])
        Y = yi * (Y + yi * th) / (yi + Y * th)
    y0 = lam / mu_0
    return (y0 - Y) / (y0 + Y)


XG, WG = roots_legendre(40)


def lam_quad(Z, rho):
    """panels no longer than an oscillation, dense near zero; the integrand decays as exp(-lam Z)"""
    top = 40.0 / Z
    edges = [0.0]
    x = 1e-6 / max(Z, rho)
    while x < top:
        edges.append(x)
        x = min(x * 1.8, x + 6.0 / rho)
    edges.append(top)
    e = np.array(edges)
    half = np.diff(e) / 2
    return (e[:-1, None] + half[:, None] * (XG + 1)).ravel(), (half[:, None] * WG).ravel()


def kernel_dipole(m, d, h, o):
    """o . grad (m . grad') K: field of a dipole m at height h, at offset d, in direction o (times 4 pi)"""
    rho, Z = np.hypot(d[0], d[1]), d[2] + 2 * h
    lam, q = lam_quad(Z, rho)
    g = np.exp(-lam * Z) * q
    J0, J1 = j0(lam * rho), j1(lam * rho)
    Kzz = g * lam**2 * J0  # d/dz d/dh
    Krz = g * lam**2 * J1  # d/drho d/dz (both signs negative)
    K1 = -g * lam * J1
    K2 = -g * lam**2 * (J0 - J1 / (lam * rho))
    x = np.array(d[:2]) / rho
    om, mm = o[:2] @ m[:2], (o[:2] @ x) * (m[:2] @ x)
    out = -(mm * (K2 - K1 / rho) + om * K1 / rho)
    out = out + (o[:2] @ x) * m[2] * Krz  # d/dx_i d/dh
    out = out - o[2] * (m[:2] @ x) * Krz  # d/dz d/dx'_j = -d/dz d/dx_j
    return lam, out + o[2] * m[2] * Kzz


def kernel_loop(a, Z):
    lam, q = lam_quad(Z, a)
    return lam, a / 2 * np.exp(-lam * Z) * lam * j1(lam * a) * q


def kernel_polygon(path, p, Z):
    """vertical field of a closed horizontal wire: a sheet of vertical dipoles, as fan of triangles from the first corner"""
    x, q = roots_legendre(24)
    x, q = (x + 1) / 2, q / 2
    pts, wts = [], []
    for i in range(1, len(path) - 2):
        a, b, c = path[0], path[i], path[i + 1]
        area2 = (b[0] - a[0]) * (c[1] - a[1]) - (b[1] - a[1]) * (c[0] - a[0])
        s, u = np.meshgrid(x, x, indexing="ij")
        pts.append((a + s[..., None] * (b - a + u[..., None] * (c - b))).reshape(-1, 2))
        wts.append((area2 * s * q[:, None] * q[None, :]).ravel())
    pts, wts = np.vstack(pts), np.concatenate(wts)
    r = np.linalg.norm(pts - p, axis=1)
    lam, ql = lam_quad(Z, max(r.max(), 1.0))
    out = np.zeros(lam.size)
    for k in range(0, r.size, 200):
        out += wts[k : k + 200] @ j0(r[k : k + 200, None] * lam)
    return lam, out * np.exp(-lam * Z) * lam**2 * ql / (4 * np.pi)


def primary(s, d, o):
    if s["kind"] == "dip":
        m, R = s["mom"] * em.direction(s["o"]), np.linalg.norm(d)
        return o @ (3 * d * (d @ m) / R**2 - m) / (4 * np.pi * R**3)
    return o[2] * s["mom"] * s["rad"] ** 2 / (2 * (s["rad"] ** 2 + d[2] ** 2) ** 1.5)


def reference(c, kw, m, ws, s, h, rx, i):
    """complex secondary fields of a source in location i of a receiver at angular frequencies"""
    sig, mu, t, _ = properties(c, kw, m)
    o = em.direction(rx["o"])
    d = np.array(rx["locs"][i], float)
    if s["kind"] == "dip":
        lam, kern = kernel_dipole(s["mom"] * em.direction(s["o"]) / (4 * np.pi), d, h, o)
    elif s["kind"] == "loop":
        lam, kern = kernel_loop(s["rad"], d[2] + 2 * h)
        kern = kern * s["mom"] * o[2]
    else:
        a = s["rad"]
        path = np.array([[-a, -a], [a, -a], [a, 1.5 * a], [-a, a], [-a, -a]])
        lam, kern = kernel_polygon(path, d[:2], d[2] + 2 * h)
        kern = kern * s["mom"]
    out = []
    for w in np.atleast_1d(ws):
        sc, mc = complexes(kw, sig, mu, w)
        out.append(kern @ reflection(lam, w, sc, mc, t))
    return np.array(out)


def simulation(c, r, td, points=24):
    kw, m = em.earth_kw(c, r)
    mod = tdem if td else fdem
    make = lambda survey, **e: mod.Simulation1DLayered(  # noqa: E731
        survey=survey, topo=np.r_[0.0, 0.0, c["topo"]], hankel_filter=c["filter"], n_points_per_path=points, **{**kw, **e}
    )
    return make, kw, m


def frequency(c):
    r = gen.rng(c)
    make, kw, m = simulation(c, r, False)
    sim = make(em.make_survey(c["src"], c["topo"], False))
    dpred = sim.dpred(m)
    heights = properties(c, kw, m)[3]
    i = 0
    for s, h in zip(c["src"], heights):
        for rx in s["rx"]:
            o = em.direction(rx["o"])
            vals, scale = [], 0.0
            for k in range(rx["n"]):
                d = np.array(rx["locs"][k], float)
                if s["kind"] == "loop":
                    d[:2] = 0.0
                v = reference(c, kw, m, 2 * np.pi * s["f"], s, h, rx, k)[0]
                if s["kind"] != "wire":
                    p = primary(s, d, o)
                if rx["kind"] == "total":
                    v = v + p
                elif rx["kind"] == "ppm" and not em.zero_primary(s, rx):
                    v = 1e6 * v / p
                vals.append(v)
            vals = np.array(vals)
            want = {"real": vals.real, "imag": vals.imag, "both": np.c_[vals.real, vals.imag].ravel()}[rx["comp"]]
            got = dpred[i : i + want.size]
            # errors of the digital filters scale with the whole tensor, not with one of its entries
            Rm = [np.linalg.norm(np.array(rx["locs"][k]) * (s["kind"] == "dip") + np.r_[0, 0, h] + (s["rad"] if s["kind"] != "dip" else 0)) for k in range(rx["n"])]
            M = s["mom"] * (1 if s["kind"] == "dip" else np.pi * s["rad"] ** 2)
            scale = max(M / (4 * np.pi * x**3) for x in Rm)
            if rx["kind"] == "ppm" and not em.zero_primary(s, rx):
                scale = scale * 1e6 / abs(p)
            close(got, want, f"layered FDEM {s['kind']} {s['o']} -> {rx['kind']} {rx['o']} {rx['comp']} at {s['f']} Hz, {c['filter']}", rtol=3e-4, atol=3e-6 * scale)
            i += want.size
    require(i == dpred.size, f"{dpred.size} data for {i} values")
    return [c["par"]] + [s["kind"] for s in c["src"]] if nonzero(dpred) else ["trivial"]


def nonzero(d):
    return bool(np.any(d != 0))


# ------------------------------------------------------------------------------------------------- time domain
CLASSES = {
    "b": tdem.receivers.PointMagneticFluxDensity,
    "dbdt": tdem.receivers.PointMagneticFluxTimeDerivative,
    "h": tdem.receivers.PointMagneticField,
}


def step_transform(c, kw, m, s, h, rx, k, times):
    """b(t) and db/dt(t) after step off by the cosine and sine transforms of the frequency-domain reference"""
    import libdlf

    f = libdlf.fourier.key_201_2012()
    base, sin, cos = f[0], f[1], f[2]
    b, db = [], []
    wmin, wmax = base.min() / max(times), base.max() / min(times)
    ws = np.exp(np.linspace(np.log(wmin), np.log(wmax), int(12 * np.log10(wmax / wmin))))
    G = reference(c, kw, m, ws, s, h, rx, k)
    im = InterpolatedUnivariateSpline(np.log(ws), G.imag, k=5)
    for t in times:
        w = base / t
        g = im(np.log(w))
        b.append(-2 / np.pi * np.sum(cos * g / w) / t)
        db.append(2 / np.pi * np.sum(sin * g) / t)
    return mu_0 * np.array(b), mu_0 * np.array(db)


def off_time_case(c):
    """magnetic viscosity decays so slowly (1/t) that b and h are beyond the digital filters: dbdt only"""
    if c["dchi"] == "0":
        return c
    return dict(c, src=[dict(s, rx=[dict(rx, kind="dbdt") for rx in s["rx"]]) for s in c["src"]])


def step(c):
    """step off: against the transforms of the frequency-domain reference"""
    r = gen.rng(c)
    c = off_time_case(c)
    make, kw, m = simulation(c, r, True, points=10)
    srcs = [dict(s, wave="step") for s in c["src"]]
    sim = make(em.make_survey(srcs, c["topo"], True), time_filter=c["tfilter"])
    dpred = sim.dpred(m)
    heights = properties(c, kw, m)[3]
    i = 0
    for s, h in zip(srcs, heights):
        for rx in s["rx"]:
            T = np.array(rx["times"])
            want = []
            for k in range(rx["n"]):
                b, db = step_transform(c, kw, m, s, h, rx, k, T)
                want.append({"b": b, "h": b / mu_0, "dbdt": db}[rx["kind"]])
            want = np.array(want)
            got = dpred[i : i + want.size].reshape((T.size, rx["n"])).T
            M = s["mom"] * (1 if s["kind"] == "dip" else np.pi * s["rad"] ** 2)
            for k in range(rx["n"]):
                R = max(np.linalg.norm(rx["locs"][k]) if s["kind"] == "dip" else s["rad"], h)
                unit = M * mu_0 / (4 * np.pi * R**3) * {"b": 1.0, "h": 1 / mu_0, "dbdt": 1 / T}[rx["kind"]]
                e = np.abs(got[k] - want[k]) / ((4e-3 if c["dchi"] == "0" else 5e-2) * np.abs(want[k]) + 6e-6 * unit)
                require(
                    np.all(e <= 1),
                    f"layered TDEM {s['kind']} {s['o']} -> {rx['kind']} {rx['o']} step off, {c['filter']} {c['tfilter']}: {got[k]} vs {want[k]} at {T} ({unit})",
                )
            i += want.size
    require(i == dpred.size, f"{dpred.size} data for {i} values")
    return [c["par"]] + [s["kind"] for s in c["src"]] if nonzero(dpred) else ["trivial"]


def wave(c):
    """any waveform: against its convolution with the step response (times after the waveform ended)"""
    r = gen.rng(c)
    c = dict(c, dchi="0")
    make, kw, m = simulation(c, r, True, points=3)
    got = make(em.make_survey(c["src"], c["topo"], True), time_filter=c["tfilter"]).dpred(m)
    T = [t for s in c["src"] for rx in s["rx"] for t in rx["times"]]  # after the waveform is off
    tau = np.exp(np.linspace(np.log(min(T) / 2), np.log(max(T) + 0.03), 120))

    def steps(kind):
        srcs = [dict(s, wave="step", rx=[dict(rx, kind=kind, times=list(tau)) for rx in s["rx"]]) for s in c["src"]]
        return make(em.make_survey(srcs, c["topo"], True), time_filter=c["tfilter"]).dpred(m)

    B, D = steps("b"), steps("dbdt")
    x, q = roots_legendre(12)
    i = j = 0
    heights = properties(c, kw, m)[3]
    for i_src, s in enumerate(c["src"]):
        w = em.make_wave(s["wave"])
        nodes = np.asarray(w.time_nodes if s["wave"] != "step" else [0.0], float)
        start = 1.0 if s["wave"] in ("step", "ramp") else 0.0  # the current before the waveform starts
        for rx in s["rx"]:
            n, T = rx["n"], em.times_of(s, rx)
            bs = B[j : j + n * tau.size].reshape((tau.size, n))
            ds = D[j : j + n * tau.size].reshape((tau.size, n))
            for k in range(n):
                fd = InterpolatedUnivariateSpline(np.log(tau), tau * ds[:, k], k=5)
                fb = InterpolatedUnivariateSpline(np.log(tau), bs[:, k], k=5)
                b = lambda t: fb(np.log(t))  # noqa: E731
                d = lambda t: fd(np.log(t)) / t  # noqa: E731
                want = []
                for t in T:
                    if rx["kind"] == "dbdt":  # differentiate the convolution by a shift of the times
                        dd = 1e-4 * (t - nodes[-1])
                        cen = [conv(b, d, w, nodes, start, t + z * dd, x, q) for z in (-2, -1, 1, 2)]
                        want.append((cen[0] - 8 * cen[1] + 8 * cen[2] - cen[3]) / (12 * dd))
                    else:
                        want.append(conv(b, d, w, nodes, start, t, x, q) / (mu_0 if rx["kind"] == "h" else 1.0))
                have = got[i : i + n * T.size].reshape((T.size, n))[:, k]
                want = np.array(want)
                R = max(np.linalg.norm(rx["locs"][k]) if s["kind"] == "dip" else s["rad"], heights[i_src])
                M = s["mom"] * (1 if s["kind"] == "dip" else np.pi * s["rad"] ** 2)
                after = np.array(rx["times"])
                unit = M * mu_0 / (4 * np.pi * R**3) * {"b": 1.0, "h": 1 / mu_0, "dbdt": 1 / after}[rx["kind"]]
                err = np.abs(have - want) / (1e-2 * np.abs(want) + 2e-5 * unit)
                require(np.all(err <= 1), f"layered TDEM {s['kind']} -> {rx['kind']}, {s['wave']} waveform: {have} vs {want} at {T}")
            i += n * T.size
            j += n * tau.size
    return [c["par"]] + [s["wave"] for s in c["src"]] if nonzero(got) else ["trivial"]


def eval_many(w, t):
    return np.array([w.eval(float(v)) for v in np.ravel(t)]).reshape(np.shape(t))


def conv(b, d, w, nodes, start, t, x, q):
    e = np.unique(np.concatenate([t - nodes, np.exp(np.linspace(np.log(t - nodes[-1]), np.log(t - nodes[0]), 30))]))
    e = e[(e >= (t - nodes[-1]) * (1 - 1e-12)) & (e <= (t - nodes[0]) * (1 + 1e-12))]
    half = np.diff(e) / 2
    tt = (e[:-1, None] + half[:, None] * (x + 1)).ravel()
    qq = (half[:, None] * q).ravel()
    return start * b(t - nodes[0]) - (np.sum(qq * eval_many(w, t - tt) * d(tt)) if tt.size else 0.0)


SUBS = [
    Sub("frequency", case(False), frequency, quick=300, thorough=5000, shards=4, cost=2),
    Sub("step", case(True), step, quick=60, thorough=1000, shards=4, cost=3),
    Sub("wave", case(True), wave, quick=60, thorough=1000, shards=4, cost=3),
]
