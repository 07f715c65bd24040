"""C24: viscous remanent magnetization data are those of the documented source, cells and decay."""

import choclo
import numpy as np
from hypothesis import strategies as st
from scipy.constants import mu_0
from scipy.integrate import quad
from scipy.special import roots_legendre
from simpeg import maps
from simpeg.electromagnetics import viscous_remanent_magnetization as vrm

from lib import gen
from lib.oracle import check_adjoint, check_directional, close, fail, require
from lib.pbt import Sub

PROPERTY = "C24"
RULE = (
    "A case is a small tensor or tree mesh with active cells, 1-3 sources (dipole, circular loop, line current) with waveforms, each with 1-3 receivers "
    "(point or square loop, any orientation, any field type the waveform has, 1-3 locations and times), refinement distances, active time channels and a mapping. "
    "The data are recomputed from magnetized prisms (choclo), own source fields and the decay integrals by quadrature. "
    "Non-trivial: non-zero data."
)
ASSUMPTIONS = [
    "Receivers and the wires lie outside the magnetized cells.",
    "ArbitraryDiscrete is compared within its sampling error; h and b are not asked of a step-off.",
]

# ---------------------------------------------------------------------------------------------- generators
wave = st.one_of(
    st.fixed_dictionaries({"kind": st.just("step"), "t0": st.sampled_from([0.0, -1e-3, 5e-4])}),
    st.fixed_dictionaries({"kind": st.just("pulse"), "t0": st.sampled_from([0.0, -1e-3, 5e-4]), "delt": gen.log_floats(-3, -1)}),
    st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["discrete", "piecewise"]),
            "dt": st.lists(gen.log_floats(-3.5, -2), min_size=2, max_size=6),
            "I": st.lists(gen.floats(-1, 1, 2), min_size=7, max_size=7),
            "start": st.sampled_from(["zero", "on", "lead"]),
            "off": st.booleans(),
            "end": st.sampled_from([0.0, -1e-3, 5e-4]),
        }
    ),
    st.fixed_dictionaries({"kind": st.just("custom"), "p": gen.floats(0.5, 1.5, 2)}),
)


def receiver():
    return st.fixed_dictionaries(
        {
            "loop": st.booleans(),
            "orient": st.sampled_from(["x", "y", "z"]),
            "field": st.sampled_from(["h", "b", "dhdt", "dbdt"]),
            "n": st.integers(1, 3),
            "nt": st.integers(1, 3),
            "width": gen.floats(0.2, 2.0, 2),
            "turns": st.integers(1, 3),
            "order": st.integers(1, 7),
        }
    )


def source():
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["dipole", "loop", "line"]),
            "wave": wave,
            "rx": st.lists(receiver(), min_size=1, max_size=3),
            "angles": st.sampled_from([[0.0, 0.0], [30.0, 0.0], [90.0, 0.0], [90.0, 90.0], [180.0, 0.0], [40.0, 70.0], [120.0, -35.0]]),
            "I": gen.floats(-3, 3, 2).map(lambda x: x or 1.0),
            "nodes": st.integers(2, 5),
            "closed": st.booleans(),
        }
    )


CASE = st.fixed_dictionaries(
    {
        "mesh": st.one_of(gen.tensor_mesh(dim=3, nmin=1, nmax=3, base=(1.0, 5.0)), gen.tree_mesh(dim=3, logn=(1, 2), base=(1.0, 5.0), max_pts=1)),
        "src": st.lists(source(), min_size=1, max_size=3),
        "ref": st.lists(st.sampled_from([0.5, 1.0, 1.6, 2.5]), min_size=0, max_size=2, unique=True).map(sorted),
        "default_ref": st.booleans(),
        "active": st.booleans(),
        "t_active": st.sampled_from(["all", "constructor", "set", "interval"]),
        "map": st.sampled_from(["none", "id", "exp", "lin", "dense"]),
        "reuse": st.sampled_from(["no", "survey", "active", "refine"]),
        "seed": gen.seeds,
    }
)


def make_wave(w):
    """waveform, off-time start"""
    if w["kind"] == "step":
        return vrm.waveforms.StepOff(t0=w["t0"]), w["t0"]
    if w["kind"] == "pulse":
        return vrm.waveforms.SquarePulse(w["delt"], t0=w["t0"]), w["t0"]
    if w["kind"] == "custom":
        p = w["p"]
        return vrm.waveforms.Custom(lambda t: -3.0 * t ** (-p)), 0.0
    t, I = arbitrary(w)
    cls = vrm.waveforms.ArbitraryDiscrete if w["kind"] == "discrete" else vrm.waveforms.ArbitraryPiecewise
    return cls(t, I), t[-1]


def arbitrary(w):
    dt = np.array(w["dt"])
    I = np.array(w["I"][: len(dt) + 1])
    if w["off"]:
        I[-1] = 0.0
    if w["start"] != "on":
        I[0] = 0.0
    if w["start"] == "lead" and len(I) > 3:
        I[1] = 0.0
    if not np.any(np.abs(I) > 0.05):
        I[-2] = 0.7
    t = np.r_[0.0, np.cumsum(dt)]
    return t - t[-1] + w["end"], I


def fields_of(w, f):
    return {"h": "dhdt", "b": "dbdt"}.get(f, f) if w["kind"] == "step" else f


def make_survey(c, mesh, rng, salt=0, log_uniform=False):
    lo, hi = mesh.nodes.min(0), mesh.nodes.max(0)
    size = hi - lo
    hmin = mesh.h_gridded.min()
    srcs, spec = [], []
    for s in c["src"]:
        sw = dict(s["wave"])
        if log_uniform and sw["kind"] not in ("step", "pulse"):
            sw = {"kind": "pulse", "t0": 0.0, "delt": 0.01}
        w, t0 = make_wave(sw)
        rxs, rspec = [], []
        for r in s["rx"]:
            gap = 0.5 * hmin + (0.5 * r["width"] if r["loop"] else 0.0)
            loc = np.c_[lo[0] + size[0] * rng.uniform(-0.5, 1.5, r["n"]), lo[1] + size[1] * rng.uniform(-0.5, 1.5, r["n"]), hi[2] + gap + rng.uniform(0, 1, r["n"]) * hmin]
            times = t0 + np.sort(10 ** rng.uniform(-3.3, -1, r["nt"]))
            if sw["kind"] == "discrete":
                times = np.sort(t0 + 10 ** rng.uniform(-2, -1, r["nt"]))
            if sw["kind"] == "custom":
                times = np.sort(10 ** rng.uniform(-3.3, -1, r["nt"]))
            f = fields_of(sw, r["field"])
            if r["loop"]:
                rx = vrm.Rx.SquareLoop(loc, times=times, field_type=f, orientation=r["orient"], width=r["width"], n_turns=r["turns"], quadrature_order=r["order"])
            else:
                rx = vrm.Rx.Point(loc, times=times, field_type=f, orientation=r["orient"])
            rxs.append(rx)
            rspec.append((r, loc, times, f))
        at = np.r_[lo[:2] + size[:2] * rng.uniform(-0.3, 1.3, 2), hi[2] + hmin * rng.uniform(0.7, 2)]
        if s["kind"] == "dipole":
            m = s["I"] * rng.normal(size=3)
            src, geo = vrm.Src.MagDipole(rxs, at, m, w), (at, m)
        elif s["kind"] == "loop":
            a = hmin * rng.uniform(0.5, 2)
            at[2] += a
            src, geo = vrm.Src.CircLoop(rxs, at, a, s["angles"], s["I"], w), (at, a)
        else:
            nodes = np.c_[lo[0] + size[0] * rng.uniform(-0.5, 1.5, s["nodes"]), lo[1] + size[1] * rng.uniform(-0.5, 1.5, s["nodes"]), hi[2] + hmin * rng.uniform(0.6, 2, s["nodes"])]
            if s["closed"] and len(nodes) > 2:
                nodes = np.r_[nodes, nodes[:1]]
            src, geo = vrm.Src.LineCurrent(rxs, nodes, s["I"], w), (nodes,)
        srcs.append(src)
        spec.append((s, sw, geo, rspec))
    return srcs, spec


# ---------------------------------------------------------------------------------------------- reference
def biot_savart(nodes, I, xyz, order=1):
    """field of straight segments, from the endpoints (closed form with cross products)"""
    h = np.zeros_like(xyz)
    for a, b in zip(nodes[:-1], nodes[1:]):
        ra, rb = xyz - a, xyz - b
        na, nb = np.linalg.norm(ra, axis=1), np.linalg.norm(rb, axis=1)
        x = np.cross(ra, rb)
        den = na * nb * (na * nb + np.sum(ra * rb, axis=1))
        h += I / (4 * np.pi) * x * ((na + nb) / den)[:, None]
    return h


def loop_field(at, a, angles, I, xyz):
    th, al = np.deg2rad(angles)
    n = np.array([np.sin(th) * np.sin(al), np.sin(th) * np.cos(al), np.cos(th)])
    u = np.cross(n, [1.0, 0.3, 0.2])
    u /= np.linalg.norm(u)
    v = np.cross(n, u)
    k = 2000
    ph = 2 * np.pi * np.arange(k) / k
    p = at + a * (np.cos(ph)[:, None] * u + np.sin(ph)[:, None] * v)
    dl = a * (2 * np.pi / k) * (-np.sin(ph)[:, None] * u + np.cos(ph)[:, None] * v)
    out = np.zeros_like(xyz)
    for i, x in enumerate(xyz):
        r = x - p
        out[i] = (np.cross(dl, r) / np.linalg.norm(r, axis=1)[:, None] ** 3).sum(0) * I / (4 * np.pi)
    return out


def inducing(s, geo, xyz):
    if s["kind"] == "dipole":
        at, m = geo
        r = xyz - at
        d = np.linalg.norm(r, axis=1)[:, None]
        return (3 * r * (r @ m)[:, None] / d**5 - m / d**3) / (4 * np.pi)
    if s["kind"] == "loop":
        return loop_field(geo[0], geo[1], s["angles"], s["I"], xyz)
    return biot_savart(geo[0], s["I"], xyz)


def distance(s, geo, xyz):
    """of the cell centers to the source"""
    if s["kind"] == "dipole":
        return np.linalg.norm(xyz - geo[0], axis=1)
    if s["kind"] == "loop":
        th, al = np.deg2rad(s["angles"])
        n = np.array([np.sin(th) * np.sin(al), np.sin(th) * np.cos(al), np.cos(th)])
        r = xyz - geo[0]
        z = r @ n
        rho = np.linalg.norm(r - z[:, None] * n, axis=1)
        return np.hypot(rho - geo[1], z)
    d = np.full(len(xyz), np.inf)
    for a, b in zip(geo[0][:-1], geo[0][1:]):
        t = np.clip((xyz - a) @ (b - a) / np.sum((b - a) ** 2), 0, 1)
        d = np.minimum(d, np.linalg.norm(xyz - a - t[:, None] * (b - a), axis=1))
    return d


def cells(centers, widths, level):
    """subcells of each cell, refined `level` times"""
    n = 2 ** level
    g = (np.arange(n) + 0.5) / n - 0.5
    off = np.stack(np.meshgrid(g, g, g, indexing="ij"), -1).reshape(-1, 3)
    c = centers[:, None, :] + off[None] * widths[:, None, :]
    w = np.repeat(widths[:, None, :] / n, n**3, axis=1)
    return c.reshape(-1, 3), w.reshape(-1, 3), np.repeat(np.arange(len(centers)), n**3)


PART = {"x": "magnetic_e", "y": "magnetic_n", "z": "magnetic_u"}


def kernel(r, loc, s, geo, centers, widths, levels):
    """(n_locations, n_cells): the magnetic field of the magnetized cells at unit decay"""
    out = np.zeros((len(loc), len(centers)))
    fun = getattr(choclo.prism, PART[r["orient"]])
    if r["loop"]:
        x, w = roots_legendre(r["order"])
        a = r["width"] / 2
        X, Y = np.meshgrid(x * a, x * a, indexing="ij")
        W = (np.outer(w, w) * a * a * r["turns"]).ravel()
        off = np.zeros((W.size, 3))
        ax = [i for i in range(3) if "xyz"[i] != r["orient"]]
        off[:, ax[0]], off[:, ax[1]] = X.ravel(), Y.ravel()
    else:
        off, W = np.zeros((1, 3)), np.ones(1)
    for lev in np.unique(levels):
        idx = np.flatnonzero(levels == lev)
        cc, hh, owner = cells(centers[idx], widths[idx], lev)
        H0 = inducing(s, geo, cc)
        lo, hi = cc - hh / 2, cc + hh / 2
        for k in range(len(cc)):
            for i, p in enumerate(loc):
                for o, wq in zip(off, W):
                    q = p + o
                    out[i, idx[owner[k]]] += wq * fun(q[0], q[1], q[2], lo[k, 0], hi[k, 0], lo[k, 1], hi[k, 1], lo[k, 2], hi[k, 2], *H0[k]) / mu_0
    return out


def decay(w, f, times):
    """linear problem: the decay of the viscous magnetization per unit xi; and its uncertainty"""
    unit = mu_0 if f in ("b", "dbdt") else 1.0
    rate = f in ("dhdt", "dbdt")
    if w["kind"] == "custom":
        return -3.0 * times ** (-w["p"]), 0.0
    if w["kind"] == "step":
        return -unit / (times - w["t0"]), 0.0
    if w["kind"] == "pulse":
        tw, I = np.array([w["t0"] - w["delt"], w["t0"]]), np.ones(2)
    else:
        tw, I = arbitrary(w)
        I = I / np.abs(I).max()
    x, wq = roots_legendre(12)
    out = np.zeros(len(times))
    for a, b, ia, ib in zip(tw[:-1], tw[1:], I[:-1], I[1:]):
        # dyadic pieces towards the end of the segment
        edges = b - (b - a) * 0.5 ** np.arange(0, 14)
        edges = np.r_[edges, b]
        for p, q in zip(edges[:-1], edges[1:]):
            tt = 0.5 * (p + q) + 0.5 * (q - p) * x
            cur = ia + (ib - ia) * (tt - a) / (b - a)
            d = times[:, None] - tt[None, :]
            g = -1.0 / d**2 if rate else 1.0 / d
            out += (g * cur * wq).sum(1) * 0.5 * (q - p)
    if w["kind"] == "discrete":
        # the waveform is sampled at steps of 1/25 of the first time: within half a step of the variation of the current
        step = min(times.min() / 25, tw[-1] - tw[0])
        err = 0.75 * step * (np.abs(np.diff(I)).sum() + 2 * np.abs(I[0]) + 2 * np.abs(I[-1])) / (times - tw[-1]) ** (2 if rate else 1)
        return unit * out, unit * err
    return unit * out, 0.0


def loguniform(w, f, times, dchi, tau1, tau2):
    """(n_cells, n_times) by quadrature over the relaxation times"""
    unit = mu_0 if f in ("b", "dbdt") else 1.0
    x, wq = roots_legendre(60)
    out = np.zeros((len(dchi), len(times)))
    for i in range(len(dchi)):
        la, lb = np.log(tau1[i]), np.log(tau2[i])
        edges = np.linspace(la, lb, max(2, int(np.ceil((lb - la) / 1.5)) + 1))
        for p, q in zip(edges[:-1], edges[1:]):
            tau = np.exp(0.5 * (p + q) + 0.5 * (q - p) * x)
            ww = wq * 0.5 * (q - p) / (lb - la) * dchi[i]

            def step(t):  # magnetization after a step-off, or its rate
                e = np.exp(-t[:, None] / tau)
                return ((-e / tau if f in ("dhdt", "dbdt") else e) * ww).sum(1)

            out[i] += step(times - w["t0"])
            if w["kind"] == "pulse":
                out[i] -= step(times - w["t0"] + w["delt"])
    return unit * out


# ---------------------------------------------------------------------------------------------- checks
def setup(c, log_uniform=False):
    rng = gen.rng(c)
    mesh = gen.build_mesh(c["mesh"])
    act = np.ones(mesh.n_cells, bool)
    if c["active"]:
        act = rng.uniform(size=mesh.n_cells) < 0.6
        act[rng.integers(mesh.n_cells)] = True
    if mesh.n_cells > 20 and not c["active"]:
        act = np.zeros(mesh.n_cells, bool)
        act[rng.permutation(mesh.n_cells)[:20]] = True
    elif act.sum() > 20:
        act[np.flatnonzero(act)[20:]] = False
    srcs, spec = make_survey(c, mesh, rng, log_uniform=log_uniform)
    n = sum(r[1].shape[0] * r[2].size for s in spec for r in s[3])
    alltimes = np.concatenate([np.tile(r[2], len(r[1])) for s in spec for r in s[3]])
    t_act = np.ones(n, bool)
    if c["t_active"] in ("constructor", "set"):
        t_act = rng.uniform(size=n) < 0.6
        t_act[rng.integers(n)] = True
    if c["t_active"] == "constructor":
        survey = vrm.Survey(srcs, t_active=t_act)
    else:
        survey = vrm.Survey(srcs)
    if c["t_active"] == "set":
        survey.t_active = t_act
    if c["t_active"] == "interval":
        tmin, tmax = np.sort(rng.choice(alltimes, 2)) if n > 1 else (alltimes[0], alltimes[0])
        survey.set_active_interval(tmin, tmax)
        t_act = (alltimes >= tmin) & (alltimes <= tmax)
    require(survey.nD == t_act.sum(), "nD of the survey is %s with %s active data of %s", survey.nD, t_act.sum(), n)
    hmin = np.mean([mesh.h[i].min() for i in range(3)])
    ref = np.array(c["ref"], float) * hmin
    kw = {"refinement_distance": ref}
    if c["default_ref"]:
        kw = {"refinement_factor": len(ref)}
        ref = 1.25 * hmin * np.arange(1, len(ref) + 1)
    return rng, mesh, act, survey, spec, t_act, ref, kw


def levels_of(s, geo, xyz, ref):
    """refinement level of each cell; None if one is too close to a threshold to tell"""
    d = distance(s, geo, xyz)
    lev = np.zeros(len(xyz), int)
    for i in reversed(range(len(ref))):
        if np.any(np.abs(d - ref[i]) < 2e-3):
            return None
        lev[d < ref[i]] = len(ref) - i
    return lev


def make_map(c, n, rng):
    k = c["map"]
    if k == "none":
        return None, 10 ** rng.uniform(-4, -2, n)
    if k == "id":
        return maps.IdentityMap(nP=n), 10 ** rng.uniform(-4, -2, n)
    if k == "exp":
        return maps.ExpMap(nP=n), np.log(10 ** rng.uniform(-4, -2, n))
    if k == "lin":
        P = maps.Projection(n + 2, rng.permutation(n + 2)[:n])
        return maps.ExpMap(nP=n) * P, rng.uniform(-9, -5, n + 2)
    A = rng.uniform(0.1, 1, (n, 3)) * 1e-3
    return maps.LinearMap(A, rng.uniform(0, 1e-4, n)), rng.uniform(0.1, 1, 3)


def reference_data(spec, mesh, act, ref, time_part):
    cc, hh = mesh.gridCC[act], mesh.h_gridded[act]
    out, tol = [], []
    for s, w, geo, rspec in spec:
        lev = levels_of(s, geo, cc, ref)
        if lev is None:
            return None, None
        for r, loc, times, f in rspec:
            K = kernel(r, loc, s, geo, cc, hh, lev)
            v, e = time_part(K, w, f, times)
            out.append(v.ravel())
            tol.append(e.ravel())
    return np.concatenate(out), np.concatenate(tol)


def check_linear(c):
    rng, mesh, act, survey, spec, t_act, ref, kw = setup(c)
    n = int(act.sum())
    mp, m = make_map(c, n, rng)
    if mp is not None:
        kw["xiMap"] = mp
    reuse = c["reuse"]
    if reuse == "no":
        sim = vrm.Simulation3DLinear(mesh, survey=survey, active_cells=act, **kw)
    else:
        # the simulation has been used with another survey, other active cells or another refinement
        kw2, act2, survey2 = dict(kw), act, survey
        if reuse == "survey":
            rx = vrm.Rx.Point(mesh.nodes.max(0)[None, :] + 1.0, times=[0.01], field_type="dbdt")
            survey2 = vrm.Survey([vrm.Src.MagDipole([rx], mesh.nodes.max(0) + 2.0, [0, 0, 1.0], vrm.waveforms.StepOff())])
        if reuse == "active" and n < mesh.n_cells:
            act2 = np.zeros(mesh.n_cells, bool)
            act2[rng.permutation(mesh.n_cells)[:n]] = True
        if reuse == "refine":
            kw2.pop("refinement_factor", None)
            kw2["refinement_distance"] = np.array([3.0])
        sim = vrm.Simulation3DLinear(mesh, survey=survey2, active_cells=act2, **kw2)
        sim.dpred(m)
        sim.survey = survey
        sim.active_cells = act
        sim.refinement_distance = ref
    xi = m if mp is None else mp * m
    if np.linalg.norm(xi) == 0:
        return ["trivial"]

    def lin(K, w, f, times):
        eta, e = decay(w, f, times)
        v = np.outer(K @ xi, eta)
        size = np.abs(K) @ np.abs(xi)
        return v, np.outer(size, e + np.zeros(eta.shape)) + 3e-5 * size.max() * np.abs(eta)

    want, size = reference_data(spec, mesh, act, ref, lin)
    d = sim.dpred(m)
    v, w = rng.normal(size=m.size), rng.normal(size=int(t_act.sum()))
    if not t_act.any():
        require(d.size == 0, "data of a survey without active time channels")
        return ["trivial"]
    if want is not None:
        tol = 2e-4 * np.abs(want[t_act]) + size[t_act]
        bad = ~(np.abs(d - want[t_act]) <= tol) if d.shape == want[t_act].shape else None
        if bad is None or bad.any():
            i = None if bad is None else int(np.flatnonzero(bad)[0])
            fail("predicted data %s differ from those of the magnetized cells %s%s", d if i is None else d[i], want[t_act] if i is None else want[t_act][i], "" if i is None else f" (entry {i} of {d.size})")
    sc = np.abs(d).max() if d.size else 0.0
    if sc == 0:
        return ["trivial"]
    blocks = [[i] for i in range(d.size)]
    if c["map"] in ("exp", "lin"):
        check_directional(sim.dpred, sim.Jvec(m, v), m, v, 1e-2, "Jvec", blocks=blocks)
    else:
        close(sim.Jvec(m, v) / sc, (sim.dpred(m + v) - sim.dpred(m)) / sc, "Jvec of a linear problem", rtol=1e-6)
    wn = w / np.maximum(np.abs(d), 1e-3 * sc)
    check_adjoint(lambda u: sim.Jvec(m, u), lambda u: sim.Jtvec(m, u), v, wn, "Jtvec")
    return [c["map"], c["reuse"], c["t_active"]] + [x["kind"] + "/" + x["wave"]["kind"] for x in c["src"]]


def check_log_uniform(c):
    rng, mesh, act, survey, spec, t_act, ref, kw = setup(c, log_uniform=True)
    n = int(act.sum())
    dchi = 10 ** rng.uniform(-3, -1, n)
    chi0 = dchi + 0.1
    tau1 = 10 ** rng.uniform(-6, -3, n)
    tau2 = tau1 * 10 ** rng.uniform(0.5, 4, n)
    sim = vrm.Simulation3DLogUniform(mesh, survey=survey, active_cells=act, chi0=chi0, dchi=dchi, tau1=tau1, tau2=tau2, **kw)

    def lu(K, w, f, times):
        eta = loguniform(w, f, times, dchi, tau1, tau2)
        return K @ eta, 0 * (K @ eta) + 3e-5 * (np.abs(K) @ np.abs(eta)).max(0)

    want, size = reference_data(spec, mesh, act, ref, lu)
    d = sim.dpred()
    if want is None or not t_act.any():
        return ["trivial"]
    want = want[t_act]
    if d.shape != want.shape or np.any(np.abs(d - want) > 2e-4 * np.abs(want) + size[t_act]):
        fail("log-uniform data %s differ from those of the magnetized cells %s", d, want)
    return [x["kind"] for x in c["src"]] if np.abs(want).max() > 0 else ["trivial"]


SUBS = [
    Sub("linear", CASE, check_linear, quick=400, thorough=3000, cost=0.6),
    Sub("log_uniform", CASE, check_log_uniform, quick=160, thorough=1500, cost=0.5),
]
