"""C26: transmitter waveforms, wire paths and relaxation spectra are what they are documented to be."""

import contextlib
import io
import warnings

import numpy as np
from hypothesis import strategies as st
from scipy.special import roots_legendre

from lib import gen
from lib.oracle import close, close_each, require
from lib.pbt import Sub

PROPERTY = "C26"
RULE = (
    "waveform: every TDEM waveform with generated times, re-parametrized through its attributes, against formulas of its shape: value, derivative, "
    "continuity, nodes, current before and after. convolve: convolve_with_waveform against quadrature. wire: random polylines in tensor and tree meshes; "
    "the edge source against the line integral of random interpolated edge fields, conservation of charge and dipole moment. faces: axis-aligned "
    "paths through cells. spectra: Cole-Cole and log-uniform spectra. Non-trivial: the evaluated function is not constant."
)
ASSUMPTIONS = ["wire vertices inside the mesh", "waveforms with increasing node times"]

x12, q12 = roots_legendre(12)

wave_case = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["stepoff", "ramp", "vtem", "trap", "tri", "qsine", "halfsine", "pwl", "exp", "raw"]),
        "t": st.lists(st.integers(1, 60), min_size=4, max_size=4),  # gaps
        "t0": st.integers(-100, 20),
        "rate": st.sampled_from([0.5, 3.0, 8.0]),
        "I": st.lists(gen.floats(-2, 2, 1), min_size=2, max_size=5),
        "later": st.booleans(),  # set the attributes after construction
        "scale": st.sampled_from([1e-5, 1e-3]),
        "seed": gen.seeds,
    }
)


def waveform(c):
    """-> object, reference function, nodes, initial current"""
    from simpeg.electromagnetics.time_domain import sources as S

    u = c["scale"]
    T = u * (c["t0"] + np.cumsum(np.r_[0, c["t"]]))
    k, late = c["kind"], c["later"]
    if k == "stepoff":
        off = abs(T[0])
        return S.StepOffWaveform(off_time=off), lambda t: 1.0 * (t < off), np.r_[off], 1.0
    if k == "ramp":
        w = S.RampOffWaveform(ramp_start=T[0], ramp_end=T[1])
        if late:
            w = S.RampOffWaveform(ramp_start=T[0], ramp_end=T[4])
            w.ramp_end = T[1]
        return w, lambda t: np.interp(t, T[:2], [1.0, 0.0]), T[:2], 1.0
    if k == "vtem":
        a, b = T[1] - T[0], T[2] - T[0]
        if late:
            w = S.VTEMWaveform(off_time=T[4] - T[0], peak_time=a)
            w.off_time, w.ramp_on_rate = b, c["rate"]
        else:
            w = S.VTEMWaveform(off_time=b, peak_time=a, ramp_on_rate=c["rate"])
        f = lambda t: np.where(  # noqa: E731
            t <= 0, 0.0, np.where(t < a, np.expm1(-c["rate"] * np.maximum(t, 0) / a) / np.expm1(-c["rate"]), np.interp(t, [a, b], [1.0, 0.0]))
        )
        return w, f, np.r_[0.0, a, b], 0.0
    if k == "exp":
        tau = u * c["rate"] * 5
        a, b, e = T[0], T[1], T[2]
        if late:
            w = S.ExponentialWaveform(start_time=a, peak_time=b, off_time=T[4], ramp_on_tau=u)
            w.off_time, w.ramp_on_tau = e, tau
        else:
            w = S.ExponentialWaveform(start_time=a, peak_time=b, off_time=e, ramp_on_tau=tau)
        f = lambda t: np.where(  # noqa: E731
            t <= a, 0.0, np.where(t < b, np.expm1(-(np.clip(t, a, b) - a) / tau) / np.expm1(-(b - a) / tau), np.interp(t, [b, e], [1.0, 0.0]))
        )
        return w, f, np.r_[a, b, e], 0.0
    if k == "tri":
        w = S.TriangularWaveform(start_time=T[0], peak_time=T[1], off_time=T[3])
        if late:
            w = S.TriangularWaveform(start_time=T[0], peak_time=T[2], off_time=T[3])
            w.peak_time = T[1]
        return w, lambda t: np.interp(t, [T[0], T[1], T[3]], [0, 1.0, 0]), np.r_[T[0], T[1], T[3]], 0.0
    if k == "pwl":
        I = np.array(c["I"])
        n = I.size
        tn = np.r_[T, T[-1] + u * 7][:n]
        o = gen.rng(c).permutation(n)
        return S.PiecewiseLinearWaveform(times=tn[o], currents=I[o]), lambda t: np.interp(t, tn, I), tn, I[0]
    if k == "raw":
        f = lambda t: np.exp(-((t - T[1]) ** 2) / u**2)  # noqa: E731
        return S.RawWaveform(waveform_function=f), f, None, 0.0
    cls = {"trap": S.TrapezoidWaveform, "qsine": S.QuarterSineRampOnWaveform, "halfsine": S.HalfSineWaveform}[k]
    on, off = T[:2], T[2:4]
    if late:
        w = cls(ramp_on=on - u, ramp_off=off + u)
        w.ramp_on, w.ramp_off = on, off
    else:
        w = cls(ramp_on=on, ramp_off=off)

    def f(t):
        a, b = np.clip((t - on[0]) / (on[1] - on[0]), 0, 1), np.clip((t - off[0]) / (off[1] - off[0]), 0, 1)
        up = a if k == "trap" else np.sin(np.pi / 2 * a)
        down = np.cos(np.pi / 2 * b) if k == "halfsine" else 1 - b
        return np.where(t <= on[1], up, down) * (t > on[0]) * (t < off[1])

    return w, f, T[:4], 0.0


def check_wave(c):
    w, f, nodes, start = waveform(c)
    r = gen.rng(c, 1)
    k = f"{c['kind']} waveform"
    u = c["scale"]
    if nodes is None:
        t = u * r.uniform(-100, 200, 20)
        close_each([w.eval(v) for v in t], [f(v) for v in t], k, rtol=1e-14)
        return [c["kind"]]
    span = nodes[-1] - nodes[0] + 10 * u
    t = np.concatenate([nodes[0] - span * r.random(4), nodes[-1] + span * r.random(4)] + [a + (b - a) * (0.02 + 0.96 * r.random(5)) for a, b in zip(nodes[:-1], nodes[1:])])
    t = t[np.min(np.abs(t[:, None] - nodes), axis=1) > 2e-3 * u]
    got = np.array([w.eval(float(v)) for v in t], float)
    close_each(got, f(t), f"{k}: current", rtol=1e-11, atol=1e-11)
    require(w.has_initial_fields == (start != 0), f"{k}: has_initial_fields {w.has_initial_fields} although the current starts at {start}")
    if c["kind"] == "stepoff":
        return [c["kind"]]
    close_each(np.unique(w.time_nodes), np.unique(nodes), f"{k}: time nodes", rtol=1e-12, atol=1e-12 * u)
    # derivative: scalar, array, 2D
    h = 1e-6 * u * 100
    near = np.min(np.abs(t[:, None] - nodes), axis=1) > 3 * h
    t = t[near]
    num = (8 * (f(t + h) - f(t - h)) - (f(t + 2 * h) - f(t - 2 * h))) / (12 * h)
    d = np.asarray(w.eval_deriv(t), float)
    close(d, num, f"{k}: derivative", rtol=1e-5, atol=1e-9 / h)
    close_each([float(w.eval_deriv(float(v))) for v in t], d, f"{k}: derivative of scalars", rtol=1e-14)
    if t.size > 1:
        n = t.size // 2
        close_each(w.eval_deriv(t[: 2 * n].reshape(2, n)), d[: 2 * n].reshape(2, n), f"{k}: derivative of 2D arrays", rtol=1e-14)
    return [c["kind"]] if np.ptp(got) > 0 else ["trivial"]


# -------------------------------------------------------------------------------------------------- convolution
def check_convolve(c):
    from simpeg.electromagnetics.utils import convolve_with_waveform

    w, f, nodes, start = waveform(dict(c, later=False))
    if c["kind"] in ("stepoff", "raw"):
        return ["trivial"]
    u = c["scale"]
    r = gen.rng(c, 2)
    lo, hi = nodes[0], nodes[-1]
    times = np.r_[hi + u * r.uniform(1, 50, 2), lo + (hi - lo) * r.random(2), lo - u]
    a = 20 * u * (1 + r.random())
    func = lambda t, k=1.0, p=1.0: k * np.exp(-t / (p * a)) / (1 + t / a)  # noqa: E731
    got = convolve_with_waveform(func, w, times, fargs=[2.0], fkwargs={"p": 1.5})
    for t, g in zip(times, got):
        # the response to a current is the sum of the step-off responses to its decreases; by parts: no derivative of the waveform
        edges = np.unique(np.r_[t, lo, nodes[nodes < t]])
        edges = edges[edges <= t]
        if t <= lo:
            want, scale = 0.0, 0.0
        else:
            e = np.concatenate([np.linspace(p, q, 21)[:-1] for p, q in zip(edges[:-1], edges[1:])] + [[t]])
            half = np.diff(e) / 2
            tt = (e[:-1, None] + half[:, None] * (x12 + 1)).ravel()
            qq = (half[:, None] * q12).ravel()
            s = lambda v: func(v, 2.0, 1.5)  # noqa: E731
            h = 1e-4 * a
            ds = (8 * (s(t - tt + h) - s(t - tt - h)) - (s(t - tt + 2 * h) - s(t - tt - 2 * h))) / (12 * h)
            end = float(f(np.array(t)))
            want = -(end * s(0.0) - float(start) * s(t - lo)) - np.sum(qq * f(tt) * ds)
        close_each(g, want, f"convolution with the {c['kind']} waveform at {t} (nodes {nodes})", rtol=1e-6, atol=1e-7)
    return [c["kind"]]


# -------------------------------------------------------------------------------------------------- wire paths
wire_case = st.fixed_dictionaries(
    {
        "mesh": st.one_of(gen.tensor_mesh(dim=3, nmin=2, nmax=5), gen.tree_mesh(dim=3)),
        "n": st.integers(2, 5),
        "closed": st.booleans(),
        "axis": st.sampled_from(["free", "free", "aligned", "nodes"]),
        "edge": st.booleans(),  # vertices in the outermost cells
        "seed": gen.seeds,
    }
)


def path_of(c, mesh, r):
    L = gen.lims(mesh)
    w = L[:, 1] - L[:, 0]
    margin = 0.001 if c["edge"] else 0.15
    p = L[:, 0] + w * (margin + (1 - 2 * margin) * r.random((c["n"], 3)))
    if c["edge"]:
        p[0] = L[:, 0] + w * np.where(r.random(3) < 0.5, 0.02, 0.98)
    if c["axis"] == "aligned":
        for i in range(1, c["n"]):
            k = r.integers(3)
            q = p[i - 1].copy()
            q[k] = p[i, k]
            p[i] = q
    if c["closed"]:
        p = np.vstack([p, p[:1]])
    return p


def check_wire(c):
    from simpeg.electromagnetics.utils import segmented_line_current_source_term as term

    mesh = gen.build_mesh(c["mesh"])
    if c["mesh"]["kind"] == "tree" and len(np.unique(mesh.cell_levels_by_index(np.arange(mesh.n_cells)))) > 1 and mesh.n_cells > 2000:
        return ["skip"]
    r = gen.rng(c)
    p = path_of(c, mesh, r)
    given = p.copy()
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        s = np.asarray(term(mesh, p))
    what = f"line current in a {c['mesh']['kind']} mesh, path {p.tolist()}"
    require(np.array_equal(p, given), f"{what}: the path was modified")
    require(s.shape == (mesh.n_edges,), f"{what}: shape {s.shape}")
    length = np.sum(np.linalg.norm(np.diff(p, axis=0), axis=1))
    # the moment of the path
    mom = mesh.edge_tangents.T @ s
    close(mom, p[-1] - p[0], f"{what}: moment", rtol=1e-9, atol=1e-9 * length)
    # charge: nothing but the ends
    P = mesh.get_interpolation_matrix(p[[0, -1]], "nodes").toarray()
    close(mesh.nodal_gradient.T @ s, P[1] - P[0], f"{what}: ends", rtol=1e-9, atol=1e-9)
    # the work of any edge field along the path
    e = r.standard_normal(mesh.n_edges)
    planes = [np.asarray(getattr(mesh, f"nodes_{a}")) for a in "xyz"]
    work, amount = 0.0, 0.0
    levels = c["mesh"]["kind"] == "tree"
    for a, b in zip(p[:-1], p[1:]):
        d = b - a
        t = [0.0, 1.0]
        for i in range(3):
            if abs(d[i]) > 1e-12 * length:
                t += [v for v in (planes[i] - a[i]) / d[i] if 0 < v < 1]
        t = np.unique(t)
        x, q = roots_legendre(3)
        tt = (t[:-1, None] + np.diff(t)[:, None] * (x + 1) / 2).ravel()
        qq = (np.diff(t)[:, None] * q / 2).ravel()
        for i, ax in enumerate("xyz"):
            # edge fields are constant along their edges within a cell, bilinear across
            ctr = (planes[i][:-1] + planes[i][1:]) / 2
            pts = a + tt[:, None] * d
            pts[:, i] = ctr[np.clip(np.searchsorted(planes[i], pts[:, i]) - 1, 0, ctr.size - 1)]
            v = mesh.get_interpolation_matrix(pts, f"edges_{ax}") @ e
            work += np.sum(qq * v) * d[i]
            amount += np.sum(qq * np.abs(v)) * abs(d[i])
    if not levels:
        close_each(s @ e, work, f"{what}: work of an edge field", rtol=1e-8, atol=1e-9 * amount)
    # reversed and split paths
    with warnings.catch_warnings(), contextlib.redirect_stdout(io.StringIO()):
        warnings.simplefilter("ignore")
        back = np.asarray(term(mesh, p[::-1]))
        parts = sum(np.asarray(term(mesh, p[i : i + 2])) for i in range(len(p) - 1))
    close(back, -s, f"{what}: reversed", rtol=1e-9, atol=1e-10 * length)
    close(parts, s, f"{what}: segment by segment", rtol=1e-9, atol=1e-10 * length)
    return [c["mesh"]["kind"], c["axis"]]


# ------------------------------------------------------------------------------------------- paths through faces
face_case = st.fixed_dictionaries(
    {"mesh": gen.tensor_mesh(dim=3, nmin=3, nmax=6), "n": st.integers(1, 4), "closed": st.booleans(), "norm": st.booleans(), "seed": gen.seeds}
)


def check_faces(c):
    from simpeg.electromagnetics.utils import line_through_faces

    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    shape = np.array(mesh.shape_cells)
    if c["closed"]:
        a = r.integers(shape - 1)
        k = r.permutation(3)[:2]
        b = a.copy()
        for i in k:
            b[i] = r.integers(a[i] + 1, shape[i])
        ijk = [a.copy()]
        q = a.copy()
        q[k[0]] = b[k[0]]
        ijk += [q.copy(), b.copy()]
        q = a.copy()
        q[k[1]] = b[k[1]]
        ijk += [q, a]
    else:
        ijk = [r.integers(shape)]
        axes = r.permutation(3)  # every axis once: no overlaps
        for k in axes[: min(c["n"], 3)]:
            q = ijk[-1].copy()
            q[k] = (q[k] + r.integers(1, shape[k])) % shape[k]
            ijk.append(q)
    cc = [np.asarray(getattr(mesh, f"cell_centers_{a}")) for a in "xyz"]
    p = np.array([[cc[i][v[i]] for i in range(3)] for v in ijk])
    p_in = p + 0.2 * np.min([h.min() for h in mesh.h]) * r.uniform(-1, 1, p.shape) * 0.5
    got = line_through_faces(mesh, p_in, normalize_by_area=c["norm"])
    flux = got * mesh.face_areas if c["norm"] else got
    what = f"line through faces of a tensor mesh {shape.tolist()}, cells {[v.tolist() for v in ijk]}"
    idx = lambda v: int(np.ravel_multi_index(tuple(v), tuple(shape), order="F"))  # noqa: E731
    want = np.zeros(mesh.n_cells)
    want[idx(ijk[0])] -= 1.0
    want[idx(ijk[-1])] += 1.0
    out = mesh.cell_volumes * (mesh.face_divergence @ (flux / mesh.face_areas))
    close(out, want, f"{what}: current conserved but at the ends", rtol=1e-9, atol=1e-9)
    require(np.all(np.isin(np.round(flux, 9), (-1.0, 0.0, 1.0))), f"{what}: fluxes {np.unique(flux)}")
    steps = sum(int(np.abs(np.array(b) - a).sum()) for a, b in zip(ijk[:-1], ijk[1:]))
    require(int(np.abs(np.round(flux)).sum()) == steps, f"{what}: {int(np.abs(flux).sum())} faces crossed, not {steps}")
    return ["closed" if c["closed"] else "open"]


# ---------------------------------------------------------------------------------------------------- spectra
spec_case = st.fixed_dictionaries({"n": st.integers(1, 4), "nf": st.integers(1, 5), "seed": gen.seeds})


def check_spectra(c):
    from simpeg.electromagnetics.utils.em1d_utils import ColeCole, LogUniform, get_vertical_discretization_frequency, get_vertical_discretization_time

    r = gen.rng(c)
    f = 10 ** r.uniform(-2, 5, c["nf"])
    n = c["n"]
    s, eta, tau, cc = 10 ** r.uniform(-3, 0, n), r.uniform(0, 0.9, n), 10 ** r.uniform(-4, 1, n), r.uniform(0.2, 1.0, n)
    want = np.array([[a * (1 - e / (1 + (1 - e) * (2j * np.pi * x * t) ** k)) for a, e, t, k in zip(s, eta, tau, cc)] for x in f])
    close_each(ColeCole(f, s, eta, tau, cc), want, "ColeCole", rtol=1e-12)
    close_each(ColeCole(f, s[0], eta[0], tau[0], cc[0]), want[:, 0], "ColeCole of scalars", rtol=1e-12)
    # log-uniform: the average of Debye relaxations over log-uniform times
    t1, t2 = 1e-5 * (1 + r.random()), 10 ** r.uniform(-3, 0)
    x, q = roots_legendre(60)
    got = LogUniform(f, chi_inf=0.03, del_chi=0.07, tau1=t1, tau2=t2)
    lt = np.log(t1) + (x + 1) / 2 * np.log(t2 / t1)
    mean = np.array([np.sum(q / 2 / (1 + 2j * np.pi * v * np.exp(lt))) for v in f])
    close_each(got, 0.03 + 0.07 * mean, "LogUniform", rtol=1e-6)
    with contextlib.redirect_stdout(io.StringIO()):
        for fun, arg in ((get_vertical_discretization_frequency, f), (get_vertical_discretization_time, 1 / f)):
            zmax = float(10 ** r.uniform(1, 3))
            h = fun(arg, n_layer=12, hz_min=1.5, z_max=zmax)
            require(h.size == 12 and np.isclose(h[0], 1.5) and h.sum() >= zmax and np.all(np.diff(h) > 0), f"{fun.__name__}: {h}")
    return ["spectra"]


SUBS = [
    Sub("waveform", wave_case, check_wave, quick=1500, thorough=30000, shards=3, cost=1.0),
    Sub("convolve", wave_case, check_convolve, quick=200, thorough=5000, shards=2, cost=2.0),
    Sub("wire", wire_case, check_wire, quick=250, thorough=5000, shards=4, cost=2.0),
    Sub("faces", face_case, check_faces, quick=300, thorough=5000, shards=2, cost=1.0),
    Sub("spectra", spec_case, check_spectra, quick=100, thorough=2000, shards=1, cost=1.0),
]
