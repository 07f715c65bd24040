"""C07: Richards flow, straight-ray tomography and linear simulations."""

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

import discretize
from simpeg import maps, simulation, survey
from simpeg.flow import richards
from simpeg.seismic import straight_ray_tomography as tomo

from lib import gen, sens
from lib.oracle import check_directional, check_no_mutation, close, close_each, fail, nrm, require
from lib.pbt import Sub

PROPERTY = "C07"
RULE = (
    "A case is (a) a Haverkamp or van Genuchten curve with scalar or cell-wise parameters, some of them invertible through a map, "
    "at pressures of both signs; (b) an unsaturated-flow simulation (1-3D, mixed form, Picard or Newton) with pressure and "
    "saturation receivers between cells and times; (c) a straight-ray survey on a 2D mesh with rays that also start, end and run "
    "along cell boundaries or leave the mesh; (d) a linear simulation with a dense or sparse kernel and a dense or sparse map. "
    "Non-trivial: a non-zero derivative with a conclusive difference (a, b, d), or a ray that crosses two cells (c)."
)
ASSUMPTIONS = [
    "Richards: pressures are kept away from the kink at zero head; the root finder is run to 1e-10",
    "flow solutions are judged against an independent residual in 1D, away from the boundary cells",
    "rays of positive length",
]

# ---------------------------------------------------------------- curves

THETA = {"haverkamp": ("theta_r", "theta_s", "alpha", "beta"), "vg": ("theta_r", "theta_s", "alpha", "n")}
KFUN = {"haverkamp": ("Ks", "A", "gamma"), "vg": ("Ks", "I", "alpha", "n")}
BASE = {
    "haverkamp": dict(theta_r=0.075, theta_s=0.287, alpha=1.611e6, beta=3.96, Ks=9.44e-3, A=1.175e6, gamma=4.74),
    "vg": dict(theta_r=0.078, theta_s=0.43, alpha=0.036, n=1.56, Ks=24.96, I=0.5),
}


def draw_params(kind, r, n, spread=0.15):
    """scalar or cell-wise parameters around the reference soil"""
    out = {}
    for k, b in BASE[kind].items():
        s = spread * (0.2 if k in ("beta", "gamma", "n") else 1.0)
        out[k] = b * np.exp(s * r.uniform(-1, 1, n))
    return out


def theta_ref(kind, u, p):
    tr, ts = p["theta_r"], p["theta_s"]
    a = np.abs(u)
    if kind == "haverkamp":
        f = p["alpha"] * (ts - tr) / (p["alpha"] + a ** p["beta"]) + tr
    else:
        m = 1 - 1 / p["n"]
        f = (ts - tr) / (1 + (p["alpha"] * a) ** p["n"]) ** m + tr
    return np.where(u >= 0, ts * np.ones_like(u), f)


def k_ref(kind, u, p):
    a = np.abs(u)
    if kind == "haverkamp":
        f = p["Ks"] * p["A"] / (p["A"] + a ** p["gamma"])
    else:
        m = 1 - 1 / p["n"]
        se = (1 + (p["alpha"] * a) ** p["n"]) ** (-m)
        f = p["Ks"] * se ** p["I"] * (1 - (1 - se ** (1 / m)) ** m) ** 2
    return np.where(u >= 0, p["Ks"] * np.ones_like(u), f)


CLS = {
    ("haverkamp", "theta"): richards.empirical.Haverkamp_theta,
    ("haverkamp", "k"): richards.empirical.Haverkamp_k,
    ("vg", "theta"): richards.empirical.Vangenuchten_theta,
    ("vg", "k"): richards.empirical.Vangenuchten_k,
}
REF = {"theta": theta_ref, "k": k_ref}
NAMES = {"theta": THETA, "k": KFUN}

curve_case = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["haverkamp", "vg"]),
        "what": st.sampled_from(["theta", "k"]),
        "n": st.integers(1, 6),
        "inv": st.lists(st.booleans(), min_size=4, max_size=4),
        "exp": st.lists(st.booleans(), min_size=4, max_size=4),
        "scalar": st.booleans(),
        "decade": gen.floats(-1, 3, 1),
        "wet": st.sampled_from([0.0, 0.3, 1.0]),
        "seed": gen.seeds,
    }
)


def invertible(kind, names, inv, exps, p, n):
    """maps, fixed values and the model for the invertible parameters"""
    names_inv = [k for k, i in zip(names, inv) if i]
    kw, m = {}, []
    wires = maps.Wires(*[(k, n) for k in names_inv]) if names_inv else None
    for k, e in zip(names, exps):
        if k in names_inv:
            w = getattr(wires, k)
            pk = p[k] * np.ones(n)
            if e:
                kw[k + "Map"] = maps.ExpMap(nP=n) * w
                m.append(np.log(pk))
            else:
                kw[k + "Map"] = w
                m.append(pk)
        else:
            kw[k] = p[k]
    return kw, (np.concatenate(m) if m else None), names_inv


def decode(names_inv, exps_of, m, p, n):
    q = dict(p)
    for i, k in enumerate(names_inv):
        v = m[i * n : (i + 1) * n]
        q[k] = np.exp(v) if exps_of[k] else v
    return q


def curves(c):
    r = gen.rng(c)
    n, kind, what = c["n"], c["kind"], c["what"]
    mesh = discretize.TensorMesh([np.ones(n)])
    p = draw_params(kind, r, 1 if c["scalar"] else n)
    if c["scalar"]:
        p = {k: float(v[0]) for k, v in p.items()}
    names = NAMES[what][kind]
    kw, m, inv = invertible(kind, names, c["inv"], c["exp"], p, n)
    ex = dict(zip(names, c["exp"]))
    f = CLS[kind, what](mesh, **kw)
    u = -(10 ** c["decade"]) * (0.2 + r.random(n))
    wet = r.random(n) < c["wet"]
    u = np.where(wet, np.abs(u), u)
    uc = u.copy()
    if m is not None:
        mc = m.copy()
        f.model = m
    ref = REF[what](kind, u, p)
    close_each(np.asarray(f(u)), ref * np.ones(n), f"{kind} {what} curve", 1e-10)
    # derivative in the pressure, entry by entry
    hh = 1e-3 * np.abs(u)

    def du(h):
        return (REF[what](kind, u + h, p) - REF[what](kind, u - h, p)) / (2 * h)

    D = (4 * du(hh / 2) - du(hh)) / 3
    G = f.derivU(u)
    require(G.shape == (n, n), f"{kind} {what}: derivU has shape {G.shape}")
    scale = np.abs(ref) / np.abs(u)
    close_each(np.asarray(G @ np.ones(n)), D * np.ones(n), f"{kind} {what}: derivU", 1e-6, atol=1e-8 * scale.max())
    check_no_mutation(uc, u, f"{kind} {what}")
    lab = [kind, what]
    if m is None:
        return lab + ["trivial"]
    M = f.derivM(u)
    v = r.standard_normal(m.size) * np.maximum(np.abs(m), 1e-3)
    Mv = np.asarray(M @ v).ravel() if not isinstance(M, int) else 0
    ok = check_directional(
        lambda x: REF[what](kind, u, decode(inv, ex, x, p, n)) * np.ones(n),
        Mv, m, v, 1e-3, f"{kind} {what}: derivM for {inv}", rtol=1e-6, blocks=[[i] for i in range(n)],
    )
    check_no_mutation(mc, m, f"{kind} {what}")
    return lab if ok else lab + ["trivial"]


# ---------------------------------------------------------------- Richards

flow_case = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["haverkamp", "vg"]),
        "dim": st.sampled_from([1, 1, 2, 3]),
        "nz": st.integers(3, 7),
        "nx": st.integers(2, 3),
        "uneven": st.booleans(),
        "bc": st.sampled_from(["dirichlet", "mixed", "neumann-lateral"]),
        "inv_k": st.lists(st.booleans(), min_size=4, max_size=4),
        "inv_t": st.lists(st.booleans(), min_size=4, max_size=4),
        "exp": st.lists(st.booleans(), min_size=8, max_size=8),
        "newton": st.booleans(),
        "nt": st.integers(1, 4),
        "dt": st.sampled_from([5.0, 20.0, 60.0]),
        "rx": st.lists(st.tuples(st.sampled_from(["p", "s"]), st.integers(1, 3), st.integers(1, 3)), min_size=1, max_size=3),
        "order": st.integers(0, 3),
        "seed": gen.seeds,
    }
)


def flow_setup(c):
    r = gen.rng(c)
    kind, dim = c["kind"], c["dim"]
    nz = c["nz"] if dim < 3 else min(c["nz"], 4)
    L = [np.ones(c["nx"]) for _ in range(dim - 1)] + [np.ones(nz)]
    if c["uneven"]:
        L = [h * r.uniform(0.6, 1.8, h.size) for h in L]
    L = [10 * h if kind == "haverkamp" else 5 * h for h in L]
    mesh = discretize.TensorMesh(L)
    import warnings

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if c["bc"] == "dirichlet" or (dim == 1 and c["bc"] != "mixed"):
            mesh.set_cell_gradient_BC("dirichlet")
        elif c["bc"] == "mixed":
            bc = ["neumann"] * (dim - 1) + [["dirichlet", "neumann"]]
            mesh.set_cell_gradient_BC(bc if dim > 1 else [bc[0]])
        else:
            mesh.set_cell_gradient_BC(["neumann"] * (dim - 1) + ["dirichlet"])
        nb = mesh.cell_gradient_BC.shape[1]
    p = draw_params(kind, r, mesh.nC)
    lo, hi = (-61.5, -20.7) if kind == "haverkamp" else (-40.0, -8.0)
    bcv = lo + (hi - lo) * r.random(nb)
    h0 = lo + 0.3 * (hi - lo) * r.random(mesh.nC)
    if c["kind"] == "vg":
        p["Ks"] = p["Ks"] * 1e-2
    n = mesh.nC
    kn, tn = KFUN[kind], THETA[kind]
    allinv = [("k_" + k, i) for k, i in zip(kn, c["inv_k"])] + [("t_" + k, i) for k, i in zip(tn, c["inv_t"])]
    if not any(i for _, i in allinv):
        allinv[0] = (allinv[0][0], True)
    used = [k for k, i in allinv if i]
    ex = dict(zip([k for k, _ in allinv], c["exp"]))
    wires = maps.Wires(*[(k, n) for k in used])
    m = []
    kws = {"k": {}, "t": {}}
    for full, _ in allinv:
        s, k = full.split("_", 1)
        if full in used:
            w = getattr(wires, full)
            if ex[full]:
                kws[s][k + "Map"] = maps.ExpMap(nP=n) * w
                m.append(np.log(p[k]))
            else:
                kws[s][k + "Map"] = w
                m.append(p[k])
        else:
            kws[s][k] = p[k]
    m = np.concatenate(m)
    tm = np.r_[np.full(c["nt"], c["dt"])] * r.uniform(0.5, 1.5, c["nt"])
    if kind == "vg":
        tm = tm * 1e-2
    T = tm.sum()
    rxs = [(k, gen.inside_points(mesh, r, nl, 0.15), np.sort(r.uniform(0, T, ntm))) for k, nl, ntm in c["rx"]]

    def make(newton=c["newton"], with_rx=True):
        lst = [
            (richards.receivers.Pressure if k == "p" else richards.receivers.Saturation)(x.copy(), t.copy())
            for k, x, t in rxs
        ]
        s = richards.SimulationNDCellCentered(
            mesh,
            survey=richards.Survey(lst),
            hydraulic_conductivity=CLS[kind, "k"](mesh, **kws["k"]),
            water_retention=CLS[kind, "theta"](mesh, **kws["t"]),
            boundary_conditions=bcv,
            initial_conditions=h0,
            do_newton=newton,
            root_finder_tol=1e-11,
            root_finder_max_iter=100,
            method=c.get("method", "mixed"),
        )
        s.time_steps = tm
        return s

    return r, mesh, p, m, used, ex, make, tm, bcv, h0


def converged(s, m, f):
    """did the root finder reach its tolerance, clear of the kink at saturation?"""
    for i, dt in enumerate(s.time_steps):
        if f[i + 1] is None or not np.all(np.isfinite(f[i + 1])):
            return False
        if np.linalg.norm(s.getResidual(m, f[i], f[i + 1], dt, s.boundary_conditions, return_g=False)) > 1e-9:
            return False
        if np.any(f[i + 1] > -0.5):
            return False
    return True


def flow(c):
    import contextlib, io

    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return _flow(c)
        except TypeError as e:
            # the Newton line search gives up (returns None) on a step it cannot solve
            if "NoneType" in str(e):
                return ["unconverged", "trivial"]
            raise


def _flow(c):
    r, mesh, p, m, used, ex, make, tm, bcv, h0 = flow_setup(c)
    s = make()
    f = s.fields(m)
    if not converged(s, m, f):
        return ["unconverged", "trivial"]
    hc, bc = h0.copy(), bcv.copy()
    v = r.standard_normal(m.size) * np.maximum(np.abs(m) * np.where(np.abs(m) > 1, 0.1, 1.0), 1e-3)
    nD = [len(x.times) * x.locations.shape[0] for x in s.survey.receiver_list]
    require(int(s.survey.nD) == sum(nD), "Richards survey.nD")
    off = np.r_[0, np.cumsum(nD)]
    blocks = [np.arange(off[i], off[i + 1]) for i in range(len(nD))]
    lab = sens.judge(
        make, m, v, r, f"Richards {c['kind']} {c['dim']}D {used}", h=2e-3, rtol=2e-5, blocks=blocks,
        J=lambda q, x: q.Jfull(x), order=c["order"], rep_rtol=1e-7, adj_rtol=1e-7,
    )
    # Picard and Newton reach the same solution
    d = s.dpred(m, f=f)
    other = make(newton=not c["newton"])
    f2 = other.fields(m)
    if converged(other, m, f2):
        close(np.concatenate(f2), np.concatenate(f), "Richards: Picard and Newton disagree", 1e-6)
    # data are the interpolated fields
    q = dict(p)
    for i, k in enumerate(used):
        x = m[i * mesh.nC : (i + 1) * mesh.nC]
        if k.startswith("t_"):
            q[k[2:]] = np.exp(x) if ex[k] else x
    tn = np.r_[0.0, np.cumsum(tm)]
    U = np.array([np.asarray(x) for x in f])
    TH = np.array([theta_ref(c["kind"], x, q) for x in U])
    j = 0
    for (k, nl, ntm), rx in zip(c["rx"], s.survey.receiver_list):
        A = TH if k == "s" else U
        P = mesh.get_interpolation_matrix(rx.locations, "CC")
        S = (P @ A.T).T
        for t in rx.times:
            w = np.array([np.interp(t, tn, S[:, i]) for i in range(S.shape[1])])
            close(d[j : j + w.size], w, "Richards: data are not the fields at the receiver's places and times", 1e-9)
            j += w.size
    check_no_mutation(hc, h0, "Richards initial conditions")
    check_no_mutation(bc, bcv, "Richards boundary conditions")
    close(f[0], h0, "Richards: first field is the initial condition", 0)
    return lab + [c["kind"], f"{c['dim']}D"]


residual_case = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["haverkamp", "vg"]),
        "dim": st.just(1),
        "nz": st.integers(4, 12),
        "nx": st.just(2),
        "uneven": st.booleans(),
        "bc": st.sampled_from(["dirichlet", "mixed"]),
        "inv_k": st.just([True, False, False, False]),
        "inv_t": st.just([False, True, False, False]),
        "exp": st.lists(st.booleans(), min_size=8, max_size=8),
        "newton": st.booleans(),
        "method": st.sampled_from(["mixed", "head"]),
        "nt": st.integers(1, 4),
        "dt": st.sampled_from([5.0, 20.0, 60.0]),
        "rx": st.just([["p", 1, 1]]),
        "seed": gen.seeds,
    }
)


def residual(c):
    import contextlib, io

    with contextlib.redirect_stdout(io.StringIO()):
        try:
            return _residual(c)
        except TypeError as e:
            # the Newton line search gives up (returns None) on a step it cannot solve
            if "NoneType" in str(e):
                return ["unconverged", "trivial"]
            raise


def _residual(c):
    r, mesh, p, m, used, ex, make, tm, bcv, h0 = flow_setup(c)
    if c["method"] == "head":
        # the saturated content acts on the storage only
        pass
    s = make()
    f = s.fields(m)
    if not converged(s, m, f):
        return ["unconverged", "trivial"]
    dim = mesh.dim
    if dim > 1:
        # a laterally uniform soil column behaves like the one-dimensional column
        raise NotImplementedError
    h = mesh.h[0]
    kind = c["kind"]
    d = 0.5 * (h[1:] + h[:-1])
    # the interior-face gradient of the mesh
    for i, dt in enumerate(tm):
        u0, u1 = f[i], f[i + 1]
        K = k_ref(kind, u1, p)
        if c["method"] == "mixed":
            store = (theta_ref(kind, u1, p) - theta_ref(kind, u0, p)) / dt
        else:
            e = 1e-4 * np.abs(u1)
            D = (theta_ref(kind, u1 + e, p) - theta_ref(kind, u1 - e, p)) / (2 * e)
            e = e / 2
            D2 = (theta_ref(kind, u1 + e, p) - theta_ref(kind, u1 - e, p)) / (2 * e)
            store = (4 * D2 - D) / 3 * (u1 - u0) / dt
        Kf = 2.0 / (1.0 / K[1:] + 1.0 / K[:-1])
        q = -Kf * ((u1[1:] - u1[:-1]) / d + 1.0)
        div = (q[1:] - q[:-1]) / h[1:-1]
        scale = np.abs(store[1:-1]).max() + np.abs(q).max() / h.min()
        close(store[1:-1], -div, f"Richards {c['method']}: the solution does not balance water in the cells", 1e-6, scale=scale)
    moved = nrm(f[-1] - h0) > 1e-3 * nrm(h0)
    return [c["method"]] if moved else [c["method"], "trivial"]


def lateral(c):
    """a soil column repeated sideways is the same column (fixed inputs: known finding)"""
    import contextlib, io, warnings

    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        out = []
        for dim in (1, c["dim"]):
            mesh = discretize.TensorMesh([np.ones(2) * 10] * (dim - 1) + [np.ones(8) * 5])
            mesh.set_cell_gradient_BC(["neumann"] * (dim - 1) + ["dirichlet"] if dim > 1 else "dirichlet")
            nlat = 2 ** (dim - 1)
            b = np.r_[np.zeros(mesh.cell_gradient_BC.shape[1] - 2 * nlat), np.full(nlat, -61.5), np.full(nlat, -20.7)]
            k, t = richards.empirical.haverkamp(mesh, **BASE["haverkamp"])
            s = richards.SimulationNDCellCentered(
                mesh, hydraulic_conductivity=k, water_retention=t, boundary_conditions=b,
                initial_conditions=np.full(mesh.nC, -61.5), root_finder_tol=1e-9,
            )
            s.time_steps = [60.0] * 4
            u = s.fields()[-1]
            out.append(u.reshape(nlat, -1, order="F")[0] if dim > 1 else u)
        close(out[1], out[0], f"Richards: {c['dim']}D column differs from the 1D column", 1e-5)
    return []


# ---------------------------------------------------------------- rays

ray_case = st.fixed_dictionaries(
    {
        "mesh": gen.tensor_mesh(dim=2, nmin=1, nmax=6),
        "src": st.lists(
            st.tuples(st.sampled_from(["in", "out", "node", "edge", "far"]), st.lists(st.sampled_from(["in", "out", "node", "edge", "alongx", "alongy", "far"]), min_size=1, max_size=4)),
            min_size=1,
            max_size=3,
        ),
        "split": st.booleans(),
        "map": st.sampled_from(["id", "exp", "recip"]),
        "seed": gen.seeds,
    }
)


def ray_point(kind, mesh, L, w, r, other=None):
    if kind == "in":
        return L[:, 0] + w * r.random(2)
    if kind == "out":
        return L[:, 0] + w * r.uniform(-0.5, 1.5, 2)
    if kind == "far":
        return L[:, 0] + w * (1.2 + r.random(2))
    if kind == "node":
        return mesh.nodes[r.integers(mesh.n_nodes)].copy()
    if kind == "edge":
        x = L[:, 0] + w * r.random(2)
        k = r.integers(2)
        x[k] = r.choice([mesh.nodes_x, mesh.nodes_y][k])
        return x
    x = L[:, 0] + w * r.random(2)
    if kind == "alongx":
        x[1] = other[1]
    else:
        x[0] = other[0]
    return x


def clip(a, b, x0, x1, y0, y1):
    """Liang-Barsky: (t0, t1) of the segment a->b inside the closed box"""
    t0, t1 = 0.0, 1.0
    d = b - a
    for k, (lo, hi) in enumerate(((x0, x1), (y0, y1))):
        if d[k] == 0:
            if a[k] < lo or a[k] > hi:
                return None
            continue
        p, q = (lo - a[k]) / d[k], (hi - a[k]) / d[k]
        if p > q:
            p, q = q, p
        t0, t1 = max(t0, p), min(t1, q)
    return (t0, t1) if t1 > t0 else None


def rays(c):
    r = gen.rng(c)
    mesh = gen.build_mesh(c["mesh"])
    L = gen.lims(mesh)
    w = L[:, 1] - L[:, 0]
    srcs, segs = [], []
    for sk, rks in c["src"]:
        a = ray_point(sk, mesh, L, w, r)
        B = [ray_point(k, mesh, L, w, r, a) for k in rks]
        B = [b for b in B if np.linalg.norm(b - a) > 1e-6 * w.max()]
        if not B:
            continue
        segs += [(a, b) for b in B]
        B = np.array(B)
        rl = [survey.BaseRx(x) for x in np.split(B, [1])] if c["split"] and len(B) > 1 else [survey.BaseRx(B)]
        srcs.append(survey.BaseSrc(location=a, receiver_list=rl))
    if not srcs:
        return ["trivial"]
    n = mesh.nC
    if c["map"] == "id":
        mp, m = maps.IdentityMap(nP=n), 0.5 + r.random(n)
        slow = m
    elif c["map"] == "exp":
        mp, m = maps.ExpMap(nP=n), r.standard_normal(n)
        slow = np.exp(m)
    else:
        mp, m = maps.ReciprocalMap(nP=n), 0.5 + r.random(n)
        slow = 1 / m
    sv = tomo.Survey(srcs)
    make = lambda: tomo.Simulation(mesh, survey=sv, slownessMap=mp)  # noqa: E731
    s = make()
    require(int(sv.nD) == len(segs), "ray survey.nD")
    d = np.asarray(s.dpred(m))
    require(d.shape == (len(segs),), f"ray data have shape {d.shape}")
    A = s.A.toarray() if sp.issparse(s.A) else np.asarray(s.A)
    X, Y = mesh.nodes_x, mesh.nodes_y
    multi = False
    tol = 1e-9 * w.max()
    for i, (a, b) in enumerate(segs):
        Lr = np.linalg.norm(b - a)
        row = np.zeros(mesh.shape_cells, float)
        cnt = 0
        for ix in range(len(X) - 1):
            for iy in range(len(Y) - 1):
                t = clip(a, b, X[ix], X[ix + 1], Y[iy], Y[iy + 1])
                if t is not None:
                    row[ix, iy] = (t[1] - t[0]) * Lr
                    cnt += row[ix, iy] > tol
        box = clip(a, b, X[0], X[-1], Y[0], Y[-1])
        total = (box[1] - box[0]) * Lr if box else 0.0
        got = A[i]
        what = f"ray {a.tolist()} -> {b.tolist()}"
        require(np.all(got >= -tol), f"{what}: negative length")
        # along a shared boundary the two cells may share the length in any way
        along = row.sum() > total + 1e-7 * w.max()
        if along:
            require(np.all(got <= row.ravel(order="F") + 1e-7 * w.max()), f"{what}: longer than the cell")
        else:
            close(got, row.ravel(order="F"), f"{what}: lengths in the cells", 1e-8, atol=1e-7 * w.max())
        require(abs(got.sum() - total) <= 1e-7 * w.max(), f"{what}: the lengths add up to {got.sum():.6g}, the ray inside the mesh is {total:.6g}")
        multi |= cnt > 1
        close(d[i], got @ slow, f"{what}: travel time", 1e-9)
        # a shared boundary needs no particular cell, so its reverse has the same time within the two slownesses
        if not along:
            back = tomo.Simulation(mesh, survey=tomo.Survey([survey.BaseSrc(location=b, receiver_list=[survey.BaseRx(a[None, :])])]), slownessMap=mp)
            close(np.asarray(back.dpred(m)), d[i : i + 1], f"{what}: travel time of the reversed ray", 1e-7, atol=1e-7 * w.max() * slow.max())
    v = r.standard_normal(n) * 0.3
    blocks = [[i] for i in range(len(segs))]
    sens.judge(make, m, v, r, "straight rays", h=1e-2, rtol=1e-6, blocks=[np.array(b) for b in blocks], floor=1e-8)
    return [] if multi else ["trivial"]


# ---------------------------------------------------------------- linear

linear_case = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["dense", "sparse", "expsin"]),
        "nD": st.integers(1, 6),
        "n": st.integers(2, 7),
        "map": st.sampled_from(["id", "exp", "linear", "denselinear", "poly", "sum", "inject"]),
        "pq": st.tuples(gen.floats(-1, 0.2, 2), gen.floats(0, 2, 2), gen.floats(0, 2, 1), gen.floats(0, 10, 1)),
        "order": st.integers(0, 3),
        "seed": gen.seeds,
    }
)


def linear_map(kind, n, r):
    if kind == "id":
        return maps.IdentityMap(nP=n), r.standard_normal(n), lambda m: m
    if kind == "exp":
        return maps.ExpMap(nP=n), r.standard_normal(n), np.exp
    if kind in ("linear", "denselinear"):
        k = int(r.integers(1, n + 2))
        B = r.standard_normal((n, k))
        b = r.standard_normal(n)
        return maps.LinearMap(B if kind == "denselinear" else sp.csr_matrix(B), b), r.standard_normal(k), lambda m: B @ m + b
    if kind == "poly":
        k = int(r.integers(1, n + 2))
        B = r.standard_normal((n, k))
        return maps.LinearMap(B) * maps.ExpMap(nP=k), 0.5 * r.standard_normal(k), lambda m: B @ np.exp(m)
    if kind == "sum":
        k = int(r.integers(1, n + 2))
        B = r.standard_normal((n, k))
        C = r.standard_normal((n, k))
        return maps.SumMap([maps.LinearMap(B), maps.LinearMap(C)]), r.standard_normal(k), lambda m: (B + C) @ m
    act = r.random(n) < 0.6
    act[0] = True
    out = np.full(n, 0.7)

    def f(m):
        o = out.copy()
        o[act] = m
        return o

    mesh = discretize.TensorMesh([n])
    return maps.InjectActiveCells(mesh, act, 0.7), r.standard_normal(int(act.sum())), f


def linear(c):
    r = gen.rng(c)
    n, nD = c["n"], c["nD"]
    mp, m, fun = linear_map(c["map"], n, r)
    if c["kind"] == "expsin":
        h = 0.1 + r.random(n)
        mesh = discretize.TensorMesh([h / h.sum()])
        p, q, j0, dj = c["pq"]
        make = lambda: simulation.ExponentialSinusoidSimulation(mesh, n_kernels=nD, p=p, q=q, j0=j0, jn=j0 + dj, model_map=mp)  # noqa: E731
        j = np.linspace(j0, j0 + dj, nD)
        x = mesh.nodes_x
        g = np.exp(p * np.outer(j, x)) * np.cos(np.pi * q * np.outer(j, x))
        G = 0.5 * (g[:, 1:] + g[:, :-1]) * mesh.h[0]
    else:
        G = r.standard_normal((nD, n))
        if c["kind"] == "sparse":
            G = G * (r.random((nD, n)) < 0.6)
        Gin = sp.csr_matrix(G) if c["kind"] == "sparse" else G
        make = lambda: simulation.LinearSimulation(model_map=mp, G=Gin)  # noqa: E731
    s = make()
    what = f"linear simulation ({c['kind']}, {c['map']})"
    require(int(s.survey.nD) == nD, f"{what}: survey.nD is {s.survey.nD}")
    close(np.asarray(s.dpred(m)), G @ fun(m), f"{what}: data are not G times the mapped model", 1e-10)
    v = r.standard_normal(m.size)
    return sens.judge(
        make, m, v, r, what, h=1e-2, rtol=1e-7, blocks=[np.arange(nD)], J=lambda q, x: q.getJ(x), order=c["order"]
    )


SUBS = [
    Sub("curves", curve_case, curves, quick=900, thorough=20000, shards=2, cost=1),
    Sub("richards", flow_case, flow, quick=56, thorough=2500, shards=8, cost=6),
    Sub("residual", residual_case, residual, quick=120, thorough=3000, shards=2, cost=3),
    Sub("lateral", st.fixed_dictionaries({"dim": st.just(1)}), lateral, quick=1, thorough=1),
    Sub("rays", ray_case, rays, quick=250, thorough=6000, shards=3, cost=3),
    Sub("linear", linear_case, linear, quick=500, thorough=10000, shards=2, cost=1),
]
