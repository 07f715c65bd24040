"""C10: regularizations measure what they document, with exact derivatives."""

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from simpeg import maps, regularization as reg, utils

from lib import gen
from lib.oracle import check_directional, check_no_mutation, close, nrm, require
from lib.pbt import Sub

PROPERTY = "C10"
RULE = (
    "A case is a mesh (1-3D tensor, 2-3D tree), a set of active cells, a map, and a history of settings (weights set and removed, "
    "scalings, length scales, reference models, active cells, norms) on a least-squares, sparse, vector, similarity or "
    "full-gradient regularization, evaluated after every step. Values are compared with sums over cells and neighbouring pairs "
    "found by geometry, gradients with differences, Hessians (matrix and product) with each other and with the kernels. "
    "Non-trivial: at least two active neighbours and two steps or options away from the default."
)
ASSUMPTIONS = [
    "meshes of at most 130 cells",
    "weights given per face are only used where the number of faces differs from the number of cells (the code tells them apart by length)",
]

AX = "xyz"

# ------------------------------------------------------------------ geometry


class Geo:
    """cells, volumes and neighbours by brute force, restricted to active cells"""

    def __init__(self, mesh, act):
        self.tree = mesh._meshType == "TREE"
        self.dim = mesh.dim
        h = np.atleast_2d(mesh.h_gridded)
        if h.shape[0] != mesh.n_cells:
            h = h.T
        cc = np.asarray(mesh.cell_centers).reshape(mesh.n_cells, -1)
        idx = np.arange(mesh.n_cells) if act is None else np.flatnonzero(act)
        h, cc = h[idx], cc[idx]
        self.n, self.h, self.vol = len(idx), h, np.prod(h, axis=1)
        self.idx, self.N = idx, mesh.n_cells
        lo, hi = cc - h / 2, cc + h / 2
        tol = 1e-8 * h.min()
        self.pairs = []
        for a in range(self.dim):
            touch = np.abs(hi[:, None, a] - lo[None, :, a]) < tol
            for b in range(self.dim):
                if b != a:
                    ov = np.minimum(hi[:, None, b], hi[None, :, b]) - np.maximum(lo[:, None, b], lo[None, :, b])
                    touch &= ov > tol
            self.pairs.append(np.argwhere(touch))
        self.base = min(mesh.edge_lengths)

    def D(self, a):
        """gradient across the pairs along axis a"""
        P = self.pairs[a]
        hi, hj = self.h[P[:, 0], a], self.h[P[:, 1], a]
        s = 0.5 * (1 / hi + 1 / hj) if self.tree else 2 / (hi + hj)
        M = np.zeros((len(P), self.n))
        M[np.arange(len(P)), P[:, 0]] = -s
        M[np.arange(len(P)), P[:, 1]] = s
        return M, s

    def mean(self, a, w):
        P = self.pairs[a]
        return 0.5 * (w[P[:, 0]] + w[P[:, 1]])


def wrap(x):
    return (x + np.pi) % (2 * np.pi) - np.pi


mesh_any = st.one_of(gen.tensor_mesh(nmin=2, nmax=4, base=(1.0, 5.0)), gen.tensor_mesh(dim=2, nmin=2, nmax=6, base=(1.0, 25.0)), gen.tree_mesh(dim=2, logn=(2, 3)), gen.tree_mesh(dim=3, logn=(1, 2)))


def active(c, mesh, r):
    if c["act"] == "none":
        return None
    if c["act"] == "all":
        return np.ones(mesh.n_cells, bool)
    a = gen.active_cells(mesh, r, 0.75)
    return a


def make_map(kind, n, r):
    if kind == "none":
        return None, (lambda m: m), (lambda m: np.eye(n)), n
    if kind == "id":
        return maps.IdentityMap(nP=n), (lambda m: m), (lambda m: np.eye(n)), n
    if kind == "exp":
        return maps.ExpMap(nP=n), np.exp, (lambda m: np.diag(np.exp(m))), n
    k = max(1, n // 2)
    B = r.standard_normal((n, k))
    if kind == "lin":
        return maps.LinearMap(sp.csr_matrix(B)), (lambda m: B @ m), (lambda m: B), k
    if kind == "explin":
        return maps.ExpMap(nP=n) * maps.LinearMap(sp.csr_matrix(0.2 * B)), (lambda m: np.exp(0.2 * B @ m)), (lambda m: np.exp(0.2 * B @ m)[:, None] * (0.2 * B)), k
    if kind == "units":
        lab = r.integers(0, k, n)
        lab[:k] = np.arange(k)
        S = (lab[:, None] == np.arange(k)[None, :]).astype(float)
        return maps.SurjectUnits([s == 1 for s in S.T]), (lambda m: S @ m), (lambda m: S), k
    raise ValueError(kind)


def dense(H):
    return H.toarray() if sp.issparse(H) else np.asarray(H)


def judge(fun, m, v, ref_val, ref_g, ref_H, what, rtol=1e-8, mag=(1e-290, 1e-290)):
    """value, gradient, Hessian matrix and product against given references; mag: sizes before cancellation"""
    mc, vc = m.copy(), v.copy()
    close(float(fun(m)), float(ref_val), what + ": value", rtol, atol=1e-12 * mag[0])
    if ref_g is not None:
        close(np.asarray(fun.deriv(m)), ref_g, what + ": gradient", rtol, atol=1e-12 * mag[1])
    if ref_H is not None:
        H = dense(fun.deriv2(m))
        close(H, ref_H, what + ": Hessian", rtol, atol=1e-13 * nrm(ref_H) + 1e-300)
        close(np.asarray(fun.deriv2(m, v)).ravel(), ref_H @ v, what + ": Hessian product", rtol, scale=nrm(ref_H) * nrm(v) + 1e-300)
    check_no_mutation(mc, m, what)
    check_no_mutation(vc, v, what)


# ------------------------------------------------------------- least squares

ops = st.lists(
    st.one_of(
        st.tuples(st.just("set"), st.sampled_from(["a", "b"]), st.integers(0, 9)),
        st.tuples(st.just("set2"), st.just("a"), st.integers(0, 9)),
        st.tuples(st.just("remove"), st.sampled_from(["a", "b"]), st.just(0)),
        st.tuples(st.just("alpha"), st.sampled_from(["s", "x", "y", "z", "xx", "yy", "zz"]), st.sampled_from([0.0, 0.3, 2.0, 10.0])),
        st.tuples(st.just("length"), st.sampled_from(["x", "y", "z"]), st.sampled_from([0.5, 1.0, 3.0])),
        st.tuples(st.just("mref"), st.sampled_from(["none", "float", "array"]), st.integers(0, 9)),
        st.tuples(st.just("smoothref"), st.booleans(), st.just(0)),
        st.tuples(st.just("map"), st.sampled_from(["none", "id", "exp", "lin", "explin", "units"]), st.integers(0, 9)),
        st.tuples(st.just("units"), st.sampled_from(["radian", "metric"]), st.just(0)),
        st.tuples(st.just("active"), st.just(""), st.integers(0, 9)),
    ).map(list),
    min_size=0,
    max_size=6,
)

wls_case = st.fixed_dictionaries(
    {
        "mesh": mesh_any,
        "act": st.sampled_from(["none", "none", "all", "some", "some"]),
        "map": st.sampled_from(["none", "id", "exp", "lin", "explin", "units"]),
        "init": st.fixed_dictionaries(
            {
                "alphas": st.sampled_from(["default", "alpha", "length"]),
                "second": st.sampled_from(["default", "values", "auto"]),
                "weights": st.booleans(),
                "mref": st.sampled_from(["none", "float", "array"]),
                "smooth": st.booleans(),
            }
        ),
        "regmesh": st.booleans(),
        "ops": ops,
        "seed": gen.seeds,
    }
)


def wls_reference(S, m):
    """list of (multiplier name, value, gradient, hessian) of the terms, from the state S"""
    g = S["geo"]
    f, J = S["f"], S["J"]
    mref = S["mref"]
    out = []
    Jm = J(m)
    cw = np.prod([g.vol] + list(S["w"].values()), axis=0)
    r0 = f(m) - (f(mref) if mref is not None else 0.0)
    big = np.abs(f(m)) + (np.abs(f(mref)) if mref is not None else 0.0)
    out.append(("s", r0, Jm, cw, big))
    use = mref is not None and S["smooth"]
    d = f(m) - (f(mref) if use else 0.0)
    for a in range(g.dim):
        D, s = g.D(a)
        rad = S["units"] == "radian"
        r1 = wrap(np.sign(D) @ d) * s if rad else D @ d
        fw = np.prod([g.mean(a, w) for w in [g.vol] + list(S["w"].values())], axis=0)
        b1 = np.abs(D) @ big
        out.append((AX[a], r1, D @ Jm, fw, b1))
        out.append((AX[a] * 2, D.T @ r1, D.T @ D @ Jm, cw, np.abs(D.T) @ b1))
    return out


def cmp_wls(R, S, r):
    m = r.standard_normal(S["nP"])
    if S["units"] == "radian":
        m = 3.0 * m
    v = r.standard_normal(S["nP"])
    ref = {k: t for k, *t in wls_reference(S, m)}
    mag = np.zeros(2)
    tot, totg, totH = 0.0, np.zeros(S["nP"]), np.zeros((S["nP"],) * 2)
    require(len(R.objfcts) == len(ref), f"{len(R.objfcts)} terms, expected {len(ref)}")
    mult = list(R.multipliers)
    for mu, o in zip(mult, R.objfcts):
        key = "s" if type(o) is reg.Smallness else (o.orientation if type(o) is reg.SmoothnessFirstOrder else 2 * o.orientation)
        k, J, w, big = ref.pop(key)
        val, g, H = np.sum(w * k**2), 2 * J.T @ (w * k), 2 * J.T @ (w[:, None] * J)
        mg = np.r_[np.sum(w * big**2), 2 * nrm(np.abs(J).T @ (w * big))]
        judge(o, m, v, val, g, H, f"{type(o).__name__} {key}", mag=mg)
        mag += mu * mg
        close(mu, S["alpha"][key], f"multiplier of the {key} term", 1e-12)
        tot, totg, totH = tot + mu * val, totg + mu * g, totH + mu * H
    judge(R, m, v, tot, totg, totH, "weighted sum", mag=mag)
    for a in range(S["geo"].dim):
        close(getattr(R, f"length_scale_{AX[a]}"), np.sqrt(S["alpha"][AX[a]]) / S["geo"].base, f"length_scale_{AX[a]}", 1e-12)


def wls(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    act = active(c, mesh, r)
    geo = Geo(mesh, act)
    i = c["init"]
    mp, f, J, nP = make_map(c["map"], geo.n, r)
    S = {"geo": geo, "f": f, "J": J, "nP": nP, "w": {}, "mref": None, "smooth": i["smooth"], "units": None, "alpha": {"s": 1.0}}
    kw = {"mapping": mp, "reference_model_in_smooth": i["smooth"]}
    for a in range(3):
        S["alpha"][AX[a]] = geo.base**2
        S["alpha"][AX[a] * 2] = 0.0
        if i["alphas"] == "alpha":
            S["alpha"][AX[a]] = kw["alpha_" + AX[a]] = float(a + 0.5)
        elif i["alphas"] == "length":
            kw["length_scale_" + AX[a]] = a + 0.5
            S["alpha"][AX[a]] = ((a + 0.5) * geo.base) ** 2
        if i["second"] == "values":
            S["alpha"][AX[a] * 2] = kw["alpha_" + AX[a] * 2] = 0.2 * (a + 1)
        elif i["second"] == "auto":
            kw["alpha_" + AX[a] * 2] = None
            S["alpha"][AX[a] * 2] = S["alpha"][AX[a]] ** 2
    if i["weights"]:
        S["w"]["init"] = 0.1 + r.random(geo.n)
        kw["weights"] = {"init": S["w"]["init"].copy()}
    if i["mref"] == "float":
        kw["reference_model"] = 0.3
        S["mref"] = np.full(nP, 0.3)
    elif i["mref"] == "array":
        S["mref"] = r.standard_normal(nP)
        kw["reference_model"] = S["mref"].copy()
    if act is not None:
        kw["active_cells"] = act if r.random() < 0.5 else np.flatnonzero(act)
    M = reg.RegularizationMesh(mesh) if c["regmesh"] else mesh
    R = reg.WeightedLeastSquares(M, **kw)
    cmp_wls(R, S, r)
    done = 0
    for op, x, y in c["ops"]:
        q = np.random.default_rng([c["seed"], y if isinstance(y, int) else 0, done])
        if op == "set":
            S["w"][x] = 0.1 + q.random(S["geo"].n)
            R.set_weights(**{x: S["w"][x].copy()})
        elif op == "set2":
            for k in "ab":
                S["w"][k] = 0.1 + q.random(S["geo"].n)
            R.set_weights(a=S["w"]["a"].copy(), b=S["w"]["b"].copy())
        elif op == "remove":
            if x not in S["w"]:
                continue
            S["w"].pop(x)
            R.remove_weights(x)
        elif op == "alpha":
            setattr(R, "alpha_" + x, y)
            S["alpha"][x] = y
        elif op == "length":
            setattr(R, "length_scale_" + x, y)
            S["alpha"][x] = (y * geo.base) ** 2
        elif op == "mref":
            S["mref"] = None if x == "none" else (np.full(S["nP"], 0.7) if x == "float" else q.standard_normal(S["nP"]))
            R.reference_model = None if x == "none" else (0.7 if x == "float" else S["mref"].copy())
        elif op == "smoothref":
            S["smooth"] = x
            R.reference_model_in_smooth = x
        elif op == "units":
            S["units"] = x
            R.units = x
        elif op == "map":
            if S["mref"] is not None:
                S["mref"] = None
                R.reference_model = None
            mp, S["f"], S["J"], S["nP"] = make_map(x, S["geo"].n, q)
            if mp is None:
                mp = maps.IdentityMap(nP=S["geo"].n)
            R.mapping = mp
        elif op == "active":
            if act is not None:
                continue
            # restricts the mesh; weights are dropped with the cells they were for
            act = gen.active_cells(mesh, q, 0.75)
            S["mref"] = None
            R.reference_model = None
            R.active_cells = act
            S["geo"] = Geo(mesh, act)
            S["w"] = {}
            mp, S["f"], S["J"], S["nP"] = make_map("id", S["geo"].n, q)
            R.mapping = mp
        done += 1
        cmp_wls(R, S, r)
    return [] if sum(len(p) for p in geo.pairs) >= 2 and (done >= 1 or c["map"] not in ("none", "id") or i["weights"]) else ["trivial"]


# --------------------------------------------------------------------- sparse

norm_val = st.sampled_from([0.0, 0.0, 0.5, 1.0, 1.5, 2.0])
sparse_case = st.fixed_dictionaries(
    {
        "mesh": mesh_any,
        "act": st.sampled_from(["none", "all", "some"]),
        "map": st.sampled_from(["none", "id", "exp", "lin"]),
        "norms": st.lists(norm_val, min_size=4, max_size=4),
        "norms2": st.lists(norm_val, min_size=4, max_size=4),
        "array": st.booleans(),
        "grad": st.sampled_from(["total", "components"]),
        "scaled": st.booleans(),
        "eps": st.sampled_from([1e-2, 0.3, 1e-6]),
        "late": st.booleans(),
        "weights": st.booleans(),
        "mref": st.booleans(),
        "smooth": st.booleans(),
        "seed": gen.seeds,
    }
)


def irls(f, p, eps, scaled, scalemask=None):
    w = (f**2 + eps**2) ** (p / 2 - 1)
    if scaled:
        fm = np.abs(f).max() if scalemask is None else scalemask
        ft = np.where(p >= 1, fm, eps / np.sqrt(np.where(p < 1, 1 - p, 1.0)))
        lam = fm / ft * (ft**2 + eps**2) ** (1 - p / 2)
        w = w * lam
    return w


def sparse(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    act = active(c, mesh, r)
    g = Geo(mesh, act)
    mp, f, J, nP = make_map(c["map"], g.n, r)
    kw = {"mapping": mp, "reference_model_in_smooth": c["smooth"]}
    extra = np.ones(g.n)
    mref = None
    if c["mref"]:
        mref = r.standard_normal(nP)
        kw["reference_model"] = mref.copy()
    if act is not None:
        kw["active_cells"] = act
    norms = c["norms"][: g.dim + 1]
    late = c["late"]
    if not late:
        kw.update(norms=norms, gradient_type=c["grad"], irls_scaled=c["scaled"], irls_threshold=c["eps"])
    R = reg.Sparse(mesh, **kw)
    if late:
        R.norms = c["norms2"][: g.dim + 1]
        R.update_weights(r.standard_normal(nP))
        R(r.standard_normal(nP))
        R.norms, R.gradient_type, R.irls_scaled, R.irls_threshold = norms, c["grad"], c["scaled"], c["eps"]
    nv = [np.full(g.n, norms[0])] + [np.full(len(g.pairs[a]), norms[a + 1]) for a in range(g.dim)]
    if c["array"]:
        nv[0] = np.array([c["norms"][i % 4] for i in range(g.n)])
        R.objfcts[0].norm = nv[0].copy()
    if c["weights"]:
        extra = 0.2 + r.random(g.n)
        R.set_weights(extra=extra.copy())
    m0 = r.standard_normal(nP)
    R.update_weights(m0)
    if r.random() < 0.5:  # weights are those of the last update only
        R.update_weights(r.standard_normal(nP))
        R.update_weights(m0)
    m, v = r.standard_normal(nP), r.standard_normal(nP)

    def kernels(m):
        k = [f(m) - (f(mref) if mref is not None else 0.0)]
        d = f(m) - (f(mref) if mref is not None and c["smooth"] else 0.0)
        return k + [g.D(a)[0] @ d for a in range(g.dim)]

    k0 = kernels(m0)
    k1 = kernels(m)
    Jm = J(m)
    Js = [Jm] + [g.D(a)[0] @ Jm for a in range(g.dim)]
    ws = [irls(k0[0], nv[0], c["eps"], c["scaled"]) * g.vol * extra]
    tg = np.zeros(g.n)
    for a in range(g.dim):  # total gradient: mean of the two faces of the cell
        t = np.zeros(g.n)
        cnt = np.zeros(g.n)
        P = g.pairs[a]
        np.add.at(t, P[:, 0], k0[a + 1])
        np.add.at(t, P[:, 1], k0[a + 1])
        np.add.at(cnt, P.ravel(), 1.0)
        tg += np.abs(t) / (np.maximum(cnt, 1) if g.tree else 2.0)
    skip = False
    for a in range(g.dim):
        fm = g.mean(a, tg) if c["grad"] == "total" else k0[a + 1]
        mx = None
        if c["grad"] == "total" and act is None and not g.tree and fm.size:
            # outer faces of a mesh without active cells take part in the maximum
            mx = max(np.abs(fm).max(), np.abs(_outer(g, mesh, a, tg)).max(initial=0.0))
        if fm.size == 0 or np.abs(fm).max() == 0:
            skip = True
            ws.append(np.ones(len(fm)))
            continue
        ws.append(irls(fm, nv[a + 1], c["eps"], c["scaled"], mx) * g.mean(a, g.vol) * g.mean(a, extra))
    if skip:
        return ["trivial"]
    for i, o in enumerate(R.objfcts):
        # a threshold of 1e-6 makes the weights vary over 12 orders
        judge(o, m, v, np.sum(ws[i] * k1[i] ** 2), 2 * Js[i].T @ (ws[i] * k1[i]), 2 * Js[i].T @ (ws[i][:, None] * Js[i]), f"{type(o).__name__} {i}", 1e-7)
    mult = R.multipliers
    close(float(R(m)), float(sum(mu * np.sum(w * k**2) for mu, w, k in zip(mult, ws, k1))), "sparse regularization: sum of its terms", 1e-7)
    if all(n == 2 for n in norms) and not c["array"]:
        kw2 = {k: q for k, q in kw.items() if k not in ("norms", "gradient_type", "irls_scaled", "irls_threshold")}
        L = reg.WeightedLeastSquares(mesh, **kw2)
        L.set_weights(extra=extra)
        close(float(R(m)), float(L(m)), "norms of two are least squares", 1e-9)
    return [] if sum(len(p) for p in g.pairs) >= 2 and set(norms) != {2.0} else ["trivial"]


def _outer(g, mesh, a, tg):
    cc = np.asarray(mesh.cell_centers).reshape(mesh.n_cells, -1)[:, a]
    return tg[(cc == cc.min()) | (cc == cc.max())]


# --------------------------------------------------------------------- vector

vec_case = st.fixed_dictionaries(
    {
        "mesh": st.one_of(gen.tensor_mesh(dim=3, nmin=1, nmax=3), gen.tensor_mesh(dim=2, nmin=2, nmax=4), gen.tree_mesh(dim=2, logn=(2, 2)), gen.tree_mesh(dim=3, logn=(1, 2))),
        "act": st.sampled_from(["none", "all", "some"]),
        "map": st.sampled_from(["id", "lin", "exp"]),
        "ncomp": st.sampled_from([1, 2, 3, 3, 3]),
        "norm": st.sampled_from([2.0, 2.0, 1.0, 0.0]),
        "eps": st.sampled_from([1e-2, 0.3]),
        "w": st.sampled_from(["none", "cell", "flat", "matrix"]),
        "mref": st.booleans(),
        "smooth": st.booleans(),
        "scaled": st.booleans(),
        "seed": gen.seeds,
    }
)


def vector(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    act = active(c, mesh, r)
    g = Geo(mesh, act)
    q = c["ncomp"]
    N = q * g.n
    mp, f, J, nP = make_map(c["map"], N, r)
    kw = {}
    if act is not None:
        kw["active_cells"] = act
    R = reg.VectorAmplitude(mesh, mapping=mp, norms=[c["norm"]] * (g.dim + 1), gradient_type="components", irls_scaled=c["scaled"], irls_threshold=c["eps"], reference_model_in_smooth=c["smooth"], **kw)
    mref = None
    if c["mref"]:
        mref = r.standard_normal(nP)
        R.reference_model = mref.copy()
    wc = np.ones(g.n)
    if c["w"] == "cell":
        wc = 0.2 + r.random(g.n)
        R.set_weights(u=wc.copy())
    elif c["w"] != "none" and q > 1:
        wm = 0.2 + r.random((g.n, q))
        wc = np.linalg.norm(wm, axis=1)
        R.set_weights(u=wm.copy() if c["w"] == "matrix" else wm.flatten(order="F"))
    m0, m, v = r.standard_normal(nP), r.standard_normal(nP), r.standard_normal(nP)

    def vec(m, use=True):
        d = m - mref if (mref is not None and use) else m
        return f(d).reshape((g.n, q), order="F"), J(d)

    R.update_weights(m0)
    amb = {g.n, N}
    for i, o in enumerate(R.objfcts):
        use = i == 0 or c["smooth"]
        V0, _ = vec(m0, use)
        V, Jm = vec(m, use)
        if i == 0:
            D, mean = np.eye(g.n), (lambda w: w)
        else:
            D, mean = g.D(i - 1)[0], (lambda w, i=i: g.mean(i - 1, w))
            if len(D) == 0 or len(D) in amb:
                continue
        a0 = np.linalg.norm(D @ V0, axis=1)
        w = irls(a0, np.full(len(a0), c["norm"]), c["eps"], c["scaled"]) * mean(g.vol) * mean(wc)
        K = D @ V
        Jk = np.kron(np.eye(q), D) @ Jm
        wk = np.tile(w, q)
        kv = K.flatten(order="F")
        am = np.asarray(o.f_m(m))
        ref = np.linalg.norm(K, axis=1)
        if i:  # faces come in the order of the mesh; outer faces carry no gradient
            am, ref = np.sort(am[am > 1e-12 * am.max()]), np.sort(ref[ref > 1e-12 * ref.max()])
        close(am, ref, "amplitudes", 1e-9)
        judge(o, m, v, np.sum(w * np.sum(K**2, axis=1)), 2 * Jk.T @ (wk * kv), 2 * Jk.T @ (wk[:, None] * Jk), f"{type(o).__name__} {i}", 1e-8)
    # rotating all vectors changes nothing
    if c["map"] == "id" and q > 1 and mref is None:
        Q, _ = np.linalg.qr(r.standard_normal((q, q)))
        mr = (m.reshape((g.n, q), order="F") @ Q).flatten(order="F")
        close(float(R(mr)), float(R(m)), "amplitude regularization of rotated vectors", 1e-9)
    return [] if q > 1 and g.n > 2 else ["trivial"]


cross_case = st.fixed_dictionaries(
    {
        "mesh": st.one_of(gen.tensor_mesh(dim=3, nmin=1, nmax=3), gen.tensor_mesh(dim=2, nmin=1, nmax=4), gen.tree_mesh(dim=2, logn=(1, 2))),
        "act": st.sampled_from(["none", "some"]),
        "map": st.sampled_from(["none", "id", "lin", "exp"]),
        "single": st.booleans(),
        "w": st.sampled_from(["none", "cell", "flat", "matrix"]),
        "seed": gen.seeds,
    }
)


def crossref(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    act = active(c, mesh, r)
    g = Geo(mesh, act)
    q = g.dim
    mp, f, J, nP = make_map(c["map"], q * g.n, r)
    d = r.standard_normal((g.n, q)) if not c["single"] else r.standard_normal(q)
    kw = {} if act is None else {"active_cells": act}
    R = reg.CrossReferenceRegularization(mesh, d, mapping=mp, **kw)
    wc = np.ones(g.n)
    if c["w"] == "cell":
        wc = 0.2 + r.random(g.n)
        R.set_weights(u=wc.copy())
    elif c["w"] != "none":
        wm = 0.2 + r.random((g.n, q))
        wc = np.linalg.norm(wm, axis=1)
        R.set_weights(u=wm.copy() if c["w"] == "matrix" else wm.flatten(order="F"))
    m, v = r.standard_normal(nP), r.standard_normal(nP)
    dd = np.broadcast_to(d, (g.n, q))

    def value(m):
        V = f(m).reshape((g.n, q), order="F")
        if q == 3:
            X = np.cross(V, dd)
            return np.sum(g.vol * wc * np.sum(X**2, axis=1))
        return np.sum(g.vol * wc * (V[:, 0] * dd[:, 1] - V[:, 1] * dd[:, 0]) ** 2)

    close(float(R(m)), value(m), "cross reference: value", 1e-9)
    E = np.eye(nP)
    Jm = J(m)
    # the kernel is linear in the vectors: its matrix by columns
    full = np.zeros((nP, nP))

    def lin(u):
        V = u.reshape((g.n, q), order="F")
        s = np.sqrt(g.vol * wc)
        return (s[:, None] * np.cross(V, dd)).ravel() if q == 3 else s * (V[:, 0] * dd[:, 1] - V[:, 1] * dd[:, 0])

    K = np.array([lin(e) for e in np.eye(q * g.n)]).T @ Jm
    full = 2 * K.T @ K
    judge(R, m, v, value(m), 2 * Jm.T @ np.array([lin(e) for e in np.eye(q * g.n)]) @ lin(f(m)), full, "cross reference", 1e-8)
    if c["map"] in ("none", "id"):
        par = (dd * r.standard_normal((g.n, 1))).flatten(order="F")
        require(abs(float(R(par))) <= 1e-12 * (nrm(par) ** 2 * nrm(dd) ** 2 * g.vol.max() * wc.max() + 1e-300), "vectors along the reference direction are penalised")
    del E
    return [] if g.n > 1 else ["trivial"]


# ----------------------------------------------------------------- similarity

sim_case = st.fixed_dictionaries(
    {
        "mesh": st.one_of(gen.tensor_mesh(dim=2, nmin=2, nmax=4, base=(1.0, 5.0)), gen.tensor_mesh(dim=3, nmin=2, nmax=3, base=(1.0,)), gen.tree_mesh(dim=2, logn=(2, 3), base=(1.0,)), gen.tree_mesh(dim=3, logn=(1, 2), base=(1.0,)), gen.tensor_mesh(dim=1, nmin=2, nmax=6)),
        "act": st.sampled_from(["none", "some"]),
        "kind": st.sampled_from(["jtv", "cross", "crossfull", "linear"]),
        "k": st.sampled_from([2, 2, 3]),
        "eps": st.sampled_from([1e-3, 0.1, 1.0]),
        "w": st.booleans(),
        "coef": st.booleans(),
        "seed": gen.seeds,
    }
)


def cell_means(g, a, q, mesh, act):
    """mean over the faces of each cell of a quantity q on the pairs (zero on outer faces)"""
    P = g.pairs[a]
    t, cnt = np.zeros(g.n), np.zeros(g.n)
    np.add.at(t, P[:, 0], q)
    np.add.at(t, P[:, 1], q)
    np.add.at(cnt, P.ravel(), 1.0)
    return t / (np.maximum(cnt, 1) if g.tree else 2.0)


def similarity(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    act = active(c, mesh, r)
    g = Geo(mesh, act)
    kind = c["kind"]
    if kind.startswith("cross") and g.dim == 1:
        kind = "jtv"
    k = c["k"] if kind == "jtv" else 2
    wires = maps.Wires(*[(f"m{i}", g.n) for i in range(k)])
    kw = {} if act is None else {"active_cells": act}
    m, v = r.standard_normal(k * g.n), r.standard_normal(k * g.n)
    M = m.reshape(k, g.n)
    Ds = [g.D(a)[0] for a in range(g.dim)]
    if kind == "linear":
        coef = r.standard_normal(3) if c["coef"] else np.r_[1.0, -1.0, 0.0]
        R = reg.LinearCorrespondence(mesh, wires, coefficients=coef if c["coef"] else None, **kw)
        K = np.hstack([coef[0] * np.eye(g.n), coef[1] * np.eye(g.n)])
        rel = K @ m + coef[2]
        judge(R, m, v, rel @ rel, 2 * K.T @ rel, 2 * K.T @ K, "linear correspondence", 1e-9)
        return [] if g.n > 1 else ["trivial"]
    if kind == "jtv":
        R = reg.JointTotalVariation(mesh, wires, eps=c["eps"], **kw)
        w = np.ones(g.n)
        if c["w"]:
            w = 0.3 + r.random(g.n)
            R.set_weights(u=w.copy())
        g2 = sum(cell_means(g, a, sum((Ds[a] @ x) ** 2 for x in M), mesh, act) for a in range(g.dim))
        val = np.sum(np.sqrt((g.vol * w) ** 2 * g2 + c["eps"] * g.vol**2))
        exact = True
    else:
        exact = kind == "crossfull"
        R = reg.CrossGradient(mesh, wires, approx_hessian=not exact, **kw)
        s = {}
        for i, j in ((0, 0), (1, 1), (0, 1)):
            s[i, j] = sum(cell_means(g, a, (Ds[a] @ M[i]) * (Ds[a] @ M[j]), mesh, act) for a in range(g.dim))
        val = np.sum(g.vol * (s[0, 0] * s[1, 1] - s[0, 1] ** 2))
    sc = abs(val) + 1e-300
    close(float(R(m)), float(val), kind + ": value", 1e-9, atol=1e-12 * (sc if kind == "jtv" else np.sum(g.vol * s[0, 0] * s[1, 1])))
    gr = np.asarray(R.deriv(m))
    require(gr.shape == m.shape, "gradient has shape %s", gr.shape)
    h = 1e-3
    check_directional(lambda x: np.atleast_1d(R(x)), np.atleast_1d(gr @ v), m, v, h, kind + ": gradient", rtol=1e-6, floor=nrm(gr) * nrm(v) + 1e-9 * abs(float(np.sum(g.vol * s[0, 0] * s[1, 1]) if kind != "jtv" else val)))
    H = dense(R.deriv2(m))
    Hv = np.asarray(R.deriv2(m, v))
    dn = sum(nrm(D) ** 2 for D in Ds)
    big = g.vol.max() * nrm(m) ** 2 * dn**2 if kind != "jtv" else nrm(H)  # size before cancellation
    close(Hv, H @ v, kind + ": Hessian product", 1e-9, scale=nrm(H) * nrm(v), atol=1e-13 * big * nrm(v) + 1e-300)
    close(H, H.T, kind + ": Hessian is symmetric", 1e-10, atol=1e-13 * big)
    if exact:
        check_directional(R.deriv, Hv, m, v, h, kind + ": Hessian", rtol=1e-6, floor=nrm(H) * nrm(v) * 1e-2 + 1e-9 * big * nrm(v))
    elif kind == "cross":
        # Gauss-Newton: product of first derivatives; positive semi-definite
        ev = np.linalg.eigvalsh(0.5 * (H + H.T))
        require(ev.min() >= -1e-8 * ev.max() - 1e-12 * big, "approximate Hessian of the cross gradient is not positive semi-definite: %.2e of %.2e", ev.min(), ev.max())
    if kind != "jtv":
        # the cross gradients at cell centres (their sign in 2D is a convention)
        G = [np.stack([cell_means(g, a, Ds[a] @ M[i], mesh, act) for a in range(g.dim)], axis=1) for i in (0, 1)]
        for norm in (False, True):
            if norm:
                size = [np.linalg.norm(x, axis=1) for x in G]
                if any(np.any(np.abs(x - 1e-6 * x.max()) < 1e-7 * x.max()) for x in size):
                    continue  # at the cutoff
                H2 = [np.where((x > 1e-6 * x.max())[:, None], y / np.maximum(x, 1e-300)[:, None], 0.0) for x, y in zip(size, G)]
            else:
                H2 = G
            want = np.linalg.norm(np.cross(*H2), axis=1) if g.dim == 3 else np.abs(H2[0][:, 0] * H2[1][:, 1] - H2[0][:, 1] * H2[1][:, 0])
            got = np.abs(np.asarray(R.calculate_cross_gradient(m.copy(), normalized=norm)))
            close(got, want, f"cross gradients at cell centres (normalized {norm})", 1e-8, atol=1e-12 * (1 if norm else nrm(G[0]) * nrm(G[1])))
        # proportional models have no cross gradient
        mm = np.r_[M[0], 1.7 * M[0]]
        require(abs(float(R(mm))) <= 1e-9 * np.sum(g.vol * (1.7 * s[0, 0]) ** 2) + 1e-300, "proportional models have a cross gradient of %.2e", float(R(mm)))
    return [] if sum(len(p) for p in g.pairs) >= 2 else ["trivial"]


# -------------------------------------------------------------- full gradient

full_case = st.fixed_dictionaries(
    {
        "mesh": st.one_of(gen.tensor_mesh(dim=2, nmin=1, nmax=5), gen.tensor_mesh(dim=3, nmin=1, nmax=3)),
        "act": st.sampled_from(["none", "some", "some"]),
        "map": st.sampled_from(["none", "id", "exp", "lin"]),
        "alphas": st.sampled_from(["none", "one", "cells", "active"]),
        "dirs": st.sampled_from(["none", "one", "cells", "active"]),
        "w": st.sampled_from(["none", "cell", "face", "both"]),
        "mref": st.booleans(),
        "seed": gen.seeds,
    }
)


def full(c):
    import itertools

    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    act = active(c, mesh, r)
    g = Geo(mesh, act)
    d, N = g.dim, mesh.n_cells
    a_all = np.ones(N, bool) if act is None else act
    kw = {} if act is None else {"active_cells": act}
    base = np.min(mesh.edge_lengths) ** 2
    al = np.full((N, d), base)
    if c["alphas"] == "one":
        one = 0.1 + r.random(d)
        al, kw["alphas"] = np.tile(one, (N, 1)), one.copy()
    elif c["alphas"] != "none":
        al = 0.1 + r.random((N, d))
        kw["alphas"] = al[a_all].copy() if c["alphas"] == "active" else al.copy()
    Q = np.tile(np.eye(d), (N, 1, 1))
    if c["dirs"] == "one":
        q, _ = np.linalg.qr(r.standard_normal((d, d)))
        Q, kw["reg_dirs"] = np.tile(q, (N, 1, 1)), q.copy()
    elif c["dirs"] != "none":
        Q = np.array([np.linalg.qr(r.standard_normal((d, d)))[0] for _ in range(N)])
        kw["reg_dirs"] = Q[a_all].copy() if c["dirs"] == "active" else Q.copy()
    mp, f, J, nP = make_map(c["map"], g.n, r)
    mref = r.standard_normal(nP) if c["mref"] else None
    R = reg.SmoothnessFullGradient(mesh, mapping=mp, reference_model=None if mref is None else mref.copy(), **kw)
    cw = np.ones(N)
    fw = np.ones(mesh.n_faces)
    if c["w"] in ("cell", "both"):
        cw[a_all] = 0.2 + r.random(g.n)
        R.set_weights(u=cw[a_all].copy())
    if c["w"] in ("face", "both"):
        fw = 0.2 + r.random(mesh.n_faces)
        R.set_weights(v=fw.copy())
    A = np.einsum("ink,ik,imk->inm", Q, al, Q) * cw[:, None, None]
    m, v = r.standard_normal(nP), r.standard_normal(nP)
    # kernel: per (active cell, corner) the vector of one-sided gradients, as a matrix on the cells
    n = mesh.shape_cells
    sub = np.array(np.unravel_index(np.arange(N), n, order="F")).T
    pos = -np.ones(N, int)
    pos[a_all] = np.arange(g.n)
    nf = [tuple(n[b] + (a == b) for b in range(d)) for a in range(d)]
    off = np.cumsum([0] + [int(np.prod(s)) for s in nf])
    faces = np.zeros((mesh.n_faces, g.n))
    for a in range(d):
        for i in np.flatnonzero(a_all):
            t = sub[i].copy()
            t[a] += 1
            if t[a] >= n[a]:
                continue
            j = np.ravel_multi_index(t, n, order="F")
            if not a_all[j]:
                continue
            fidx = off[a] + np.ravel_multi_index(t, nf[a], order="F")
            s = 2.0 / (mesh.h[a][sub[i][a]] + mesh.h[a][t[a]])
            faces[fidx, pos[j]], faces[fidx, pos[i]] = s, -s
    faces = np.sqrt(fw)[:, None] * faces
    H0 = np.zeros((g.n, g.n))
    for i in np.flatnonzero(a_all):
        for corner in itertools.product((0, 1), repeat=d):
            rows = []
            for a in range(d):
                t = sub[i].copy()
                t[a] += corner[a]
                rows.append(faces[off[a] + np.ravel_multi_index(t, nf[a], order="F")])
            G = np.array(rows)
            H0 += mesh.cell_volumes[i] / 2**d * G.T @ A[i] @ G
    u = f(m) - (f(mref) if mref is not None else 0.0)
    Jm = J(m)
    judge(R, m, v, u @ H0 @ u, 2 * Jm.T @ (H0 @ u), 2 * Jm.T @ H0 @ Jm, "full gradient", 1e-8)
    return [] if sum(len(p) for p in g.pairs) >= 2 and c["dirs"] != "none" else ["trivial"]


# the same on tree meshes: there the gradient is that of discretize; scaling the mesh and the default
# weighting (smallest edge squared) scale the value by the volume

fulltree_case = st.fixed_dictionaries(
    {
        "mesh": st.one_of(gen.tree_mesh(dim=2, logn=(2, 3)), gen.tree_mesh(dim=3, logn=(1, 2), base=(1.0, 0.3)), gen.tree_mesh(dim=3, logn=(2, 2), base=(0.7, 5.0))),
        "act": st.sampled_from(["none", "some"]),
        "scale": st.sampled_from([0.1, 0.003, 7.0, 1e-4]),
        "seed": gen.seeds,
    }
)


def fulltree(c):
    r = gen.rng(c)
    mesh = gen.build_mesh(c["mesh"])
    act = active(c, mesh, r)
    d2 = dict(c["mesh"], h=[x * c["scale"] for x in c["mesh"]["h"]])
    if d2["origin"] == "shift":
        d2["origin"] = "0"
    mesh2 = gen.build_mesh(d2)
    require(mesh2.n_cells == mesh.n_cells, "harness: scaled mesh differs")
    kw = {} if act is None else {"active_cells": act}
    A, B = reg.SmoothnessFullGradient(mesh, **kw), reg.SmoothnessFullGradient(mesh2, **kw)
    n = mesh.n_cells if act is None else int(act.sum())
    m, v = r.standard_normal(n), r.standard_normal(n)
    s = c["scale"] ** mesh.dim
    va = float(A(m))
    close(float(B(m)), va * s, "full gradient on a scaled tree mesh", 1e-9, atol=1e-300)
    require(abs(float(A(np.ones(n)))) <= 1e-18 * n + 1e-20 * va, "constant model has a gradient of %.2e", float(A(np.ones(n))))
    H = dense(A.deriv2(m))
    close(float(m @ H @ m), 2 * va, "full gradient: value is half the quadratic form of the Hessian", 1e-9, atol=1e-300)
    close(np.asarray(A.deriv(m)), H @ m, "full gradient: gradient", 1e-9, atol=1e-300)
    close(np.asarray(A.deriv2(m, v)), H @ v, "full gradient: Hessian product", 1e-9, atol=1e-300)
    # two models that differ in one cell with neighbours are told apart from each other
    g = Geo(mesh, act)
    if act is None:
        has = np.zeros(n, bool)
        for P in g.pairs:
            has[P.ravel()] = True
        require(np.all(np.diag(H)[has] > 0), "a cell with neighbours is not connected to any")
    return [] if va > 0 else ["trivial"]


SUBS = [
    Sub("fulltree", fulltree_case, fulltree, quick=150, thorough=3000, shards=1, cost=0.5),
    Sub("wls", wls_case, wls, quick=1200, thorough=20000, shards=5, cost=4),
    Sub("sparse", sparse_case, sparse, quick=600, thorough=12000, shards=2, cost=2),
    Sub("vector", vec_case, vector, quick=400, thorough=6000, shards=1, cost=1),
    Sub("crossref", cross_case, crossref, quick=120, thorough=2000, shards=1, cost=0.5),
    Sub("similarity", sim_case, similarity, quick=500, thorough=8000, shards=1, cost=1),
    Sub("full", full_case, full, quick=400, thorough=6000, shards=1, cost=1),
]
