"""C09: objective functions form a linear algebra with exact derivatives."""

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

import discretize
from simpeg import data, data_misfit, maps, objective_function as of, regularization, simulation, survey, utils

from lib import gen
from lib.oracle import check_directional, check_no_mutation, close, nrm, require
from lib.pbt import Sub

PROPERTY = "C09"
RULE = (
    "A case is an expression tree over objective functions: weighted l2 functions with linear and nonlinear maps, data misfits "
    "of linear simulations (diagonal and full weights), smallness / smoothness / least-squares regularizations, combined by +, "
    "scalar * (python and numpy scalars, Zero, zero), /, explicit combos and changed multipliers. Its value, gradient, Hessian "
    "(matrix and product) and stacked W are compared with numpy evaluations of the same tree; operands must be unchanged. "
    "Non-trivial: at least two leaves with non-zero multiplier."
)
ASSUMPTIONS = ["up to 4 levels, 8 leaves, 12 parameters; sparse or dense-free weighting matrices as documented"]

leaf = st.fixed_dictionaries(
    {
        "leaf": st.sampled_from(["l2", "l2", "misfit", "misfitW", "small", "smooth", "wls"]),
        "map": st.sampled_from(["none", "id", "exp", "linear", "affine"]),
        "salt": st.integers(0, 50),
    }
)
mults = st.one_of(
    st.sampled_from([0.0, 1.0, 2.0, 0.5, 3.0]).map(lambda x: ["py", x]),
    st.sampled_from([1, 2, 0]).map(lambda x: ["int", x]),
    st.sampled_from([0.25, 2.0]).map(lambda x: ["np64", x]),
    st.sampled_from([0.5, 4.0]).map(lambda x: ["np32", x]),
    st.sampled_from([2, 3]).map(lambda x: ["npint", x]),
    st.just(["Zero", 0]),
)


def node(kids):
    return st.one_of(
        st.fixed_dictionaries({"op": st.just("add"), "a": kids, "b": kids}),
        st.fixed_dictionaries({"op": st.just("mul"), "a": kids, "m": mults, "left": st.booleans()}),
        st.fixed_dictionaries({"op": st.just("div"), "a": kids, "m": st.sampled_from([2.0, 0.5, 4])}),
        st.fixed_dictionaries(
            {"op": st.just("combo"), "k": st.lists(kids, min_size=1, max_size=3), "m": st.lists(mults, min_size=3, max_size=3), "unpack": st.booleans(), "reset": st.booleans()}
        ),
        st.fixed_dictionaries({"op": st.just("zadd"), "a": kids, "left": st.booleans()}),
    )


tree = st.recursive(leaf, node, max_leaves=7)
case = st.fixed_dictionaries(
    {"n": st.integers(1, 8), "tree": tree, "f": st.booleans(), "cmplx": st.booleans(), "seed": gen.seeds}
)


def scalar(m):
    k, v = m
    return {"py": float, "int": int, "np64": np.float64, "np32": np.float32, "npint": np.int64}[k](v) if k != "Zero" else utils.Zero()


def make_map(kind, n, r):
    """(map, numpy function, numpy jacobian)"""
    if kind == "none" or kind == "id":
        return (None if kind == "none" else maps.IdentityMap(nP=n)), (lambda m: m), (lambda m: np.eye(n)), n
    if kind == "exp":
        return maps.ExpMap(nP=n), np.exp, (lambda m: np.diag(np.exp(m))), n
    k = int(r.integers(1, n + 3))
    B = r.standard_normal((k, n))
    b = r.standard_normal(k) if kind == "affine" else np.zeros(k)
    mp = maps.LinearMap(sp.csr_matrix(B), b if kind == "affine" else None)
    return mp, (lambda m: B @ m + b), (lambda m: B), k


class Ref:
    """numpy twin: value / gradient / Gauss-Newton Hessian / W^T W (or None)"""

    def __init__(self, v, g, H, nleaf):
        self.v, self.g, self.H, self.nleaf = v, g, H, nleaf


def build_leaf(d, n, c):
    r = np.random.default_rng([c["seed"], d["salt"]])
    kind = d["leaf"]
    if kind == "l2":
        mp, f, J, k = make_map(d["map"], n, r)
        W = None if r.random() < 0.3 else sp.csr_matrix(r.standard_normal((int(r.integers(1, k + 3)), k)))
        Wd = np.eye(k) if W is None else W.toarray()
        kw = {} if mp is None else {"mapping": mp}
        obj = of.L2ObjectiveFunction(nP=n if (mp is None) else None, W=None if k != n and mp is None else W, **kw)
        if W is None and mp is None:
            obj = of.L2ObjectiveFunction(nP=n)
        fun = f
    elif kind in ("misfit", "misfitW"):
        nD = int(r.integers(1, 6))
        G = r.standard_normal((nD, n))
        mp, f, J, k = make_map("exp" if d["map"] == "exp" else "id", n, r)
        sim = simulation.LinearSimulation(G=G, model_map=mp)
        dobs = r.standard_normal(nD)
        sd = 0.5 + r.random(nD)
        dat = data.Data(sim.survey, dobs=dobs, standard_deviation=sd)
        obj = data_misfit.L2DataMisfit(dat, sim)
        Wd = np.diag(1 / sd)
        if kind == "misfitW":
            Wd = r.standard_normal((nD, nD))
            obj.W = sp.csr_matrix(Wd)
        fun = lambda m: G @ f(m) - dobs  # noqa: E731
        J0 = J
        J = lambda m: G @ J0(m)  # noqa: E731
    else:
        mesh = discretize.TensorMesh([0.5 + r.random(n)])
        nl = d["map"] == "exp"
        kw = {"mapping": maps.ExpMap(nP=n)} if nl else {}
        f = np.exp if nl else (lambda m: m)
        J0 = (lambda m: np.diag(np.exp(m))) if nl else (lambda m: np.eye(n))
        vol = mesh.cell_volumes
        S = np.diag(np.sqrt(vol))
        D = np.diff(np.eye(n), axis=0) / (0.5 * (vol[1:] + vol[:-1]))[:, None] if n > 1 else np.zeros((0, n))
        Wx = np.sqrt(0.5 * (vol[1:] + vol[:-1]))[:, None] * D
        if kind == "small":
            obj, A = regularization.Smallness(mesh, **kw), S
        elif kind == "smooth":
            obj, A = regularization.SmoothnessFirstOrder(mesh, orientation="x", **kw), Wx
        else:
            obj = regularization.WeightedLeastSquares(mesh, alpha_s=0.7, alpha_x=1.3, alpha_xx=0.0, **kw)
            A = np.r_[np.sqrt(0.7) * S, np.sqrt(1.3) * Wx]
        fun = lambda m: A @ f(m)  # noqa: E731
        J = lambda m: A @ J0(m)  # noqa: E731
        Wd = np.eye(A.shape[0])
    v = lambda m: float(np.sum((Wd @ fun(m)) ** 2))  # noqa: E731
    g = lambda m: 2 * J(m).T @ (Wd.T @ (Wd @ fun(m)))  # noqa: E731
    H = lambda m: 2 * (Wd @ J(m)).T @ (Wd @ J(m))  # noqa: E731
    return obj, Ref(v, g, H, 1)


def comb(parts, n):
    """parts: list of (weight, Ref)"""
    return Ref(
        lambda m: float(sum(w * p.v(m) for w, p in parts)),
        lambda m: sum([w * p.g(m) for w, p in parts], np.zeros(n)),
        lambda m: sum([w * p.H(m) for w, p in parts], np.zeros((n, n))),
        sum(p.nleaf for w, p in parts if w != 0),
    )


def build(d, n, c, log):
    if "leaf" in d:
        obj, ref = build_leaf(d, n, c)
    elif d["op"] == "add":
        a, ra = build(d["a"], n, c, log)
        b, rb = build(d["b"], n, c, log)
        obj, ref = a + b, comb([(1, ra), (1, rb)], n)
    elif d["op"] == "mul":
        a, ra = build(d["a"], n, c, log)
        s = scalar(d["m"])
        obj = s * a if d["left"] and d["m"][0] != "Zero" else a * s  # Zero() * anything is Zero()
        ref = comb([(float(d["m"][1]), ra)], n)
    elif d["op"] == "div":
        a, ra = build(d["a"], n, c, log)
        obj, ref = a / d["m"], comb([(1.0 / d["m"], ra)], n)
    elif d["op"] == "zadd":
        obj, ref = build(d["a"], n, c, log)
        obj = utils.Zero() + obj if d["left"] else obj + utils.Zero()
    else:
        kids = [build(k, n, c, log) for k in d["k"]]
        ms = d["m"][: len(kids)]
        if d["reset"]:
            obj = of.ComboObjectiveFunction([k[0] for k in kids], unpack_on_add=d["unpack"])
            require(len(obj) == len(kids) and list(obj.multipliers) == [1] * len(kids), "default multipliers are not all one")
            obj.multipliers = [scalar(m) for m in ms]
        else:
            obj = of.ComboObjectiveFunction([k[0] for k in kids], [scalar(m) for m in ms], unpack_on_add=d["unpack"])
        ref = comb([(float(m[1]), k[1]) for m, k in zip(ms, kids)], n)
    require(isinstance(obj, of.BaseObjectiveFunction), f"the expression is a {type(obj).__name__}, not an objective function")
    log.append((obj, ref))
    return obj, ref


def agree(obj, ref, m, v, what):
    n = m.size
    close(float(obj(m)), ref.v(m), what + ": value", 1e-9)
    g = obj.deriv(m)
    gr = ref.g(m)
    if isinstance(g, utils.Zero):
        require(nrm(gr) == 0, what + ": gradient is Zero")
    else:
        close(np.asarray(g), gr, what + ": gradient", 1e-9, atol=1e-12)
    Hr = ref.H(m)
    Hv = obj.deriv2(m, v)
    if isinstance(Hv, utils.Zero):
        require(nrm(Hr) == 0, what + ": Hessian product is Zero")
    else:
        close(np.asarray(Hv), Hr @ v, what + ": Hessian product", 1e-9, scale=nrm(Hr) * nrm(v) + 1e-300)
    return Hr


def has_misfit(d):
    if "leaf" in d:
        return d["leaf"].startswith("misfit")
    return any(has_misfit(x) for x in ([d[k] for k in ("a", "b") if k in d] + d.get("k", [])))


def algebra(c):
    n = c["n"]
    r = gen.rng(c)
    log = []
    obj, ref = build(c["tree"], n, c, log)
    m = 0.7 * r.standard_normal(n)
    v = r.standard_normal(n)
    mc, vc = m.copy(), v.copy()
    Hr = agree(obj, ref, m, v, "expression")
    require(obj.nP in (n, "*"), f"nP is {obj.nP}, expected {n}")
    if not has_misfit(c["tree"]):
        H = obj.deriv2(m)
        if isinstance(H, utils.Zero):
            require(nrm(Hr) == 0, "Hessian is Zero")
        else:
            H = H.toarray() if sp.issparse(H) else np.asarray(H)
            close(H, Hr, "Hessian matrix", 1e-9, atol=1e-12)
    if isinstance(obj, of.ComboObjectiveFunction) and c["f"]:
        f = [o.simulation.fields(m) if isinstance(o, data_misfit.L2DataMisfit) else None for o in obj.objfcts]
        if not any(isinstance(o, of.ComboObjectiveFunction) for o in obj.objfcts):
            close(float(obj(m, f=f)), ref.v(m), "value with given fields", 1e-9)
            g = obj.deriv(m, f=f)
            if not isinstance(g, utils.Zero):
                close(np.asarray(g), ref.g(m), "gradient with given fields", 1e-9, atol=1e-12)
            h = obj.deriv2(m, v, f=f)
            if not isinstance(h, utils.Zero):
                close(np.asarray(h), Hr @ v, "Hessian product with given fields", 1e-9, scale=nrm(Hr) * nrm(v) + 1e-300)
    # every sub-expression still is what it was
    m2 = 0.5 * r.standard_normal(n)
    for o, q in log:
        agree(o, q, m2, v, "sub-expression after building and evaluating the whole")
    close(float(obj(m)), ref.v(m), "value, repeated", 1e-9)
    check_no_mutation(mc, m, "objective function")
    check_no_mutation(vc, v, "objective function")
    return [] if ref.nleaf >= 2 else ["trivial"]


# ---------------------------------------------------------- stacked W

w_case = st.fixed_dictionaries(
    {"n": st.integers(1, 6), "k": st.integers(1, 4), "m": st.lists(st.sampled_from([0.0, 1.0, 2.0, 0.3]), min_size=4, max_size=4), "seed": gen.seeds}
)


def stacked(c):
    r = gen.rng(c)
    n = c["n"]
    objs = [of.L2ObjectiveFunction(W=sp.csr_matrix(r.standard_normal((int(r.integers(1, 5)), n)))) for _ in range(c["k"])]
    ms = c["m"][: c["k"]]
    if not any(ms):
        ms[0] = 1.5
    phi = of.ComboObjectiveFunction(objs, ms)
    m = r.standard_normal(n)
    W = phi.W.toarray()
    close(float(np.sum((W @ m) ** 2)), float(phi(m)), "|W m|^2 is the value", 1e-10)
    close(2 * W.T @ W, phi.deriv2(m).toarray(), "2 W^T W is the Hessian", 1e-10)
    for i in range(c["k"]):
        mu, f = phi[i]
        require(mu == ms[i] and f is objs[i], "indexing a combination")
    found = phi.get_functions_of_type(of.L2ObjectiveFunction)
    require(found == objs, "get_functions_of_type")
    return [] if c["k"] > 1 else ["trivial"]


SUBS = [
    Sub("algebra", case, algebra, quick=4000, thorough=60000, shards=7, cost=2),
    Sub("stacked", w_case, stacked, quick=150, thorough=3000, shards=1, cost=1),
]
