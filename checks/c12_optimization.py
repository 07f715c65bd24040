"""C12: minimizers take admissible, sufficiently decreasing steps, stop when documented, and find minima."""

import contextlib
import io
import warnings

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from lib import gen
from lib.oracle import close, close_each, fail, nrm, require
from lib.pbt import Sub

PROPERTY = "C12"
RULE = (
    "A case is a smooth function of 1-7 variables (convex quadratic, log-cosh, nonlinear least squares with Gauss-Newton Hessian), a start, "
    "bounds (none, scalar, array, half-open, start outside), a minimizer and its settings (tolerances, line-search constants, maxStep, CG "
    "settings, memory), possibly used for two runs. All evaluations are recorded; the run is compared, evaluation by evaluation, with the "
    "documented line search and stopping rules. Non-trivial: at least two iterations or one active bound."
)
ASSUMPTIONS = ["functions are smooth and bounded below"]

UNBOUNDED = ["SteepestDescent", "BFGS", "GaussNewton", "InexactGaussNewton"]
BOUNDED = ["ProjectedGradient", "ProjectedGNCG"]

case = st.fixed_dictionaries(
    {
        "n": st.integers(1, 7),
        "fun": st.sampled_from(["quadratic", "logcosh", "nlls"]),
        "opt": st.sampled_from(UNBOUNDED + BOUNDED + BOUNDED),
        "bounds": st.sampled_from(["none", "scalar", "array", "lower", "upper", "tight"]),
        "start": st.sampled_from(["zero", "random", "outside", "far"]),
        "maxIter": st.integers(1, 12),
        "tol": st.sampled_from([1e-1, 1e-3, 1e-8]),
        "maxStep": st.sampled_from([None, None, 0.3, 2.0]),
        "LS": st.sampled_from([[1e-4, 0.5, 10], [0.4, 0.5, 10], [1e-4, 0.3, 2], [0.1, 0.7, 1]]),
        "wolfe": st.booleans(),
        "decrease": st.booleans(),
        "linop": st.booleans(),
        "cg": st.sampled_from([[1e-1, 5], [1e-10, 60], [0.5, 1]]),
        "nbfgs": st.sampled_from([10, 2, 1]),
        "runs": st.integers(1, 2),
        "seed": gen.seeds,
    }
)


def function(c, r, n):
    Q = r.standard_normal((n + 2, n))
    A = Q.T @ Q / n + 0.2 * np.eye(n)
    a = r.standard_normal(n)
    if c["fun"] == "quadratic":

        def f(x):
            d = x - a
            return 0.5 * d @ (A @ d) - 1.0, A @ d, A

    elif c["fun"] == "logcosh":
        b = r.standard_normal(n + 2)

        def f(x):
            z = Q @ x - b
            t = np.tanh(z)
            val = np.sum(np.logaddexp(z, -z) - np.log(2)) + 0.05 * x @ x
            return val, Q.T @ t + 0.1 * x, Q.T @ ((1 - t**2)[:, None] * Q) + 0.1 * np.eye(n)

    else:
        b = r.standard_normal(n + 2)

        def f(x):
            t = np.sin(0.7 * (Q @ x)) + 0.5 * (Q @ x)
            J = (0.7 * np.cos(0.7 * (Q @ x)) + 0.5)[:, None] * Q
            return 0.5 * (t - b) @ (t - b) + 0.05 * x @ x, J.T @ (t - b) + 0.1 * x, J.T @ J + 0.1 * np.eye(n)

    return f, A, a


def bounds(c, r, n):
    k = c["bounds"]
    if k == "none":
        return None, None
    if k == "scalar":
        return -0.4, 0.6
    if k == "tight":
        return -0.05, 0.05
    lo = -np.round(r.random(n), 2) - 0.05
    hi = np.round(r.random(n), 2) + 0.05
    if k == "lower":
        return lo, None
    if k == "upper":
        return None, hi
    return lo, hi


class Recorder:
    def __init__(self, f, c):
        self.f, self.c, self.calls = f, c, []

    def __call__(self, x, return_g=True, return_H=True):
        val, g, H = self.f(np.array(x))
        self.calls.append((np.array(x), val, g, bool(return_g), bool(return_H)))
        out = [val]
        if return_g:
            out.append(g.copy())
        if return_H:
            if self.c["linop"] and self.c["opt"] not in ("GaussNewton",):
                out.append(sp.linalg.LinearOperator(H.shape, matvec=lambda v: H @ v, rmatvec=lambda v: H.T @ v, dtype=float))
            else:
                out.append(sp.csr_matrix(H))
        return out if len(out) > 1 else out[0]


def make(c, lo, hi, **extra):
    from simpeg import optimization

    kw = dict(
        maxIter=c["maxIter"],
        tolF=c["tol"],
        tolX=c["tol"],
        tolG=c["tol"],
        LSreduction=c["LS"][0],
        LSshorten=c["LS"][1],
        maxIterLS=c["LS"][2],
        use_WolfeCurvature=c["wolfe"],
        require_decrease=c["decrease"],
    )
    if c["maxStep"]:
        kw["maxStep"] = c["maxStep"]
    cls = getattr(optimization, c["opt"])
    if c["opt"] in BOUNDED:
        kw.update(lower=lo, upper=hi)
    if c["opt"] in ("InexactGaussNewton", "ProjectedGNCG", "ProjectedGradient"):
        kw.update(cg_rtol=c["cg"][0], cg_maxiter=c["cg"][1])
    if c["opt"] in ("BFGS", "InexactGaussNewton", "ProjectedGNCG"):
        kw["nbfgs"] = c["nbfgs"]
    kw.update(extra)
    return cls(**kw)


def quiet():
    s = contextlib.ExitStack()
    s.enter_context(contextlib.redirect_stdout(io.StringIO()))
    w = warnings.catch_warnings()
    s.enter_context(w)
    warnings.simplefilter("ignore")
    return s


def clip(x, lo, hi):
    if lo is not None:
        x = np.maximum(x, lo)
    if hi is not None:
        x = np.minimum(x, hi)
    return x


def run(c):
    r = gen.rng(c)
    n = c["n"]
    f, A, a = function(c, r, n)
    bounded = c["opt"] in BOUNDED
    lo, hi = bounds(c, r, n) if bounded else (None, None)
    x0 = {
        "zero": np.zeros(n),
        "random": 0.3 * r.standard_normal(n),
        "outside": 3.0 * np.sign(r.standard_normal(n)),
        "far": 8.0 * r.standard_normal(n),
    }[c["start"]]
    path = []
    rec = None
    with quiet():
        opt = make(c, lo, hi)
        opt.callback = lambda x: path.append(np.array(x))
        opt.remember("xc", "f")
        for k in range(c["runs"]):
            path.clear()
            rec = Recorder(f, c)
            start = x0 + 0.1 * k
            given = start.copy()
            out = opt.minimize(rec, start)
            require(np.array_equal(start, given), "minimize modified the start")
            its = judge(c, opt, rec, path, np.array(out), given, lo, hi, f"{c['opt']} run {k + 1}")
        if c["runs"] == 2:  # an optimizer that was used before works like a new one
            rec2 = Recorder(f, c)
            fresh = make(c, lo, hi)
            out2 = fresh.minimize(rec2, x0 + 0.1)
            close(out, out2, f"{c['opt']}: second run of an optimizer and first run of a new one", rtol=1e-9, atol=1e-12)
    active = bounded and bool(np.any(np.isclose(out, clip(out - 1e-9, lo, hi)) | np.isclose(out, clip(out + 1e-9, lo, hi))))
    return [c["opt"]] if its > 1 or active else ["trivial"]


def judge(c, opt, rec, path, out, x0, lo, hi, what):
    """walk through the recorded evaluations along the documented algorithm"""
    calls = list(rec.calls)
    bounded = c["opt"] in BOUNDED
    for x, *_ in calls:
        if lo is not None:
            require(np.all(x >= lo), f"{what}: evaluated below the lower bound")
        if hi is not None:
            require(np.all(x <= hi), f"{what}: evaluated above the upper bound")
    start = clip(x0, lo, hi)
    x, val, g, wg, wH = calls[0]
    close_each(x, start, f"{what}: first evaluation", rtol=1e-15)
    f0 = val
    xc, fc = x, val
    x_last, f_last = x, None
    i, it = 1, 0
    tol = c["tol"]
    limit = c["LS"]
    iterates = []
    norm_x0 = nrm(start)
    while True:
        require(i < len(calls), f"{what}: ended without evaluating gradient and Hessian at its iterate")
        x, val, g, wg, wH = calls[i]
        i += 1
        require(wg and wH, f"{what}: iteration {it + 1} starts without gradient or Hessian")
        close_each(x, xc, f"{what}: iterate {it}", rtol=1e-13, atol=1e-14)
        xc, fc = x, val
        pg = nrm(clip(xc - g, lo, hi) - xc)
        conds = [  # (left, right): left <= right
            (1.0 if it == 0 else abs(fc - f_last), 0.0 if it == 0 else tol * (1 + abs(f0))),
            (1.0 if it == 0 else nrm(xc - x_last), 0.0 if it == 0 else tol * (1 + norm_x0)),
            (pg, tol),
        ]
        near = any(abs(a - b) <= 1e-9 * max(abs(a), abs(b)) + 1e-13 for a, b in conds + [(pg, 1e-2)])
        n_bind = 0
        if c["opt"] == "ProjectedGradient":
            bind = np.zeros(xc.shape, bool)
            if lo is not None:
                bind |= (xc <= lo) & (g >= 0)
            if hi is not None:
                bind |= (xc >= hi) & (g <= 0)
            n_bind = int(bind.sum())
        stop = all(a <= b for a, b in conds) or pg <= 1e-2 or it >= c["maxIter"] or (c["opt"] == "ProjectedGradient" and n_bind >= xc.size)
        stopped = i >= len(calls)
        if stopped:
            require(
                stop or near, f"{what}: stopped after {it} iterations although no rule says so: {conds}, |P(x-g)-x| {pg:.2e}"
            )
            break
        require(not stop or near, f"{what}: did not stop at iteration {it} although the rules say so: {conds}, |P(x-g)-x| {pg:.2e}")
        # the line search: shortened steps along one direction, until the first with sufficient decrease
        ls, first = 0, None
        accepted = None
        while ls < limit[2]:
            require(i < len(calls), f"{what}: line search ended early")
            xt, ft, gt, wg, wH = calls[i]
            i += 1
            require(not wH, f"{what}: Hessian in the line search")
            d = xt - xc
            if not bounded:
                if first is None:
                    first = d
                    if c["maxStep"]:
                        require(np.max(np.abs(d)) <= c["maxStep"] * (1 + 1e-9), f"{what}: step {np.max(np.abs(d))} beyond maxStep")
                    require(g @ d <= 1e-12 * nrm(g) * nrm(d), f"{what}: search direction goes uphill")
                else:
                    close(d, limit[1] ** ls * first, f"{what}: trial step {ls}", rtol=1e-6, atol=1e-12 * (1 + nrm(xc)))
            elif c["maxStep"]:
                require(np.max(np.abs(d)) <= c["maxStep"] * limit[1] ** ls * (1 + 1e-9), f"{what}: step beyond maxStep")
            armijo = (ft, fc + limit[0] * (g @ d))
            wolfe = (-(gt @ d), -0.9 * (g @ d)) if c["wolfe"] else (0.0, 1.0)
            ok = armijo[0] <= armijo[1] and wolfe[0] <= wolfe[1]
            if c["opt"] == "ProjectedGradient":  # documented: also when every variable is at a binding bound
                b = np.zeros(xc.shape, bool)
                if lo is not None:
                    b |= (xt <= lo) & (g >= 0)
                if hi is not None:
                    b |= (xt >= hi) & (g <= 0)
                ok = ok or b.sum() >= xc.size
            edge = abs(armijo[0] - armijo[1]) <= 1e-12 * (1 + abs(fc)) or (c["wolfe"] and abs(wolfe[0] - wolfe[1]) <= 1e-12 * (1 + abs(fc)))
            nxt = calls[i] if i < len(calls) else None
            more = nxt is not None and not nxt[4]  # another trial follows
            if edge:
                ok = not more and nxt is not None
            if ok:
                require(not more, f"{what}: kept searching after a step with sufficient decrease")
                accepted = (xt, ft)
                break
            ls += 1
            if ls < limit[2]:
                require(more, f"{what}: accepted or gave up on trial {ls} without sufficient decrease: {armijo}, {wolfe}")
        if accepted is None:
            if c["decrease"]:
                require(i >= len(calls), f"{what}: continued after a failed line search")
                close_each(out, xc, f"{what}: result after a failed line search", rtol=0)
                iterates_ok(opt, path, iterates, what)
                return it
            accepted = (xt, ft)
        x_last, f_last = xc, fc
        xc, fc = accepted
        iterates.append((xc, fc))
        it += 1
    close_each(out, xc, f"{what}: result", rtol=0)
    require(it <= c["maxIter"], f"{what}: {it} iterations")
    iterates_ok(opt, path, iterates, what)
    return it


def iterates_ok(opt, path, iterates, what):
    require(opt.iter == len(iterates), f"{what}: iter {opt.iter} after {len(iterates)} iterations")
    require(len(path) == len(iterates), f"{what}: {len(path)} callbacks for {len(iterates)} iterations")
    for p, (x, _) in zip(path, iterates):
        close_each(p, x, f"{what}: callback", rtol=0)
    require(len(opt.recall("xc")) == len(iterates), f"{what}: remembered {len(opt.recall('xc'))} of {len(iterates)} iterations")


# ------------------------------------------------------------------------------------------------------ minima found
min_case = st.fixed_dictionaries(
    {
        "n": st.integers(1, 7),
        "opt": st.sampled_from(["BFGS", "GaussNewton", "InexactGaussNewton", "ProjectedGNCG", "ProjectedGNCG"]),
        "bounds": st.sampled_from(["none", "scalar", "array", "lower", "upper", "tight"]),
        "fun": st.sampled_from(["quadratic", "quadratic", "logcosh"]),
        "linop": st.booleans(),
        "precond": st.sampled_from(["none", "diag"]),
        "seed": gen.seeds,
    }
)


def minima(c):
    r = gen.rng(c)
    n = c["n"]
    f, A, a = function(c, r, n)
    bounded = c["opt"] in BOUNDED
    lo, hi = bounds(c, r, n) if bounded else (None, None)
    cc = dict(c, maxIter=300, tol=1e-10, LS=[1e-4, 0.5, 30], wolfe=False, decrease=True, maxStep=None, cg=[1e-12, 100], nbfgs=10)
    rec = Recorder(f, cc)
    with quiet():
        extra = {"eps": 1e-13}
        opt = make(cc, lo, hi, **extra)
        if c["precond"] == "diag" and c["opt"] in ("InexactGaussNewton", "ProjectedGNCG"):
            opt.approxHinv = sp.diags(1 / np.diag(A))
        out = opt.minimize(rec, 0.5 * r.standard_normal(n))
    what = f"{c['opt']} on {c['fun']} of {n} variables, bounds {c['bounds'] if bounded else 'none'}"
    # the functions are convex: the minimum is where the projected gradient vanishes
    g = f(np.array(out))[1]
    e, g0 = nrm(clip(out - g, lo, hi) - out), nrm(rec.calls[1][2])
    require(e <= 1e-5 * (1 + g0), f"{what}: after {opt.iter} iterations the projected gradient is {e:.2e} (at first {g0:.2e})")
    if c["fun"] == "quadratic" and c["opt"] == "GaussNewton":
        require(opt.iter <= 2, f"{what}: Newton took {opt.iter} steps on a quadratic")
    if c["fun"] == "quadratic" and c["opt"] == "BFGS":
        # a method that uses curvature: steepest descent needs far more
        gs = np.array([nrm(q[2]) for q in rec.calls])
        fast = np.flatnonzero(gs <= 1e-4 * gs[0])
        require(fast.size and fast[0] <= 90, f"{what}: the gradient is not reduced 10^4 times after 90 evaluations")
    return [c["opt"]] if n > 1 else ["trivial"]


# ------------------------------------------------------------------------------------------------------- Newton root
root_case = st.fixed_dictionaries({"n": st.integers(1, 5), "kind": st.sampled_from(["cubic", "exp", "linear"]), "far": st.booleans(), "seed": gen.seeds})


def root(c):
    from simpeg.optimization import NewtonRoot

    r = gen.rng(c)
    n = c["n"]
    Q = r.standard_normal((n, n)) / n + 1.5 * np.eye(n)
    M = Q.T @ Q
    x_true = r.standard_normal(n)

    def raw(x):
        if c["kind"] == "cubic":
            return M @ x + x**3, M + np.diag(3 * x**2)
        if c["kind"] == "exp":
            return M @ x + np.exp(x), M + np.diag(np.exp(x))
        return M @ x, M

    rhs = raw(x_true)[0]

    def fun(x, return_g=True):
        v, J = raw(x)
        return (v - rhs, sp.csr_matrix(J)) if return_g else v - rhs

    x0 = x_true + (5.0 if c["far"] else 0.3) * r.standard_normal(n)
    given = x0.copy()
    with quiet():
        x = NewtonRoot(tol=1e-9, maxIter=60).root(fun, x0)
    require(np.array_equal(given, x0), "NewtonRoot modified the start")
    require(x is not None, f"NewtonRoot gave up on a monotone {c['kind']} function")
    res = nrm(fun(x, return_g=False))
    require(res < 1e-9, f"NewtonRoot returned a point with residual {res:.2e}")
    close(x, x_true, "NewtonRoot: root", rtol=1e-6, atol=1e-7)
    return [c["kind"]] if c["kind"] != "linear" else ["trivial"]


SUBS = [
    Sub("steps", case, run, quick=1600, thorough=40000, shards=6, cost=2.0),
    Sub("minima", min_case, minima, quick=500, thorough=10000, shards=4, cost=2.0),
    Sub("root", root_case, root, quick=200, thorough=4000, shards=1, cost=1.0),
]
