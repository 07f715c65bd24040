"""C13: inversions minimize the stated objective, and directives do what they document at every iteration."""

import contextlib
import gc
import glob
import io
import os
import warnings

import discretize
import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from lib import gen
from lib.oracle import close, nrm, require
from lib.pbt import Sub

PROPERTY = "C13"
RULE = (
    "A case is an inverse problem (1-3 linear or exponential simulations of 1-8 data, weighted; a least-squares or sparse regularization in 1-2D "
    "with reference and active cells; multipliers), a minimizer, and a list of directives (starting beta, cooling, target, sensitivity weights, "
    "preconditioner, IRLS, saving). A recorder at both ends of the list notes every iteration; numpy recomputes what each should have been. "
    "Non-trivial: at least two iterations or a directive that acted."
)
ASSUMPTIONS = ["at most 10 iterations of at most 12 parameters"]


@contextlib.contextmanager
def quiet():
    keep, gc.collect = gc.collect, lambda *a: 0  # evalFunction collects garbage each time
    try:
        with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()), warnings.catch_warnings():
            warnings.simplefilter("ignore")
            yield
    finally:
        gc.collect = keep


# ---------------------------------------------------------------- problems

problem = {
    "mesh": st.sampled_from([[3], [5], [8], [2, 3], [3, 4]]),
    "act": st.booleans(),
    "sims": st.lists(st.fixed_dictionaries({"nD": st.integers(1, 8), "exp": st.booleans(), "mult": st.sampled_from([1.0, 1.0, 0.3, 4.0])}), min_size=1, max_size=3),
    "reg": st.sampled_from(["wls", "wls", "sparse", "small", "two"]),
    "mref": st.booleans(),
    "beta": st.sampled_from([1e-3, 0.1, 1.0, 30.0]),
    "seed": gen.seeds,
}


def with_diag(base):
    class WithDiagonal(base):
        """a simulation that offers the diagonal instead of (as well as) the matrix"""

        def getJtJdiag(self, m, W=None, f=None):
            W = np.ones(self.survey.nD) if W is None else W.diagonal()
            return np.sum((W[:, None] * self.getJ(m)) ** 2, axis=0)

    return WithDiagonal


class Problem:
    """the inverse problem and its numpy twin"""

    def __init__(self, c, r):
        from simpeg import data, data_misfit, maps, regularization, simulation

        self.mesh = discretize.TensorMesh([0.5 + r.random(n) for n in c["mesh"]])
        N = self.mesh.n_cells
        act = r.random(N) < 0.8 if c["act"] else np.ones(N, bool)
        if act.sum() < 2:
            act[:2] = True
        n = self.n = int(act.sum())
        self.act = act
        self.parts, obj = [], []
        for s in c["sims"]:
            G = r.standard_normal((s["nD"], n))
            kind = with_diag(simulation.LinearSimulation) if s["nD"] % 2 else simulation.LinearSimulation
            sim = kind(G=G, model_map=maps.ExpMap(nP=n) if s["exp"] else maps.IdentityMap(nP=n))
            f = (lambda m, G=G: G @ np.exp(m)) if s["exp"] else (lambda m, G=G: G @ m)
            J = (lambda m, G=G: G * np.exp(m)) if s["exp"] else (lambda m, G=G: G)
            true = 0.7 * r.standard_normal(n)
            sd = r.uniform(0.05, 0.3, s["nD"])
            d = f(true) + sd * r.standard_normal(s["nD"])
            mis = data_misfit.L2DataMisfit(data.Data(sim.survey, dobs=d, standard_deviation=sd), sim)
            obj.append(mis)
            self.parts.append((s["mult"], f, J, d, sd))
        k = c["sims"]
        if len(obj) == 1 and k[0]["mult"] == 1.0:
            self.dmis = obj[0]
        else:
            self.dmis = sum(s["mult"] * o for s, o in zip(k[1:], obj[1:])) + k[0]["mult"] * obj[0] if False else None
            d = k[0]["mult"] * obj[0]
            for s, o in zip(k[1:], obj[1:]):
                d = d + s["mult"] * o
            self.dmis = d
        kw = {"active_cells": act}
        if c["mref"]:
            kw["reference_model"] = 0.3 * r.standard_normal(n)
        self.mref = kw.get("reference_model")
        R = regularization
        if c["reg"] == "wls":
            self.reg = R.WeightedLeastSquares(self.mesh, alpha_s=0.5, alpha_x=2.0, **kw)
        elif c["reg"] == "small":
            self.reg = R.Smallness(self.mesh, **kw)
        elif c["reg"] == "sparse":
            norms = [float(x) for x in r.choice([0.0, 1.0, 2.0], 1 + self.mesh.dim)]
            self.norms = norms
            self.reg = R.Sparse(self.mesh, norms=norms, gradient_type=str(r.choice(["total", "components"])), **kw)
        else:
            self.reg = 0.7 * R.Smallness(self.mesh, **kw) + 0.2 * R.WeightedLeastSquares(self.mesh, alpha_s=1e-3, **kw)
        self.nD = sum(s["nD"] for s in c["sims"])
        self.r = r

    def phi_d(self, m, mult=None):
        mult = [p[0] for p in self.parts] if mult is None else mult
        return sum(a * np.sum(((f(m) - d) / sd) ** 2) for a, (_, f, J, d, sd) in zip(mult, self.parts))

    def grad_d(self, m):
        return sum(2 * a * J(m).T @ ((f(m) - d) / sd**2) for a, f, J, d, sd in self.parts)

    def hess_d(self, m):
        return sum(2 * a * (J(m).T / sd**2) @ J(m) for a, f, J, d, sd in self.parts)

    def dpred(self, m):
        return np.concatenate([f(m) for _, f, *_ in self.parts])


def H_of(reg, m):
    H = reg.deriv2(m)
    return H.toarray() if sp.issparse(H) else np.asarray(H)


# --------------------------------------------------- evaluations, any order

eval_case = st.fixed_dictionaries(
    {
        **problem,
        "calls": st.lists(st.tuples(st.integers(0, 2), st.booleans(), st.booleans(), st.sampled_from([None, None, 0.0, 2.5])), min_size=2, max_size=8),
        "ubc": st.booleans(),
    }
)


def run_eval(c):
    from simpeg import inverse_problem, optimization

    r = gen.rng(c)
    with quiet():
        P = Problem(c, r)
        opt = optimization.InexactGaussNewton(print_type="ubc" if c["ubc"] and c["reg"] in ("wls", "sparse") else None)
        inv = inverse_problem.BaseInvProblem(P.dmis, P.reg, opt, beta=c["beta"])
        models = [0.5 * r.standard_normal(P.n) for _ in range(3)]
        keep = [m.copy() for m in models]
        inv.startup(models[0])
        if P.mref is None:
            for o in inv.reg.objfcts:
                close(np.asarray(o.reference_model), models[0], "the reference model is the starting one by default")
        else:
            for o in leaves(inv.reg):
                close(np.asarray(o.reference_model), P.mref, "a reference model given by the user is kept", 0, atol=0)
        v = r.standard_normal(P.n)
        beta = c["beta"]
        for i, g, H, b in c["calls"]:
            m = models[i]
            if b is not None:
                inv.beta = beta = b
            out = inv.evalFunction(m, return_g=g, return_H=H)
            out = out if isinstance(out, tuple) else (out,)
            what = f"evaluation (model {i}, gradient {g}, Hessian {H}, beta {beta}) in {c['calls']}"
            require(len(out) == 1 + g + H, f"{what}: {len(out)} results")
            pd, pm = P.phi_d(m), float(P.reg(m))
            close(inv.phi_d, pd, what + ": phi_d", 1e-9)
            close(inv.phi_m, pm, what + ": phi_m", 1e-9, atol=1e-13)
            close(np.asarray(inv.dpred), P.dpred(m), what + ": dpred", 1e-10)
            close(out[0], pd + beta * pm, what + ": phi", 1e-9)
            close(np.asarray(inv.model), m, what + ": model", 0, atol=0)
            if g:
                close(out[1], P.grad_d(m) + beta * np.asarray(P.reg.deriv(m)), what + ": gradient", 1e-8)
            if H:
                close(out[-1] @ v, P.hess_d(m) @ v + beta * (H_of(P.reg, m) @ v), what + ": Hessian product", 1e-8)
        for a, b in zip(models, keep):
            close(a, b, "models are not changed", 0, atol=0)
    return [c["reg"], f"sims:{len(c['sims'])}"]


# ------------------------------------------------------------ whole inversions

OPTS = ["SteepestDescent", "InexactGaussNewton", "ProjectedGNCG", "BFGS"]

run_case = st.fixed_dictionaries(
    {
        **problem,
        "opt": st.sampled_from(OPTS),
        "maxIter": st.integers(1, 8),
        "start": st.sampled_from(["none", "none", "eig", "maxd"]),
        "cool": st.one_of(st.none(), st.tuples(st.sampled_from([1.0, 2.0, 8.0]), st.integers(1, 4))),
        "target": st.sampled_from([None, ["chifact", 1.0], ["chifact", 0.3], ["chifact", 5.0], ["target", 2.0], ["star", 3.0], ["multi", 1.0], ["multi", 3.0]]),
        "weights": st.sampled_from([None, None, "once", "every"]),
        "precond": st.sampled_from([None, True, False]),
        "irls": st.one_of(st.none(), st.fixed_dictionaries({"f": st.sampled_from([1.2, 2.0]), "max": st.integers(0, 4), "rate": st.integers(1, 2), "cool": st.sampled_from([2.0, 4.0]), "start": st.sampled_from([0.5, 1.0, 20.0]), "tol": st.sampled_from([0.1, 0.5]), "pct": st.sampled_from([100.0, 90.0, 50.0]), "change": st.sampled_from([1e-6, 0.05])})),
        "joint": st.sampled_from([None, None, [1.0, 1], [2.0, 1], [1.5, 2]]),
        "save": st.booleans(),
        "again": st.booleans(),
    }
)


def recorder(log, tag):
    from simpeg import directives

    class Recorder(directives.InversionDirective):
        def note(self, when):
            ip = self.invProb
            e = dict(
                when=when, tag=tag, iter=getattr(self.opt, "iter", None), beta=float(ip.beta), m=np.array(ip.model), xc=np.array(getattr(self.opt, "xc", ip.model)),
                phi_d=float(ip.phi_d), phi_m=float(ip.phi_m), dpred=np.array(getattr(ip, "dpred", np.nan)), stop=bool(self.opt.stopNextIteration),
                mult=np.array(self.dmisfit.multipliers, float), reg_m=float(self.reg(ip.model)), irls=irls_state(self.reg), w=sens_weights(self.reg),
            )
            log.append(e)

        def initialize(self):
            self.note("start")

        def endIter(self):
            self.note("iter")

        def finish(self):
            self.note("finish")

    return Recorder()


def leaves(reg):
    for o in reg.objfcts:
        yield from leaves(o) if hasattr(o, "objfcts") else [o]


def irls_state(reg):
    out = []
    for o in leaves(reg):
        if hasattr(o, "irls_threshold"):
            out.append(dict(norm=float(np.max(o.norm)) if np.size(o.norm) else None, same=not np.size(o.norm) or bool(np.ptp(o.norm) == 0), thr=float(o.irls_threshold), w=np.array(o.get_weights("irls")) if "irls" in o.weights_keys else None))
    return out


def alpha_name(o):
    """the multiplier of a term of a weighted least squares regularization"""
    if not hasattr(o, "orientation"):
        return "alpha_s"
    second = any(k.__name__ == "SmoothnessSecondOrder" for k in type(o).__mro__)
    return "alpha_" + o.orientation * (2 if second else 1)


def sens_weights(reg):
    return [np.array(o.get_weights("sensitivity")) if "sensitivity" in o.weights_keys else None for o in leaves(reg)]


def lp_weights(o, m, norm, thr, parent):
    """documented IRLS weights of a sparse term"""

    def f_m(x):
        return np.asarray(x.f_m(m))

    if hasattr(o, "orientation") and o.gradient_type == "total":
        rm = o.regularization_mesh
        f = np.zeros(rm.nC)
        for q in parent.objfcts:
            if hasattr(q, "orientation"):
                f += np.abs(getattr(rm, f"aveF{q.orientation}2CC") @ f_m(q))
        f = getattr(rm, f"aveCC2F{o.orientation}") @ f
    else:
        f = f_m(o)
    if f.size == 0:
        return f
    top = np.abs(f).max()
    x = thr / np.sqrt(1 - norm) if norm < 1 else top
    lp = x / (x**2 + thr**2) ** (1 - norm / 2)
    scale = top / lp if lp != 0 else 1.0
    return scale / (f**2 + thr**2) ** (1 - norm / 2)


def run_inv(c):
    from simpeg import directives as D
    from simpeg import inverse_problem, inversion, optimization

    r = gen.rng(c)
    with quiet():
        P = Problem(c, r)
        kw = dict(maxIter=c["maxIter"], tolF=1e-12, tolX=1e-12, tolG=1e-12, eps=1e-13)
        if c["opt"] in ("InexactGaussNewton", "ProjectedGNCG"):
            kw.update(maxIterCG=60, tolCG=1e-8) if c["opt"] == "InexactGaussNewton" else kw.update(cg_maxiter=60, cg_rtol=1e-8)
        if c["opt"] in ("SteepestDescent", "BFGS"):
            kw.update(maxStep=0.5)
        opt = getattr(optimization, c["opt"])(**kw)
        ip = inverse_problem.BaseInvProblem(P.dmis, P.reg, opt, beta=c["beta"])
        log = []
        sparse = c["reg"] == "sparse"
        irls = c["irls"] if sparse else None
        L = [recorder(log, "a")]
        if c["weights"]:
            how = [("global", 1e-3), ("percentile", 20.0), ("amplitude", 1e-2)][int(r.integers(3))]
            norm = ["maximum", "minimum", None][int(r.integers(3))]
            P.how = (*how, norm)
            L.append(D.UpdateSensitivityWeights(every_iteration=c["weights"] == "every", threshold_method=how[0], threshold_value=how[1], normalization_method=norm))
        if c["start"] == "eig":
            L.append(D.BetaEstimate_ByEig(beta0_ratio=2.0, n_pw_iter=3, random_seed=int(r.integers(1000))))
        elif c["start"] == "maxd":
            L.append(D.BetaEstimateMaxDerivative(beta0_ratio=0.5, random_seed=int(r.integers(1000))))
        I = None
        if irls:
            I = D.UpdateIRLS(cooling_rate=irls["rate"], cooling_factor=irls["cool"], chifact_start=irls["start"], irls_cooling_factor=irls["f"], max_irls_iterations=irls["max"], misfit_tolerance=irls["tol"], percentile=irls["pct"], f_min_change=irls["change"], verbose=False)
            L.append(I)
        elif c["cool"]:
            L.append(D.BetaSchedule(coolingFactor=c["cool"][0], coolingRate=c["cool"][1]))
        if c["precond"] is not None:
            L.append(D.UpdatePreconditioner(update_every_iteration=c["precond"]))
        T, target = None, None
        if c["target"] and not irls:
            kind, val = c["target"]
            if kind == "chifact":
                T, target = D.TargetMisfit(chifact=val), val * P.nD
            elif kind == "target":
                T, target = D.TargetMisfit(target=val), val
            elif kind == "star":
                T, target = D.TargetMisfit(phi_d_star=val, chifact=2.0), 2 * val
            else:
                T, target = D.MultiTargetMisfits(chifact=val, TriggerSmall=False), val * np.array([p[3].size for p in P.parts])
            L.append(T)
        joint = c["joint"] if T is not None and np.ndim(target) and len(P.parts) > 1 else None
        if joint:
            L.append(D.JointScalingSchedule(warmingFactor=joint[0], update_rate=joint[1]))
        S = None
        if c["save"]:
            os.makedirs("out", exist_ok=True)
            S = [D.SaveModelEveryIteration(directory="out", name="model")]
            if c["reg"] in ("wls", "sparse"):
                S.append(D.SaveOutputEveryIteration(directory="out", name="text"))
            S.append(D.SaveOutputDictEveryIteration(directory="out", name="dict", on_disk=True))
            L += S
        L.append(recorder(log, "z"))
        inv = inversion.BaseInversion(ip, directiveList=L)
        m0 = 0.4 * r.standard_normal(P.n)
        keep = m0.copy()
        result = inv.run(m0)
        close(m0, keep, "the starting model is not changed", 0, atol=0)
        desc = f"{c['opt']}, {c['reg']}, directives {[type(x).__name__ for x in L[1:-1]]}"
        n_iter = judge(c, P, log, result, irls, T, target, desc, m0, joint)
        if S:
            judge_saved(c, P, log, S, desc, ip)
        labels = [c["opt"], c["reg"]] + [type(x).__name__ for x in L[1:-1]]
        if c["again"] and not irls and not joint:
            # the same objects again: a fresh run from the same model, with the beta and weights there now
            if c["start"] == "none" and not c["weights"] and (T is None or True):
                ip.beta = c["beta"]
                log.clear()
                second = inv.run(m0)
                if c["opt"] != "BFGS":
                    close(second, result, f"{desc}: the second run from the same start", 1e-5, atol=1e-6 * (1 + nrm(result)))
                judge(c, P, log, second, irls, T, target, desc + " (second run)", m0, joint)
    if n_iter < 2 and len(labels) < 4:
        labels.append("trivial")
    return labels


def judge(c, P, log, result, irls, T, target, desc, m0, joint):
    first = [e for e in log if e["tag"] == "a"]
    last = [e for e in log if e["tag"] == "z"]
    A = [e for e in first if e["when"] == "iter"]
    Z = [e for e in last if e["when"] == "iter"]
    require(len(A) == len(Z), f"{desc}: directives were not all called")
    require([e["iter"] for e in A] == list(range(1, len(A) + 1)), f"{desc}: iterations {[e['iter'] for e in A]}")
    require(len(A) <= c["maxIter"], f"{desc}: {len(A)} iterations, at most {c['maxIter']} allowed")
    require(first[0]["when"] == "start", f"{desc}: no call at the start")
    close(first[0]["m"], m0, f"{desc}: starting model")
    start = last[0]
    # starting beta
    if c["start"] == "none":
        close(start["beta"], c["beta"], f"{desc}: the starting beta is the given one", 1e-14)
    beta = start["beta"]
    require(np.isfinite(beta) and beta >= 0, f"{desc}: starting beta {beta}")
    # every iteration
    for k, (a, z) in enumerate(zip(A, Z)):
        what = f"{desc}, iteration {k + 1}"
        close(a["m"], a["xc"], what + ": the model of the problem is the accepted one", 0, atol=0)
        close(a["phi_d"], P.phi_d(a["m"], a["mult"]), what + ": phi_d", 1e-8)
        close(a["phi_m"], a["reg_m"], what + ": phi_m", 1e-8, atol=1e-13)
        close(a["dpred"], P.dpred(a["m"]), what + ": dpred", 1e-9)
        close(a["beta"], beta, what + ": beta before the directives", 1e-12)
        it = a["iter"]
        if irls is None:
            if c["cool"] and it < c["maxIter"] and it % c["cool"][1] == 0:
                beta = beta / c["cool"][0]
            close(z["beta"], beta, what + f": beta with cooling {c['cool']}", 1e-12)
        beta = z["beta"]
        want = a["mult"]
        if joint and it % joint[1] == 0:
            per = np.array([np.sum(((f(a["m"]) - d) / sd) ** 2) for _, f, J, d, sd in P.parts])
            up = per > target
            if np.any(np.abs(per - target) < 1e-7 * target):
                want = z["mult"]
            elif np.any(~up) and np.any(up):
                want = want * np.where(up, joint[0] * np.median(target[~up] / per[~up]), 1.0)
                want = want / want.sum()
        close(z["mult"], want, what + ": multipliers", 1e-9)
        if T is not None:
            if np.ndim(target):
                per = np.array([np.sum(((f(a["m"]) - d) / sd) ** 2) for _, f, J, d, sd in P.parts])
                near = np.any(np.abs(per - target) < 1e-7 * target)
                hit = bool(np.all(per < target))
            else:
                near = abs(a["phi_d"] - target) < 1e-7 * target
                hit = a["phi_d"] < target
            if not near:
                require(z["stop"] == hit, f"{what}: misfit {a['phi_d']:.4g}, target {target}: stop is {z['stop']}")
                require(not (hit and k + 1 < len(A)), f"{what}: went on after the target was reached")
        elif irls is None:
            require(not z["stop"], f"{what}: stopped without a reason")
    # the answer
    if A:
        close(result, A[-1]["m"], f"{desc}: the model returned is the last accepted one", 0, atol=0)
        pd, pm = P.phi_d(result, A[-1]["mult"]), last[-1]["reg_m"]
        fin = [e for e in first if e["when"] == "finish"]
        if fin:
            require(len(fin) == 1, f"{desc}: finished {len(fin)} times")
    judge_weights(c, P, log, desc)
    if irls is not None:
        judge_irls(c, P, A, Z, start, irls, desc)
    return len(A)


def judge_weights(c, P, log, desc):
    Z = [e for e in log if e["tag"] == "z"]
    for k, e in enumerate(Z):
        if not c["weights"]:
            require(all(w is None for w in e["w"]), f"{desc}: sensitivity weights out of nothing")
        elif e["when"] == "start" or (e["when"] == "iter" and c["weights"] == "every"):
            J2 = sum(np.sum((J(e["m"]) / sd[:, None]) ** 2, axis=0) for _, f, J, d, sd in P.parts)
            vol = P.mesh.cell_volumes[P.act]
            raw = np.sqrt(J2) / vol
            for w in e["w"]:
                require(w is not None, f"{desc}: no sensitivity weights")
                # whatever the threshold and normalization, the weights are a clipped or shifted multiple of the sensitivities
                order = np.argsort(raw)
                require(np.all(np.diff(w[order]) >= -1e-9 * w.max()), f"{desc}: sensitivity weights {w} do not follow the sensitivities {raw}")
                require(np.all(w > 0) and np.all(np.isfinite(w)), f"{desc}: weights {w}")
            if c["reg"] == "two":  # two terms with the same mapping: only their proportions are documented
                continue
            how, val, norm = P.how
            want = raw + val if how == "global" else np.maximum(raw, np.percentile(raw, val) if how == "percentile" else val * raw.max())
            want = want / {"maximum": want.max(), "minimum": want.min(), None: 1.0}[norm]
            for w in e["w"]:
                close(w, want, f"{desc}: sensitivity weights, threshold {how} {val}, normalization {norm}", 1e-9)
        elif c["weights"] == "once":
            for w, w0 in zip(e["w"], Z[0]["w"]):
                close(w, w0, f"{desc}: weights that are set once", 0, atol=0)


def judge_irls(c, P, A, Z, start, s, desc):
    P_norms = P.norms
    started, count, thr = None, 0, None
    nD = P.nD
    require(all(x["norm"] in (None, 2.0) for x in start["irls"]), f"{desc}: IRLS starts with norms {[x['norm'] for x in start['irls']]}")
    beta, cool = start["beta"], s["cool"]
    for k, (a, z) in enumerate(zip(A, Z)):
        it, what = a["iter"], f"{desc}, IRLS {s}, iteration {a['iter']}"
        ratio = a["phi_d"] / nD
        if started is not None:
            if abs(abs(1 - ratio) - s["tol"]) < 1e-7:
                return
            cool = 1.0 if abs(1 - ratio) <= s["tol"] else (1 / np.mean([0.75, 1 / ratio]) if ratio > 1 else 1 / np.mean([2.0, 1 / ratio]))
        if started is None:
            if abs(ratio - s["start"]) < 1e-7:
                return
            if ratio < s["start"]:
                started, cool = it, 1.0
                thr = []
                for o in P.reg.objfcts:
                    x = np.abs(np.asarray(o.mapping * (a["m"] - (o.reference_model if o.reference_model is not None and getattr(o, "reference_model_in_smooth", True) else 0))))
                    t = np.percentile(x, s["pct"])
                    thr.append(t / o.regularization_mesh.base_length if hasattr(o, "orientation") else t)
        stop = False
        if started is not None and (it - started) % s["rate"] == 0:
            if count == s["max"]:
                stop = True
                require(z["stop"], f"{what}: {count} IRLS updates done, but no stop")
            elif z["stop"]:  # converged: allowed only within the tolerance and after two updates
                stop = True
                require(count > 1 and abs(1 - ratio) < s["tol"], f"{what}: stopped after {count} updates with misfit ratio {ratio:.4g}")
            if not stop:
                thr = [t / s["f"] for t in thr]
                count += 1
        norms = P_norms if started is not None else [2.0] * len(P_norms)
        require(all(x["norm"] in (None, q) for x, q in zip(z["irls"], norms)) and all(x["same"] for x in z["irls"]), f"{what}: norms {[x['norm'] for x in z['irls']]}, expected {norms}")
        if thr is not None:
            close([x["thr"] for x in z["irls"]], thr, f"{what}: thresholds", 1e-9, atol=1e-14)
            if not stop and (it - started) % s["rate"] == 0:
                for o, x, q, t in zip(P.reg.objfcts, z["irls"], P_norms, thr):
                    want = lp_weights(o, z["m"], q, t, P.reg)
                    close(x["w"], want, f"{what}: IRLS weights of {type(o).__name__}", 1e-8)
        if stop:
            require(k + 1 == len(A), f"{what}: went on after the end of IRLS")
            return
        if it % s["rate"] == 0:
            beta = beta / cool
        close(z["beta"], beta, f"{what}: beta", 1e-9)


def judge_saved(c, P, log, S, desc, ip):
    A = [e for e in log if e["tag"] == "a" and e["when"] == "iter"]
    Z = [e for e in log if e["tag"] == "z" and e["when"] == "iter"]
    if not A:
        return
    files = sorted(glob.glob("out/model*.npy"))
    require(len(files) == len(A), f"{desc}: {len(files)} models saved in {len(A)} iterations")
    for f, a in zip(files, A):
        close(np.load(f), a["m"], f"{desc}: saved model {f}", 0, atol=0)
    d = S[-1].outDict
    require(list(d) == [a["iter"] for a in A], f"{desc}: saved iterations {list(d)}")
    files = sorted(glob.glob("out/dict*.npz"))
    require(len(files) == len(A), f"{desc}: {len(files)} dictionaries saved in {len(A)} iterations")
    for a, z, f in zip(A, Z, files):
        for e in (d[a["iter"]], np.load(f, allow_pickle=True)["arr_0"].item()):
            close(e["m"], a["m"], f"{desc}: model in the dictionary of iteration {a['iter']}", 0, atol=0)
            close(e["dpred"], a["dpred"], f"{desc}: data in the dictionary", 0, atol=0)
            close([e["phi_d"], e["phi_m"], e["beta"]], [a["phi_d"], a["phi_m"], z["beta"]], f"{desc}: values in the dictionary", 1e-12)
    if len(S) == 3:
        T = S[1]
        close(T.phi_d, [a["phi_d"] for a in A], f"{desc}: saved phi_d", 1e-12)
        close(T.phi_m, [a["phi_m"] for a in A], f"{desc}: saved phi_m", 1e-12)
        close(T.beta, [z["beta"] for z in Z], f"{desc}: saved beta", 1e-12)
        part = np.zeros(len(A))
        for k in ("small", "smooth_x", "smooth_y", "smooth_z"):
            part = part + np.array(getattr(T, "phi_m_" + k))
        close(part[-1], Z[-1]["reg_m"], f"{desc}: the parts of phi_m add up", 1e-8, atol=1e-13)
        mem = {k: np.array(getattr(T, k), float) for k in ("beta", "phi_d", "phi_m", "phi_m_small", "phi_m_smooth_x", "phi_m_smooth_y", "phi_m_smooth_z")}
        T.load_results()
        for k, v in mem.items():
            close(getattr(T, k), v, f"{desc}: {k} read back from the file", 2e-4, atol=1e-300)
        want = sum(p[3].size for p in P.parts)
        close(T.target_misfit, want, f"{desc}: target misfit of loaded results")


# ----------------------------------------------------------------- optimality

opt_case = st.fixed_dictionaries({**problem, "opt": st.sampled_from(["InexactGaussNewton", "ProjectedGNCG"]), "precond": st.booleans()})


def run_opt(c):
    from simpeg import directives as D
    from simpeg import inverse_problem, inversion, optimization

    r = gen.rng(c)
    c = dict(c, sims=[dict(s, exp=False) for s in c["sims"]], reg="wls" if c["reg"] == "sparse" else c["reg"])
    with quiet():
        P = Problem(c, r)
        kw = dict(maxIter=60, tolF=1e-16, tolX=1e-16, tolG=1e-16, eps=1e-9)
        if c["opt"] == "InexactGaussNewton":
            kw.update(maxIterCG=200, tolCG=1e-13)
        elif c["opt"] == "ProjectedGNCG":
            kw.update(cg_maxiter=200, cg_rtol=1e-13)
        opt = getattr(optimization, c["opt"])(**kw)
        ip = inverse_problem.BaseInvProblem(P.dmis, P.reg, opt, beta=c["beta"])
        dl = [D.UpdatePreconditioner()] if c["precond"] else []
        m0 = np.clip(0.3 * r.standard_normal(P.n), -0.2, 0.3)
        m = inversion.BaseInversion(ip, directiveList=dl).run(m0)
        H = P.hess_d(m) + c["beta"] * H_of(P.reg, m)
        g = P.grad_d(m) + c["beta"] * np.asarray(P.reg.deriv(m))
        scale = np.abs(H).sum() * (1 + np.abs(m).max()) + nrm(P.grad_d(m0))
        what = f"{c['opt']} with {c['reg']}, beta {c['beta']}"
        require(nrm(g) <= 1e-7 * scale, f"{what}: gradient {nrm(g):.3e} at the answer, scale {scale:.3e}")
    return [c["opt"], c["reg"]]


# ---------------------------------------------------------------- estimators

est_case = st.fixed_dictionaries({**problem, "kind": st.sampled_from(["beta_eig", "beta_max", "alphas", "scaling", "power"]), "ratio": st.sampled_from([0.1, 1.0, 10.0]), "n": st.sampled_from([1, 2, 4, 400]), "k": st.sampled_from([0.01, 7.0])})


def power(H, n, rng):
    x = rng.random(size=H.shape[0])
    x = x / nrm(x)
    for _ in range(n):
        x = H @ x
        x = x / nrm(x)
    return x @ H @ x


def run_est(c):
    from simpeg import directives as D
    from simpeg import inverse_problem, inversion, optimization
    from simpeg.utils import mat_utils

    r = gen.rng(c)
    seed = int(r.integers(10**6))
    with quiet():
        if c["kind"] == "alphas":
            c = dict(c, reg=c["reg"] if c["reg"] in ("wls", "sparse") else "wls")
        if c["kind"] == "scaling" and len(c["sims"]) == 1:
            c = dict(c, sims=c["sims"] * 2)
        P = Problem(c, r)
        m0 = 0.5 + 0.3 * r.random(P.n)
        ip = inverse_problem.BaseInvProblem(P.dmis, P.reg, optimization.InexactGaussNewton(maxIter=1), beta=1.0)
        Hd = P.hess_d(m0)

        def go(d):
            inversion.BaseInversion(ip, directiveList=[d])
            ip.startup(m0)
            d.initialize()

        what = f"{c['kind']} ratio {c['ratio']}, {c['n']} power iterations, {c['reg']}"
        n = c["n"]
        if c["kind"] == "power":
            got = mat_utils.eigenvalue_by_power_iteration(P.dmis, m0, n_pw_iter=n, random_seed=seed)
            top = np.linalg.eigvalsh(Hd)[-1]
            require(got <= top * (1 + 1e-9), f"{what}: Rayleigh quotient {got} above the largest eigenvalue {top}")
            close(got, power(Hd, n, np.random.default_rng(seed)), what, 1e-7)
            if n == 400:
                require(got >= 0.97 * top, f"{what}: {got}, largest eigenvalue {top}")
        elif c["kind"] in ("beta_eig", "beta_max"):
            make = (lambda: D.BetaEstimate_ByEig(beta0_ratio=c["ratio"], n_pw_iter=n, random_seed=seed)) if c["kind"] == "beta_eig" else (lambda: D.BetaEstimateMaxDerivative(beta0_ratio=c["ratio"], random_seed=seed))
            go(make())
            beta = ip.beta
            Hm = H_of(P.reg, m0)
            if c["kind"] == "beta_eig":
                rng = np.random.default_rng(seed)
                want = c["ratio"] * power(Hd, n, rng) / power(Hm, n, rng)
            else:
                x = np.random.default_rng(seed).random(size=P.n)
                want = c["ratio"] * np.abs(P.grad_d(m0)).max() / np.abs(P.reg.deriv(m0 + x / x.max() * m0.max())).max()
            close(beta, want, what, 1e-6)
            go(make())
            close(ip.beta, beta, what + ": the same seed gives the same beta", 1e-12)
        elif c["kind"] == "alphas":
            terms = [(alpha_name(o), o) for o in P.reg.objfcts]
            before = {k: getattr(P.reg, k) for k, o in terms}
            names = [k for k, o in terms if k != "alpha_s"]
            if any(not np.any(H_of(o, m0)) for k, o in terms if k in names):
                return ["trivial"]
            go(D.AlphasSmoothEstimate_ByEig(alpha0_ratio=c["ratio"], n_pw_iter=n, random_seed=seed))
            rng = np.random.default_rng(seed)
            es = power(H_of(terms[0][1], m0), n, rng)
            close(P.reg.alpha_s, before["alpha_s"], what + ": alpha_s is left alone", 1e-14)
            for k, o in terms:
                if k in names:
                    e = power(H_of(o, m0), n, rng)
                    close(getattr(P.reg, k), before[k] * c["ratio"] * es / e, f"{what}: {k}", 1e-6)
        else:
            k = len(P.parts)
            go(D.ScalingMultipleDataMisfits_ByEig(chi0_ratio=[c["ratio"]] + [1.0] * (k - 1), n_pw_iter=n, random_seed=seed))
            got = np.array(ip.dmisfit.multipliers, float)
            rng = np.random.default_rng(seed)
            e = [power(2 * (J(m0).T / sd**2) @ J(m0), n, rng) for _, f, J, d, sd in P.parts]
            want = np.r_[[c["ratio"]] + [1.0] * (k - 1)] / e
            close(got, want / want.sum(), what, 1e-6)
    return [c["kind"], c["reg"]]


# ------------------------------------------------------- paired inversions

pair_case = st.fixed_dictionaries(
    {
        "nD": st.lists(st.integers(2, 8), min_size=2, max_size=2),
        "mult": st.sampled_from([[1.0, 1.0], [1.0, 1.0], [1.0, 0.4]]),
        "betas": st.sampled_from([[1.0, 1.0], [0.1, 5.0]]),
        "lam": st.sampled_from([0.0, 0.5, 10.0]),
        "estimate": st.booleans(),
        "schedule": st.one_of(st.none(), st.tuples(st.sampled_from([2.0, 5.0]), st.integers(1, 2), st.booleans(), st.sampled_from([0.1, 1.0]))),
        "stop": st.one_of(st.none(), st.tuples(st.sampled_from([1e-5, 1.0]), st.sampled_from([0.1, 2.0]))),
        "save": st.booleans(),
        "maxIter": st.integers(1, 6),
        "seed": gen.seeds,
    }
)


def run_pair(c):
    from simpeg import data, data_misfit, inverse_problem, inversion, maps, optimization, regularization, simulation
    from simpeg import directives as D

    r = gen.rng(c)
    with quiet():
        mesh = discretize.TensorMesh([0.5 + r.random(3), 0.5 + r.random(2)])
        n = mesh.n_cells
        wires = maps.Wires(("a", n), ("b", n))
        parts, mis, regs = [], None, None
        for i, w in enumerate((wires.a, wires.b)):
            G = r.standard_normal((c["nD"][i], n))
            sim = simulation.LinearSimulation(G=G, model_map=w)
            sd = r.uniform(0.1, 0.3, c["nD"][i])
            d = G @ r.standard_normal(n) + sd * r.standard_normal(c["nD"][i])
            o = c["mult"][i] * data_misfit.L2DataMisfit(data.Data(sim.survey, dobs=d, standard_deviation=sd), sim)
            g = c["betas"][i] * regularization.WeightedLeastSquares(mesh, mapping=w, alpha_s=0.3)
            mis, regs = (o, g) if i == 0 else (mis + o, regs + g)
            parts.append((G, d, sd, slice(i * n, (i + 1) * n)))
        cross = regularization.CrossGradient(mesh, wire_map=wires)
        regs = regs + c["lam"] * cross
        opt = optimization.ProjectedGNCG(maxIter=c["maxIter"], cg_maxiter=60, cg_rtol=1e-6)
        ip = inverse_problem.BaseInvProblem(mis, regs, opt, beta=1.0)
        log = []

        class Note(D.InversionDirective):
            def note(self, when, tag="z"):
                log.append(dict(when=when, iter=getattr(self.opt, "iter", 0), m=np.array(self.invProb.model), mult=np.array(self.reg.multipliers, float), stop=bool(self.opt.stopNextIteration), phi_d=[float(x) for x in self.invProb.phi_d_list], phi_m=[float(x) for x in self.invProb.phi_m_list], sim=float(self.invProb.phi_sim), total=float(self.invProb.phi_m), last=np.array(getattr(self.opt, "x_last", np.nan))))

            def initialize(self):
                self.note("start")

            def endIter(self):
                self.note("iter")

        seed = int(r.integers(1000))
        L = [D.SimilarityMeasureInversionDirective()]
        if c["estimate"]:
            e = D.PairedBetaEstimate_ByEig()
            e.beta0_ratio, e.n_pw_iter, e.seed = 2.0, 3, seed
            L.append(e)
        if c["schedule"]:
            s = D.PairedBetaSchedule()
            s.cooling_factor, s.cooling_rate, s.update_beta, s.beta_tol = c["schedule"]
            L.append(s)
        if c["stop"]:
            s = D.MovingAndMultiTargetStopping()
            s.tol, s.beta_tol = c["stop"]
            L.append(s)
        if c["save"]:
            L.append(D.SimilarityMeasureSaveOutputEveryIteration(directory=".", name="pair"))
        L.append(Note())
        m0 = 0.3 * r.standard_normal(2 * n)
        got = inversion.BaseInversion(ip, directiveList=L).run(m0)
        what = f"paired inversion {c}"
        b = np.array(c["betas"], float)
        if c["estimate"]:
            rng = np.random.default_rng(seed)
            b = []
            for (G, d, sd, sl), reg in zip(parts, regs.objfcts):
                H = np.zeros((2 * n, 2 * n))
                H[sl, sl] = 2 * (G.T / sd**2) @ G
                a = power(H, 3, rng)
                b.append(2.0 * a / power(H_of(reg, m0), 3, rng))
            b = np.array(b)
        close(log[0]["mult"], np.r_[b, c["lam"]], what + ": starting multipliers", 1e-7)
        its = [e for e in log if e["when"] == "iter"]
        require([e["iter"] for e in its] == list(range(1, len(its) + 1)), what + ": iterations")
        tgt = np.array(c["nD"], float)
        for k, e in enumerate(its):
            w = what + f", iteration {k + 1}"
            per = np.array([np.sum(((G @ e["m"][sl] - d) / sd) ** 2) for G, d, sd, sl in parts])
            close(e["phi_d"], per, w + ": the misfits", 1e-8)
            close(e["phi_m"], [float(o(e["m"])) for o in regs.objfcts[:2]], w + ": the regularizations", 1e-8, atol=1e-13)
            if c["lam"]:
                close(e["sim"], float(cross(e["m"])), w + ": the coupling", 1e-8, atol=1e-13)
            if c["schedule"] and (k + 1) % c["schedule"][1] == 0:
                f, _, upd, tol = c["schedule"]
                q = per / tgt
                if np.any(np.abs(q - 1 - tol) < 1e-7) or np.any(np.abs(q - 1) < 1e-7):
                    return ["trivial"]
                for i in range(2):
                    if upd and q[i] <= 1 + tol:
                        b[i] /= max(0.75, q[i]) if q[i] <= 1 else min(1.5, q[i])
                    elif q[i] > 1:
                        b[i] /= f
            close(e["mult"], np.r_[b, c["lam"]], w + ": multipliers", 1e-7)
            if c["stop"]:
                tol, btol = c["stop"]
                prev = its[k - 1]["m"] if k else m0
                rel = nrm(e["m"] - prev) / nrm(prev)
                stop = bool(np.all(np.abs(1 - per / tgt) < btol) and rel <= tol)
                if abs(rel / tol - 1) > 1e-6 and np.all(np.abs(np.abs(1 - per / tgt) / btol - 1) > 1e-6):
                    require(e["stop"] == stop, f"{w}: stop is {e['stop']}, misfits {per}, targets {tgt}, change {rel:.3e}")
                    require(not (stop and k + 1 < len(its)), w + ": went on")
            else:
                require(not e["stop"], w + ": stopped")
        if its:
            close(got, its[-1]["m"], what + ": the answer", 0, atol=0)
    return ["pair", "estimate" if c["estimate"] else "given"] + ([] if len(its) > 1 else ["trivial"])


SUBS = [
    Sub("pair", pair_case, run_pair, quick=200, thorough=3000, shards=3, cost=1.5),
    Sub("evaluate", eval_case, run_eval, quick=600, thorough=6000, shards=3, cost=1.0),
    Sub("run", run_case, run_inv, quick=1200, thorough=12000, shards=8, cost=3.0),
    Sub("optimal", opt_case, run_opt, quick=300, thorough=3000, shards=3, cost=1.0),
    Sub("estimate", est_case, run_est, quick=400, thorough=5000, shards=4, cost=1.0),
]
