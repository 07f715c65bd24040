"""C15: what a simulation answers depends on the question, not on the questions before it."""

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from lib import family, gen
from lib.oracle import check_no_mutation, nrm, require
from lib.pbt import Sub

PROPERTY = "C15"
RULE = (
    "A case is a simulation of one of 25 families (with the meshes, surveys, maps and models of checks C01-C07) and a history of "
    "2-6 calls on it: predicted data, fields, products with J and its transpose (with fields computed at any earlier point of the "
    "history, or none), diagonal of J^T J, setting the model, replacing the maps, for four models of which two differ in the sixth digit only. Every answer is "
    "compared with that of a simulation made for this one question. Non-trivial: the history has calls for two models."
)
ASSUMPTIONS = ["sequential use of one simulation object"]

call = st.one_of(
    st.tuples(st.sampled_from(["dpred!", "Jvec!", "Jtvec!"]), st.integers(0, 3)),
    st.tuples(st.sampled_from(["dpred", "fields", "Jvec", "Jtvec", "fields", "Jvec_f", "Jtvec_f", "dpred_f", "model"]), st.integers(0, 3)),
    st.tuples(st.sampled_from(["Jvec", "Jtvec", "dpred", "JtJ", "maps"]), st.integers(0, 3)),
).map(list)


# fields kept while the simulation moves on to another model
kept = st.tuples(
    st.integers(0, 3),
    st.lists(call, min_size=1, max_size=2),
    st.sampled_from(["Jvec_f", "Jtvec_f", "dpred_f"]),
    st.lists(call, max_size=1),
).map(lambda t: [["fields", t[0]]] + t[1] + [[t[2], t[0]]] + t[3])


def active_maps(sim):
    """the names of the mappings a simulation was given"""
    from simpeg import maps

    names = [k for k in dir(type(sim)) if k.endswith("Map") and not k.startswith("_") and isinstance(getattr(type(sim), k), property)]
    return sorted(k for k in names if isinstance(getattr(sim, k), maps.IdentityMap))


def histories(sub):
    calls = st.one_of(st.lists(call, min_size=2, max_size=6), kept)
    return st.fixed_dictionaries({"case": sub.strategy, "calls": calls, "seed": gen.seeds})


def agree(a, b, what, scale=None):
    a, b = np.asarray(a), np.asarray(b)
    require(a.shape == b.shape, f"{what}: shapes {a.shape} and {b.shape}")
    s = max(nrm(b), scale or 0.0)
    e = nrm(a - b)
    require(e <= RTOL * s, f"{what}: |difference| {e:.3e} of {s:.3e}")


RTOL = 2e-8


def runner(sub):
    def run(c):
        S = family.capture(sub, c["case"])
        if S is None:
            return ["trivial"]
        r = gen.rng(c)
        m, v = S.m, S.v
        # (steps stay below 0.75: a susceptibility or permeability stays physical)
        models = [m, m + 0.3 * v / max(1.0, np.max(np.abs(v)) / 2.5), m * (1 + 3e-6), m + 0.1 * np.sign(v) * np.abs(v)]
        fresh, data = {}, {}

        lam = sp.diags(r.uniform(0.9, 1.0, m.size)).tocsr()
        version = 0

        def remap(s, old):
            from simpeg import maps

            if not old:
                old.update((name, getattr(s, name)) for name in active_maps(s))
            for name in old:  # (of a reciprocal pair the later one stays; both say the same)
                setattr(s, name, old[name] * maps.LinearMap(lam) if version else old[name])

        def oracle(op, i):
            key = (op, i, version)
            if key not in fresh:
                s = S.make()
                if version:
                    remap(s, {})
                x = models[i].copy()
                if op == "dpred":
                    fresh[key] = np.array(s.dpred(x))
                elif op == "Jvec":
                    fresh[key] = np.array(s.Jvec(x, v.copy()))
                elif op == "Jtvec":
                    fresh[key] = np.array(s.Jtvec(x, w.copy()))
                elif op == "JtJ":
                    fresh[key] = np.array(s.getJtJdiag(x, W=W))
            return fresh[key]

        d0 = oracle("dpred", 0)
        w = r.standard_normal(d0.size)
        W = sp.diags(0.5 + r.random(d0.size))
        W2 = sp.diags(0.5 + r.random(d0.size))
        sim = S.make()
        stored = {}
        used = set()
        original = {}
        shared = models[0].copy()
        for k, (op, i) in enumerate(c["calls"]):
            x = models[i].copy()
            if op.endswith("!"):  # the caller re-uses one array for its models
                op = op[:-1]
                x, shared[:] = shared, models[i]
            vv, ww = v.copy(), w.copy()
            what = f"{S.what}: call {k + 1} of {c['calls']}: {op} for model {i}"
            f = None
            if op.endswith("_f"):
                if not S.fields_arg or i not in stored:
                    op = op[:-2]
                else:
                    f = stored[i]
                    op = op[:-2]
            if op == "fields":
                if not S.fields_arg:
                    op = "dpred"
                else:
                    stored[i] = sim.fields(x)
                    used.add(i)
                    continue
            if op == "JtJ":
                if not (S.JtJ and hasattr(sim, "getJtJdiag")):
                    op = "Jtvec"
                else:
                    if k % 2:
                        sim.getJtJdiag(x, W=W2)
                    agree(sim.getJtJdiag(x, W=W), oracle("JtJ", i), what)
                    used.add(i)
                    continue
            if op == "model":
                sim.model = x
                continue
            if op == "maps":
                if active_maps(sim) and not {"etaMap", "qMap"} & set(active_maps(sim)):  # IP and SP keep J for good
                    version = 1 - version
                    remap(sim, original)
                    stored.clear()
                continue
            kw = {} if f is None else {"f": f}
            if op == "dpred":
                got = sim.dpred(x, **kw)
                sc = None
            elif op == "Jvec":
                got = sim.Jvec(x, vv, **kw)
                sc = None
            else:
                got = sim.Jtvec(x, ww, **kw)
                sc = None
            check_no_mutation(models[i], x, what)
            agree(got, oracle(op, i), what, sc)
            used.add(i)
        return [] if len(used) > 1 else ["trivial"]

    return run


COUNTS = {
    "dc3d": (90, 1), "dc2d": (60, 2), "dc1d": (60, 1), "ip": (60, 1), "sip": (30, 1), "sp": (40, 1),
    "fdem": (90, 2), "fdem_sym": (50, 1), "fdem_cyl": (20, 1), "tdem": (40, 2), "tdem_sym": (24, 1),
    "mt_recursive": (60, 1), "mt_1d": (50, 1), "mt_2d": (30, 1), "mt_3d": (16, 1),
    "em1d_f": (60, 1), "em1d_t": (24, 1), "gravity": (30, 1), "gravity_layer": (16, 1), "magnetics": (40, 1),
    "magnetics_layer": (20, 1), "magnetics_fv": (50, 1), "richards": (10, 2), "rays": (40, 1), "linear": (60, 1),
}
SUBS = []
for name, (mod, subname) in family.FAMILIES.items():
    s = family.sub_of(mod, subname)
    n, sh = COUNTS[name]
    SUBS.append(Sub(name, histories(s), runner(s), quick=n, thorough=25 * n, shards=sh, cost=s.cost))
