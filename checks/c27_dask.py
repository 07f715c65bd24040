"""C27: the dask versions of the simulations answer as the plain ones."""

import contextlib
import os
import shutil
import tempfile
import warnings
from concurrent.futures import ThreadPoolExecutor

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from checks import c20_meta
from lib import family, gen
from lib.oracle import close, nrm, require
from lib.pbt import Sub

PROPERTY = "C27"
RULE = (
    "A case is a generated DC, IP, gravity or magnetic simulation (those of C01 and C06), a history of 2-5 questions about three models asked of it with simpeg.dask loaded (stored or not stored sensitivities, in memory, on disk or "
    "forward only, in one or many blocks and chunks), or a dask meta simulation of 1-4 generated simulations on 1-3 workers with a history of questions. Oracle: fresh simulations without dask. Non-trivial: "
    "two questions about different models, or two simulations."
)
ASSUMPTIONS = ["dask workers are threads of this process", "sensitivity folders are not shared between simulations"]

_swap = None  # [(class, name, plain, dask)]
MISSING = object()


def classes():
    from simpeg.simulation import BaseSimulation

    todo, seen = [BaseSimulation], []
    while todo:
        c = todo.pop()
        if c not in seen:
            seen.append(c)
            todo += c.__subclasses__()
    return seen


def load():
    """import simpeg.dask, which replaces methods, and note what it replaces"""
    global _swap
    if _swap is not None:
        return
    import simpeg.electromagnetics.static.induced_polarization  # noqa: F401
    import simpeg.electromagnetics.static.resistivity  # noqa: F401
    import simpeg.potential_fields.gravity  # noqa: F401
    import simpeg.potential_fields.magnetics  # noqa: F401

    cls = classes()
    before = {c: dict(vars(c)) for c in cls}
    import simpeg.dask  # noqa: F401

    _swap = []
    for c in cls:
        for name, value in vars(c).items():
            old = before[c].get(name, MISSING)
            if old is not value and not name.startswith(("__doc", "_abc")):
                _swap.append((c, name, old, value))
    require(len(_swap) > 3, "simpeg.dask does not load")
    plain()


def plain():
    for c, name, old, _ in _swap:
        if old is MISSING:
            with contextlib.suppress(AttributeError):
                delattr(c, name)
        else:
            setattr(c, name, old)


@contextlib.contextmanager
def dask_on(small, cls=None):
    import dask

    for c, name, _, new in _swap:
        setattr(c, name, new)
    try:
        with dask.config.set(scheduler="synchronous"):
            yield
    finally:
        plain()


@contextlib.contextmanager
def limits(cls, small):
    """small blocks and chunks (the settings are whole gigabytes and megabytes)"""
    if not small:
        yield
        return
    cls.max_ram, cls.max_chunk_size = small * 1e-6, small * 1e-3
    try:
        yield
    finally:
        del cls.max_ram, cls.max_chunk_size


@contextlib.contextmanager
def scratch():
    d = tempfile.mkdtemp(prefix="c27_")
    here = os.getcwd()
    os.chdir(d)
    try:
        yield d
    finally:
        os.chdir(here)
        shutil.rmtree(d, ignore_errors=True)


OPS = ["dpred", "Jvec", "Jtvec", "JtJ", "JtJ_W", "JtJ_V"]
call = st.tuples(st.sampled_from(OPS), st.integers(0, 2)).map(list)


def runner(sub):
    def run(c):
        load()
        with scratch() as d, warnings.catch_warnings(), c20_meta.quiet():
            warnings.simplefilter("ignore")
            return history(sub, c, d)

    return run


def history(sub, c, d):
    c = {**c, "case": {**c["case"]}}
    if c["case"].get("store") == "forward_only":
        c["case"]["store"] = "ram"
    if c["store"] == "disk" and "engine" in c["case"]:
        c["case"]["engine"] = "geoana"
    S = family.capture(sub, c["case"])
    if S is None:
        return ["trivial"]
    r = gen.rng(c)
    m, v = S.m, S.v
    models = [m, m + 0.3 * v / max(1.0, np.max(np.abs(v)) / 2.5), m + 0.1 * v]
    d0 = np.asarray(S.make().dpred(m))
    nd = d0.size
    w = r.standard_normal(nd)
    W = {"JtJ": None, "JtJ_W": sp.diags(0.5 + r.random(nd)), "JtJ_V": sp.diags(0.5 + r.random(nd))}

    def ask(sim, op, x):
        x = x.copy()
        if op == "dpred":
            return sim.dpred(x)
        if op == "Jvec":
            return sim.Jvec(x, v.copy())
        if op == "Jtvec":
            return sim.Jtvec(x, w.copy())
        return sim.getJtJdiag(x, W=W[op])

    with dask_on(c["small"]):
        sim = S.make()
        sim.sensitivity_path = os.path.join(d, "sens") + os.sep
        store = c["store"]
        if hasattr(sim, "storeJ"):
            sim.storeJ = store != "forward_only"
        elif hasattr(sim, "store_sensitivities"):
            sim.store_sensitivities = store
            os.makedirs(sim.sensitivity_path, exist_ok=True)
        sim.chunk_format = c["chunks"]
    forward = getattr(sim, "store_sensitivities", "") == "forward_only"
    used = set()
    for k, (op, i) in enumerate(c["calls"]):
        if forward and op != "dpred":
            op = "dpred"
        if op.startswith("JtJ") and not hasattr(sim, "getJtJdiag"):
            op = "Jtvec"
        if op.startswith("JtJ") and getattr(sim, "storeJ", True) is False and hasattr(sim, "_mini_survey"):
            op = "Jvec"
        what = f"{S.what} with dask ({c['store']}, {c['chunks']} chunks{', small' if c['small'] else ''}): question {k + 1} of {c['calls']}: {op}"
        with dask_on(c["small"]), limits(type(sim), c["small"]):
            got = ask(sim, op, models[i])
            got = np.asarray(got.compute() if hasattr(got, "compute") else got)
        want = np.asarray(ask(S.make(), op, models[i]))
        require(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
        e, s = nrm(got - want), nrm(want)
        require(e <= 1e-6 * s if np.asarray(want).dtype == np.float32 or hasattr(sim, "sensitivity_dtype") and sim.sensitivity_dtype == np.float32 else e <= 1e-8 * s, f"{what}: |difference| {e:.3e} of {s:.3e}")
        used.add(i)
    return [c["store"], "small" if c["small"] else "large"] + ([] if len(used) > 1 else ["trivial"])


def histories(sub, stores):
    return st.fixed_dictionaries(
        {
            "case": sub.strategy,
            "store": st.sampled_from(stores),
            "chunks": st.sampled_from(["row", "equal", "auto"]),
            "small": st.sampled_from([0, 1, 5]),
            "calls": st.lists(call, min_size=2, max_size=5),
            "seed": gen.seeds,
        }
    )


# -------------------------------------------------------------------------------------------------- meta simulations
_client = {}


def client(n):
    import dask
    from distributed import Client

    if n not in _client:
        for k in list(_client):
            _client.pop(k).close()
        dask.config.set({"distributed.worker.memory.target": False, "distributed.worker.memory.spill": False})
        # one task at a time: the workers, being threads, share the objects sent to them
        _client[n] = Client(processes=False, n_workers=n, threads_per_worker=1, executor=ThreadPoolExecutor(1), dashboard_address=None, silence_logs=50)
    return _client[n]


def check_meta(c):
    from simpeg.meta import DaskMetaSimulation, DaskRepeatedSimulation, DaskSumMetaSimulation

    r = gen.rng(c)
    setups = c20_meta.build(c, r)
    if setups is None:
        return ["trivial"]
    k = len(setups)
    p = k * max(s.m.size for s in setups) + 1 if c["map"] in ("select", "scaled") else 4
    mps = [c20_meta.mapping(c, i, k, s.m.size, p, s.m, r)[0] for i, s in enumerate(setups)]
    what = f"dask {c['kind']} of {c['sims']}, {c['map']} mappings, {c['workers']} workers"
    with c20_meta.quiet():
        cl = client(c["workers"])
        if c["kind"] == "repeat":
            sim = DaskRepeatedSimulation(setups[0].make(), mps, cl)
        else:
            sim = {"meta": DaskMetaSimulation, "sum": DaskSumMetaSimulation}[c["kind"]]([s.make() for s in setups], mps, cl)
        sim.model = np.zeros(p)
        return c20_meta.history(c, r, sim, setups, mps, p, what)


SUBS = [
    Sub(
        "meta",
        st.fixed_dictionaries(
            {
                "kind": st.sampled_from(["meta", "sum", "repeat"]),
                "sims": st.lists(st.sampled_from(["linear", "dc1d", "mt_recursive", "rays", "dc3d"]), min_size=1, max_size=4),
                "map": st.sampled_from(["select", "scaled", "linear", "exp"]),
                "ops": st.lists(st.tuples(st.sampled_from(["dpred", "Jvec", "Jtvec", "JtJ", "JtJ_W", "dpred_m", "Jvec_f"]), st.integers(0, 1)), min_size=3, max_size=6),
                "workers": st.integers(1, 3),
                "seed": gen.seeds,
                "case": st.integers(0, 10**6),
            }
        ),
        check_meta,
        quick=40,
        thorough=1000,
        shards=2,
    )
]
for name, n, stores in (
    ("dc3d", 60, ["ram", "forward_only"]),
    ("dc2d", 15, ["ram"]),
    ("ip", 40, ["ram", "forward_only"]),
    ("gravity", 30, ["ram", "ram", "disk", "forward_only"]),
    ("magnetics", 40, ["ram", "ram", "disk", "forward_only"]),
):
    s = family.sub_of(*family.FAMILIES[name])
    SUBS.append(Sub(name, histories(s, stores), runner(s), quick=n, thorough=25 * n, cost=s.cost))
