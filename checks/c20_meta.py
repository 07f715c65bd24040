"""C20: meta simulations are the sum or concatenation of the simulations they are made of."""

import contextlib
import io
import pickle
import queue
import threading
import warnings

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from lib import family, gen
from lib.oracle import close, require
from lib.pbt import Sub, Violation

PROPERTY = "C20"
RULE = (
    "A case is a meta simulation (concatenated, summed or repeated; in this process or over 1-4 workers, run as threads with pickled messages) of 1-4 generated simulations (static, layered EM, "
    "natural source, potential fields, linear) with mappings from a common model (selections, scaled selections, general linear and "
    "exponential maps), and a history of 3-6 questions (dpred, Jvec, Jtvec, getJtJdiag with and without weights, with and without fields) "
    "about 2 models. Oracle: fresh plain simulations asked one by one. Non-trivial: at least two simulations."
)
ASSUMPTIONS = ["getJtJdiag: mappings with one entry per column (documented), disjoint ones for sums"]

SERIAL = ["dc3d", "dc1d", "linear", "em1d_f", "mt_recursive", "gravity", "rays", "mt_1d", "dc2d"]
PARALLEL = ["linear", "gravity", "dc3d", "em1d_f", "dc1d", "mt_recursive", "rays"]


def case(names, procs):
    d = {
        "kind": st.sampled_from(["meta", "sum", "repeat"]),
        "sims": st.lists(st.sampled_from(names), min_size=1, max_size=4),
        "map": st.sampled_from(["select", "scaled", "linear", "exp"]),
        "ops": st.lists(st.tuples(st.sampled_from(["dpred", "Jvec", "Jtvec", "JtJ", "JtJ_W", "dpred_m", "Jvec_f"]), st.integers(0, 1)), min_size=3, max_size=6),
        "seed": gen.seeds,
        "case": st.integers(0, 10**6),
    }
    if procs:
        d["procs"] = st.integers(1, 4)
    return st.fixed_dictionaries(d)


_pool = {}


def example(name, k):
    """a generated case of a family (deterministic in k)"""
    from hypothesis import Phase, HealthCheck, given, seed, settings

    key = (name, k)
    if key not in _pool:
        sub = family.sub_of(*family.FAMILIES[name])
        got = []

        @seed(k)
        @settings(max_examples=12, database=None, deadline=None, phases=[Phase.generate], suppress_health_check=list(HealthCheck))
        @given(sub.strategy)
        def collect(c):
            got.append(c)

        collect()
        _pool[key] = got[-1]
    return _pool[key]


def build(c, r):
    """-> list of factories of plain simulations, their models, whether getJtJdiag is there"""
    out = []
    names = c["sims"]
    if c["kind"] == "repeat":
        names = names[:1] * len(names)
    for i, name in enumerate(names):
        if c["kind"] == "meta" or i == 0:
            sub = family.sub_of(*family.FAMILIES[name])
            s = family.capture(sub, example(name, (c["case"] + (17 * i if c["kind"] == "meta" else 0)) % 40))
            if s is None:
                return None
        out.append(s)
    return out


def mapping(c, i, k, n, p, m0, r):
    """map i of k from a model of p parameters to one of n that is close to m0"""
    from simpeg import maps

    if c["map"] in ("select", "scaled"):
        # each entry of the common model goes to at most one entry: disjoint blocks
        idx = np.arange(n) + i * n if p >= k * n else r.permutation(p)[:n]
        A = sp.csr_matrix((np.ones(n) if c["map"] == "select" else r.uniform(0.5, 1.5, n), (np.arange(n), idx)), shape=(n, p))
        return maps.LinearMap(A, m0), A
    A = 0.3 * r.standard_normal((n, p)) / np.sqrt(p)
    if c["map"] == "linear":
        return maps.LinearMap(sp.csr_matrix(A), m0), None
    return maps.LinearMap(sp.csr_matrix(A), m0) * maps.ExpMap(nP=p), None


@contextlib.contextmanager
def quiet():
    with contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield


class Pipe:
    """what multiprocessing.Queue does to the values (they are pickled), in one process"""

    def __init__(self):
        self.q = queue.Queue()

    def put(self, x):
        try:
            x = pickle.dumps(x)
        except Exception as err:  # noqa: BLE001
            raise Violation(f"a {type(x[1][0]).__name__} cannot be sent to another process: {err}") from err
        self.q.put(x)

    def get(self):
        return pickle.loads(self.q.get(timeout=120))

    def close(self):
        pass

    join_thread = close


@contextlib.contextmanager
def threads():
    """the worker processes of the multiprocessing meta simulations as threads (a fork of a process that has used threaded solvers hangs)"""
    from simpeg.meta import multiprocessing as mod

    real = mod._SimulationProcess

    class Worker(real):
        def __init__(self):
            super().__init__()
            self.task_queue, self.result_queue = Pipe(), Pipe()

        def start(self):
            self._thread = threading.Thread(target=self.run, daemon=True)
            self._thread.start()

        def is_alive(self):
            return self._thread.is_alive()

        def join(self, timeout=None):
            self.task_queue.put(None)
            self._thread.join(timeout)

        def __reduce__(self):
            raise TypeError("a process is not sent to another one")

    mod._SimulationProcess = Worker
    try:
        yield
    finally:
        mod._SimulationProcess = real


def run(c, procs):
    if procs:
        with threads():
            return run_here(c, procs)
    return run_here(c, procs)


def run_here(c, procs):
    from simpeg import meta

    r = gen.rng(c)
    setups = build(c, r)
    if setups is None:
        return ["skip"]
    k = len(setups)
    sizes = [s.m.size for s in setups]
    if c["map"] in ("select", "scaled"):
        p = k * max(sizes) + 1
    else:
        p = 4
    made = [mapping(c, i, k, s.m.size, p, s.m, r) for i, s in enumerate(setups)]
    mps = [x[0] for x in made]
    what = f"{c['kind']} of {c['sims']}, {c['map']} mappings" + (f", {c['procs']} processes" if procs else "")
    with quiet():
        if c["kind"] == "repeat":
            args = (setups[0].make(), mps)
            cls = meta.MultiprocessingRepeatedSimulation if procs else meta.RepeatedSimulation
        else:
            args = ([s.make() for s in setups], mps)
            cls = {
                ("meta", False): meta.MetaSimulation,
                ("meta", True): meta.MultiprocessingMetaSimulation,
                ("sum", False): meta.SumMetaSimulation,
                ("sum", True): meta.MultiprocessingSumMetaSimulation,
            }[(c["kind"], procs)]
        sim = cls(*args, n_processes=c["procs"]) if procs else cls(*args)
    try:
        return history(c, r, sim, setups, mps, p, what)
    finally:
        if procs:
            sim.join(timeout=20)


def history(c, r, sim, setups, mps, p, what):
    models = [0.1 * r.standard_normal(p), 0.1 * r.standard_normal(p)]
    fields_ok = all(s.fields_arg for s in setups)
    with quiet():
        plain = [s.make() for s in setups]
        sizes = [q.survey.nD for q in plain]
    total = sum(sizes) if c["kind"] != "sum" else sizes[0]
    require(sim.survey.nD == total, f"{what}: {sim.survey.nD} data, not {total}")
    joined = (lambda x: sum(x)) if c["kind"] == "sum" else np.concatenate

    def want_d(m):
        return joined([s.make().dpred(g * m) for s, g in zip(setups, mps)])

    def want_J(m, v):
        return joined([s.make().Jvec(g * m, g.deriv(m) @ v) for s, g in zip(setups, mps)])

    def want_Jt(m, w):
        parts = [w] * len(setups) if c["kind"] == "sum" else np.split(w, np.cumsum(sizes)[:-1])
        return sum(g.deriv(m).T @ s.make().Jtvec(g * m, x) for s, g, x in zip(setups, mps, parts))

    sel = c["map"] in ("select", "scaled")
    for op, i in c["ops"]:
        m = models[i]
        w = f"{what}: {op} after {c['ops']}"
        with quiet():
            if op == "dpred":
                close(sim.dpred(m), want_d(m), w, rtol=1e-9)
            elif op == "dpred_m":
                if sim.model is None:
                    sim.model = m
                now = np.array(sim.model)
                close(sim.dpred(), want_d(now), w, rtol=1e-9)
            elif op in ("Jvec", "Jvec_f"):
                v = r.standard_normal(p)
                f = sim.fields(m) if op == "Jvec_f" and fields_ok else None
                close(sim.Jvec(m, v, f=f), want_J(m, v), w, rtol=1e-7, atol=0)
            elif op == "Jtvec":
                x = r.standard_normal(total)
                close(sim.Jtvec(m, x), want_Jt(m, x), w, rtol=1e-7, atol=0)
            elif sel and all(s.JtJ for s in setups):
                W = r.uniform(0.2, 3, total) if op == "JtJ_W" else np.ones(total)
                got = sim.getJtJdiag(m, W=sp.diags(W) if op == "JtJ_W" else None)
                # by columns, for a few parameters
                cols = r.permutation(p)[:3]
                want = [np.sum((W * want_J(m, np.eye(p)[j])) ** 2) for j in cols]
                close(np.asarray(got)[cols], want, w, rtol=1e-6, atol=1e-9 * np.max(np.abs(got)))
    return [c["kind"], c["map"]] + (c["sims"] if len(setups) > 1 else ["trivial"])


SUBS = [
    Sub("serial", case(SERIAL, False), lambda c: run(c, False), quick=200, thorough=4000, shards=6, cost=3.0),
    Sub("processes", case(PARALLEL, True), lambda c: run(c, True), quick=80, thorough=1200, shards=4, cost=3.0),
]
