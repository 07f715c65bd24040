"""C33: data depend on where sources, receivers and cells are relative to each other, not on where the coordinates have their origin."""

import numpy as np
from hypothesis import strategies as st

from lib import family, gen
from lib.oracle import close, require
from lib.pbt import Sub

PROPERTY = "C33"
RULE = (
    "A case is a generated simulation of one of 15 families (as in C01-C07), a model, a perturbation, a data vector and an offset of up to "
    "8000 km (the size of projected coordinates). The mesh and with it all sources and receivers are moved by the offset; predicted data, Jvec and "
    "Jtvec must stay the same up to the rounding of the coordinates. Non-trivial: the survey was moved as a whole and the data are not all zero."
)
ASSUMPTIONS = ["offsets are multiples of 2**8 m up to 2**23 m; cells are at least 0.5 m wide"]

NAMES = ["dc3d", "dc2d", "ip", "sip", "sp", "fdem", "tdem", "mt_2d", "mt_3d", "gravity", "magnetics", "magnetics_fv", "rays", "em1d_f", "em1d_t"]
offsets = st.tuples(st.sampled_from([0, 2**19, -(2**20), 2**12]), st.sampled_from([0, 2**22, -(2**21), 2**23]), st.sampled_from([0, 2**8, -(2**10), 2**11])).map(list)


def places(survey):
    """all coordinates of a survey, one row each"""
    out = []

    def add(x):
        if x is None:
            return
        if isinstance(x, (list, tuple)):
            for y in x:
                add(y)
            return
        x = np.asarray(x, float)
        out.append(x.reshape(-1, x.shape[-1]) if x.ndim else x.reshape(1, 1))

    for src in survey.source_list:
        for k in ("location", "locations"):
            if hasattr(src, k):
                add(getattr(src, k))
        for rx in src.receiver_list or []:
            for k in ("locations", "reference_locations"):
                if hasattr(rx, k):
                    add(getattr(rx, k))
    return out


def moved(name, sub):
    def run(c):
        S0 = family.capture(sub, c["case"])
        if S0 is None:
            return ["trivial"]
        with gen.shifted(c["offset"]):
            S1 = family.capture(sub, c["case"])
            a, b = S0.make, S1.make
            sim1 = b()
        sim0 = a()
        dim = sim0.mesh.dim
        off = gen.part(c["offset"], dim)
        if not np.array_equal(S0.m, S1.m):
            return ["trivial", "model"]
        p0, p1 = places(sim0.survey), places(sim1.survey)
        if len(p0) != len(p1):
            return ["trivial", "survey"]
        for x, y in zip(p0, p1):
            if x.shape != y.shape or x.shape[1] != dim or np.any(np.abs(y - x - off) > 1e-8 * (1 + np.abs(off).max() * 1e-3)):
                return ["trivial", "survey"]
        r = gen.rng(c)
        m, v = S0.m, r.standard_normal(S0.m.size)
        d0, d1 = np.asarray(sim0.dpred(m.copy())), np.asarray(sim1.dpred(m.copy()))
        top = np.max(np.abs(d0), initial=0.0)
        what = f"{S0.what}: moved by {c['offset']}"
        tol = TOL.get(name, 1e-5)
        close(d1, d0, what + ": data", tol, atol=1e-300)
        if S0.J is None or S0.J:
            j0, j1 = np.asarray(sim0.Jvec(m.copy(), v)), np.asarray(sim1.Jvec(m.copy(), v))
            close(j1, j0, what + ": Jvec", tol, atol=1e-300)
            w = r.standard_normal(d0.size)
            t0, t1 = np.asarray(sim0.Jtvec(m.copy(), w)), np.asarray(sim1.Jtvec(m.copy(), w))
            close(t1, t0, what + ": Jtvec", tol, atol=1e-300)
        return [name] if top > 0 and np.any(c["offset"]) else ["trivial"]

    return run


TOL = {}


def _sub(name):
    sub = family.sub_of(*family.FAMILIES[name])
    strategy = st.fixed_dictionaries({"case": sub.strategy, "offset": offsets, "seed": gen.seeds})
    run = (layered if name.startswith("em1d") else moved)(name, sub)
    return Sub(name, strategy, run, quick={"em1d_t": 24, "tdem": 30}.get(name, 40), thorough=1500, shards=1, cost=2.0)


def layered(name, sub):
    """soundings over layers: sources, receivers and topography are moved"""

    def run(c):
        S = family.capture(sub, c["case"])
        if S is None:
            return ["trivial"]
        a, b = S.make(), S.make()
        off = gen.part(c["offset"], 3)
        for src in b.survey.source_list:
            src.location = np.asarray(src.location) + off
            for rx in src.receiver_list:
                if not rx.use_source_receiver_offset:
                    rx.locations = np.asarray(rx.locations) + off
        b.topo = np.asarray(a.topo) + off
        m = S.m
        v = gen.rng(c).standard_normal(m.size)
        what = f"{S.what}: moved by {c['offset']}"
        d = np.asarray(a.dpred(m.copy()))
        close(np.asarray(b.dpred(m.copy())), d, what + ": data", 1e-5, atol=1e-300)
        close(np.asarray(b.Jvec(m.copy(), v)), np.asarray(a.Jvec(m.copy(), v)), what + ": Jvec", 1e-5, atol=1e-300)
        return [name] if np.any(off) and np.any(d) else ["trivial"]

    return run


wire_case = st.fixed_dictionaries({"n": st.integers(1, 5), "closed": st.booleans(), "size": st.sampled_from([0.5, 10.0, 200.0, 5e3]), "flat": st.booleans(), "along": st.sampled_from([None, 0, 1]), "offset": offsets, "mesh": gen.tensor_mesh(dim=3, nmin=2, nmax=5, base=(5.0,)), "seed": gen.seeds})


def wire(c):
    """grounded wires and loops, and the source terms they give"""
    from simpeg.electromagnetics import time_domain as tdem
    from simpeg.electromagnetics.utils import segmented_line_current_source_term

    r = gen.rng(c)
    n = max(c["n"], 3) if c["closed"] else c["n"] + 1
    p = r.uniform(-0.5, 0.5, (n, 3)) * c["size"]
    if c["flat"]:
        p[:, 2] = p[0, 2]
    if c["along"] is not None and not c["closed"]:
        p[:, 1 - c["along"]] = p[0, 1 - c["along"]]
    if c["closed"]:
        p = np.vstack([p, p[:1]])
    off = gen.part(c["offset"], 3)
    for o in (0 * off, off):
        kind = tdem.sources.LineCurrent([], location=p + o).srcType
        require(kind == ("inductive" if c["closed"] else "galvanic"), f"a wire through {(p + o).tolist()} is {kind}")
    # through the edges of a mesh
    terms = []
    mesh = gen.build_mesh(c["mesh"])
    lim = gen.lims(mesh)
    q = lim[:, 0] + (lim[:, 1] - lim[:, 0]) * r.uniform(0.05, 0.95, (n, 3))
    if c["closed"]:
        q = np.vstack([q, q[:1]])
    for o in ([0, 0, 0], c["offset"]):
        with gen.shifted(o):
            mesh = gen.build_mesh(c["mesh"])
        terms.append(segmented_line_current_source_term(mesh, q + gen.part(o, 3)))
    close(terms[1], terms[0], f"source term of a wire moved by {c['offset']}", 1e-6)
    return ["closed" if c["closed"] else "open"] if np.any(off) else ["trivial"]


SUBS = [Sub("wires", wire_case, wire, quick=300, thorough=5000, shards=1, cost=1.0)] + [_sub(n) for n in NAMES]
