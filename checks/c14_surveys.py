"""C14: data, fields and uncertainties belong to their source-receiver pair, whatever else is in the survey."""

import contextlib

import numpy as np
from hypothesis import strategies as st

from lib import family, gen
from lib.oracle import close, close_each, fail, nrm, require
from lib.pbt import Sub

PROPERTY = "C14"
RULE = (
    "Pair cases: a simulation of one of 22 families (meshes, surveys, maps and models of checks C01-C07), and a random selection and order "
    "of its sources and of the receivers of each source: every source-receiver pair has to predict the data it predicts in the original "
    "survey. Survey, data and fields cases: histories of assignments and look-ups on surveys of 1-5 sources sharing 1-5 receivers, compared "
    "with a dictionary model. Non-trivial: more than one pair, or a history that changes something it looks up later."
)
ASSUMPTIONS = ["direct solvers: answers agree to rounding, compared per pair"]


# ----------------------------------------------------------------------------------------------------------- pairs
@contextlib.contextmanager
def rearranged(r, sources=True):
    """the first survey that is built within gets a random selection and order of its sources and receivers"""
    from simpeg.survey import BaseSurvey

    old = BaseSurvey.__init__
    plan = []

    def init(self, source_list, *args, **kw):
        if source_list and not plan:
            source_list = list(source_list) if isinstance(source_list, (list, tuple)) else [source_list]
            n = len(source_list)
            order = r.permutation(n) if sources else np.arange(n)
            keep = order[: r.integers(1, n + 1)] if sources else order
            for i in keep:
                src = source_list[i]
                rx = src.receiver_list
                if not rx:
                    plan.append((i, None))
                    continue
                sel = r.permutation(len(rx))[: r.integers(1, len(rx) + 1)]
                src.receiver_list = [rx[j] for j in sel]
                plan.append((i, list(sel)))
            source_list = [source_list[i] for i in keep]
        old(self, source_list, *args, **kw)

    BaseSurvey.__init__ = init
    try:
        yield plan
    finally:
        BaseSurvey.__init__ = old


def blocks(survey):
    """(source number, receiver number) -> indices, in the documented order: source by source, receiver by receiver

    (time by time, and then in that order, for spectral induced polarization)
    """
    from simpeg.electromagnetics.static import spectral_induced_polarization as sip

    out, at = {}, 0
    if isinstance(survey, sip.Survey):
        for t in np.unique(np.concatenate([rx.times for s in survey.source_list for rx in s.receiver_list])):
            for i, src in enumerate(survey.source_list):
                for j, rx in enumerate(src.receiver_list):
                    if t in rx.times:
                        n = rx.nD
                        out[i, j] = np.r_[out.get((i, j), np.zeros(0, int)), at : at + n]
                        at += n
        return out, at
    for i, src in enumerate(survey.source_list):
        for j, rx in enumerate(src.receiver_list):
            out[i, j] = np.arange(at, at + rx.nD)
            at += rx.nD
    return out, at


def pairs(name, sub):
    def run(c):
        S = family.capture(sub, c["case"])
        if S is None:
            return ["trivial"]
        r = gen.rng(c)
        ref = S.make()
        d0 = np.asarray(ref.dpred(S.m.copy()))
        all_blocks, total = blocks(ref.survey)
        if not all_blocks:
            return ["trivial"]
        n_data = total // 3 if getattr(ref, "is_amplitude_data", False) else total
        require(d0.shape == (n_data,), f"{S.what}: {d0.shape} predicted data for a survey of {total}")
        require(ref.survey.nD == total, f"{S.what}: survey.nD {ref.survey.nD} for {total} data")
        # the heights of the sources may be part of the model
        sources = name not in ("em1d_f", "em1d_t") or ref.hMap is None
        with rearranged(r, sources) as plan:
            S1 = family.capture(sub, c["case"]) if name in BEFORE else S
            sim = S1.make()
        if not plan or not np.array_equal(S1.m, S.m):
            return ["trivial"]
        d1 = np.asarray(sim.dpred(S.m.copy()))
        got, n1 = blocks(sim.survey)
        amp = amplitude(name, ref)
        top = np.max(np.abs(d0)) if d0.size else 0.0
        kept = [(i, j, k, q) for k, (i, sel) in enumerate(plan) for q, j in enumerate(sel or [])]
        n_exp = sum(len(amp(all_blocks[i, j])) for i, j, _, _ in kept)
        require(d1.shape == (n_exp,), f"{S.what}: {d1.shape} predicted data, expected {n_exp}")
        require(sim.survey.nD == n1, f"{S.what}: survey.nD {sim.survey.nD} for {n1} data")
        for i, j, k, q in kept:
            close(
                d1[amp(got[k, q])],
                d0[amp(all_blocks[i, j])],
                f"{S.what}: data of receiver {j} of source {i} in the survey {plan}",
                rtol=RTOL.get(name, 1e-6),
                atol=ATOL.get(name, 1e-9) * top,
            )
        return ([] if len(all_blocks) > 1 else ["trivial"]) + [f"{len(plan)} sources"]

    return run


def amplitude(name, sim):
    if getattr(sim, "is_amplitude_data", False):
        return lambda s: np.arange(s[0] // 3, (s[-1] + 1) // 3)
    return lambda s: s


# ---------------------------------------------------------------------------------------------------------- survey
ops = st.lists(
    st.tuples(
        st.sampled_from(["sources", "receivers", "sources", "receivers", "get", "set", "indices", "times", "vec", "locations"]),
        st.integers(0, 2**31 - 1),
    ).map(list),
    min_size=2,
    max_size=8,
)
survey_cases = st.fixed_dictionaries(
    {"nrx": st.integers(1, 5), "nsrc": st.integers(1, 5), "time": st.booleans(), "ops": ops, "seed": gen.seeds}
)


def survey_history(c):
    from simpeg import data, survey

    r = gen.rng(c)
    if c["time"]:
        rxs = [
            survey.BaseTimeRx(r.standard_normal((r.integers(1, 4), 3)), np.sort(np.round(r.random(r.integers(1, 4)), 2)))
            for _ in range(c["nrx"])
        ]
    else:
        rxs = [survey.BaseRx(r.standard_normal((r.integers(1, 4), 3))) for _ in range(c["nrx"])]

    def choice(rr, items, at_least=1):
        return [items[i] for i in rr.permutation(len(items))[: rr.integers(at_least, len(items) + 1)]]

    srcs = [survey.BaseSrc(choice(r, rxs)) for _ in range(c["nsrc"])]
    cls = survey.BaseTimeSurvey if c["time"] else survey.BaseSurvey
    sv = cls(choice(r, srcs))
    D = None
    what = f"history {c['ops']}"

    def length(rx):
        return rx.locations.shape[0] * (len(rx.times) if c["time"] else 1)

    def layout():
        out, at = [], 0
        for s in sv.source_list:
            for x in s.receiver_list:
                out.append((s, x, slice(at, at + length(x))))
                at += length(x)
        return out, at

    def new_data():
        n = layout()[1]
        v = r.standard_normal(n)
        return data.Data(sv, v.copy()), v

    D, model = new_data()
    changed = False
    for op, seed in c["ops"]:
        rr = np.random.default_rng(seed)
        if op == "sources":
            sv.source_list = choice(rr, srcs)
            D, model = None, None
            changed = True
        elif op == "receivers":
            srcs[rr.integers(len(srcs))].receiver_list = choice(rr, rxs)
            D, model = None, None
            changed = True
        elif op == "locations":
            rxs[rr.integers(len(rxs))].locations = rr.standard_normal((rr.integers(1, 4), 3))
            D, model = None, None
            changed = True
        pairs_, n = layout()
        require(sv.nSrc == len(sv.source_list), f"{what}: nSrc {sv.nSrc}")
        require(sv.nD == n, f"{what}: after {op}, nD is {sv.nD} for receivers with {n} data")
        vnd = [sum(length(x) for x in s.receiver_list) for s in sv.source_list]
        require(list(sv.vnD) == vnd, f"{what}: after {op}, vnD is {list(sv.vnD)}, expected {vnd}")
        if D is None:
            D, model = new_data()
        if op == "get":
            s, x, sl = pairs_[rr.integers(len(pairs_))]
            close_each(D[s, x], model[sl], f"{what}: data[src, rx]", rtol=0)
            a, b = sv.get_slice(s, x), sl
            require((a.start, a.stop) == (b.start, b.stop), f"{what}: get_slice {a}, expected {b}")
            missing = [(q, y) for q in srcs for y in rxs if not any(q is s_ and y is x_ for s_, x_, _ in pairs_)]
            for q, y in missing[:1]:
                try:
                    sv.get_slice(q, y)
                except KeyError:
                    pass
                else:
                    fail(f"{what}: a pair that is not in the survey has a slice")
        elif op == "set":
            s, x, sl = pairs_[rr.integers(len(pairs_))]
            model[sl] = rr.standard_normal(sl.stop - sl.start)
            D[s, x] = model[sl].copy()
            close_each(D.dobs, model, f"{what}: dobs after data[src, rx] = value", rtol=0)
        elif op == "vec":
            model = rr.standard_normal(n)
            D.fromvec(model.copy())
            close_each(D.tovec(), model, f"{what}: tovec after fromvec", rtol=0)
        elif op == "indices":
            some = choice(rr, sv.source_list)
            got = sv.get_source_indices(some)
            want = [next(i for i, q in enumerate(sv.source_list) if q is s) for s in some]
            require(list(got) == want, f"{what}: get_source_indices {got}, expected {want}")
            s = some[0]
            if s.receiver_list:
                some = choice(rr, s.receiver_list)
                got = s.get_receiver_indices(some)
                want = [next(i for i, q in enumerate(s.receiver_list) if q is x) for x in some]
                require(list(got) == want, f"{what}: get_receiver_indices {got}, expected {want}")
        elif op == "times" and c["time"]:
            want = np.unique(np.concatenate([x.times for s in sv.source_list for x in s.receiver_list]))
            close_each(sv.unique_times, want, f"{what}: unique_times", rtol=0)
        allsl = sv.get_all_slices()
        require(len(allsl) == len(pairs_), f"{what}: get_all_slices has {len(allsl)} of {len(pairs_)} pairs")
        for s, x, sl in pairs_:
            g = allsl[s, x]
            require((g.start, g.stop) == (sl.start, sl.stop), f"{what}: get_all_slices {g}, expected {sl}")
    return [] if changed else ["trivial"]


# -------------------------------------------------------------------------------------------- survey look-up tables
tables_cases = st.fixed_dictionaries(
    {"kind": st.sampled_from(["fdem", "dc"]), "nsrc": st.integers(1, 6), "changes": st.integers(1, 3), "seed": gen.seeds}
)


def tables(c):
    """frequency look-up of FDEM surveys and electrode tables of DC surveys follow the list of sources"""
    r = gen.rng(c)
    if c["kind"] == "fdem":
        from simpeg.electromagnetics import frequency_domain as fdem

        freqs = [1.0, 10.0, 100.0]
        srcs = [
            fdem.sources.MagDipole(
                [fdem.receivers.PointMagneticFluxDensity(r.standard_normal((r.integers(1, 4), 3)), "z", "real")],
                float(r.choice(freqs)),
                r.standard_normal(3),
            )
            for _ in range(c["nsrc"])
        ]
        make = fdem.Survey
    else:
        from simpeg.electromagnetics.static import resistivity as dc

        srcs = []
        for _ in range(c["nsrc"]):
            rxs = []
            for _ in range(r.integers(1, 3)):
                n = r.integers(1, 4)
                if r.random() < 0.5:
                    rxs.append(dc.receivers.Pole(r.standard_normal((n, 3))))
                else:
                    rxs.append(dc.receivers.Dipole(r.standard_normal((n, 3)), r.standard_normal((n, 3))))
            if r.random() < 0.5:
                srcs.append(dc.sources.Pole(rxs, r.standard_normal(3)))
            else:
                srcs.append(dc.sources.Dipole(rxs, r.standard_normal(3), r.standard_normal(3)))
        make = dc.Survey
    sv = None
    for k in range(c["changes"] + 1):
        sel = [srcs[i] for i in r.permutation(len(srcs))[: r.integers(1, len(srcs) + 1)]]
        if sv is None:
            sv = make(sel)
        else:
            sv.source_list = sel
        what = f"{c['kind']} survey after {k} changes of its sources"
        if c["kind"] == "fdem":
            want = sorted({s.frequency for s in sel})
            require(list(sv.frequencies) == want, f"{what}: frequencies {sv.frequencies}, expected {want}")
            require(sv.num_frequencies == len(want), f"{what}: num_frequencies {sv.num_frequencies}")
            for f in want:
                got = sv.get_sources_by_frequency(f)
                exp = [s for s in sel if s.frequency == f]
                require(
                    len(got) == len(exp) and all(a is b for a, b in zip(got, exp)), f"{what}: wrong sources for frequency {f}"
                )
                require(sv.num_sources_by_frequency[f] == len(exp), f"{what}: num_sources_by_frequency")
        else:
            A, B, M, N = [], [], [], []
            for s in sel:
                for x in s.receiver_list:
                    loc = np.atleast_2d(s.location)
                    A.append(np.tile(loc[0], (x.nD, 1)))
                    B.append(np.tile(loc[-1], (x.nD, 1)))
                    ml = x.locations if isinstance(x.locations, np.ndarray) else x.locations[0]
                    nl = x.locations if isinstance(x.locations, np.ndarray) else x.locations[1]
                    M.append(ml)
                    N.append(nl)
            for got, exp, nm in zip(
                (sv.locations_a, sv.locations_b, sv.locations_m, sv.locations_n), (A, B, M, N), "ABMN"
            ):
                close_each(got, np.vstack(exp), f"{what}: {nm} electrodes", rtol=0)
    return [] if c["changes"] and c["nsrc"] > 1 else ["trivial"]


# ---------------------------------------------------------------------------------------------------- uncertainties
uncert_cases = st.fixed_dictionaries(
    {
        "n": st.integers(1, 6),
        "complex": st.booleans(),
        "ops": st.lists(
            st.tuples(
                st.sampled_from(["relative_error", "noise_floor", "standard_deviation", "dobs", "synthetic"]),
                st.sampled_from(["scalar", "array", "none", "int"]),
                st.integers(0, 2**31 - 1),
            ).map(list),
            min_size=1,
            max_size=6,
        ),
        "init": st.lists(st.sampled_from(["relative_error", "noise_floor", "standard_deviation"]), max_size=2, unique=True),
        "seed": gen.seeds,
    }
)


def uncertainties(c):
    from simpeg import data, survey

    r = gen.rng(c)
    n = c["n"]
    sv = survey.BaseSurvey([survey.BaseSrc([survey.BaseRx(r.standard_normal((n, 3)))])])

    def values(rr):
        d = rr.standard_normal(n)
        return d + 1j * rr.standard_normal(n) if c["complex"] else d

    def pick(rr, kind):
        if kind == "none":
            return None
        if kind == "scalar":
            return float(np.round(rr.random(), 3))
        if kind == "int":
            return int(rr.integers(0, 3))
        return np.round(rr.random(n), 3)

    dobs = values(r)
    init = {k: pick(r, ["scalar", "array"][int(r.integers(2))]) for k in c["init"]}
    D = data.Data(sv, dobs.copy(), **init)
    rel, floor = init.get("relative_error"), init.get("noise_floor")
    if "standard_deviation" in init:
        rel, floor = 0.0, init["standard_deviation"]
    elif rel is None and floor is None:
        rel, floor = 0.0, 0.0

    def check(what):
        if rel is None and floor is None:
            try:
                D.standard_deviation
            except TypeError:
                return
            fail(f"{what}: standard deviation without relative error and noise floor")
        want = np.zeros(n)
        if rel is not None:
            want = want + (np.asarray(rel) * np.abs(dobs)) ** 2
        if floor is not None:
            want = want + np.asarray(floor) ** 2
        close_each(D.standard_deviation, np.sqrt(want), f"{what}: standard deviation", rtol=1e-12)

    check(f"new data with {sorted(init)}")
    for k, (op, kind, seed) in enumerate(c["ops"]):
        rr = np.random.default_rng(seed)
        what = f"after {k + 1} of {[o[:2] for o in c['ops']]}"
        if op == "dobs":
            dobs = values(rr)
            D.dobs = dobs.copy()
        elif op == "synthetic":
            clean = values(rr)
            rel, floor = 0.05, 0.1
            D = data.SyntheticData(sv, dobs=dobs.copy(), dclean=clean.copy(), relative_error=rel, noise_floor=floor)
            close_each(D.dclean, clean, f"{what}: dclean", rtol=0)
        else:
            x = pick(rr, kind)
            if op == "standard_deviation":
                if x is None:
                    continue
                D.standard_deviation = x
                rel, floor = 0.0, x
            else:
                setattr(D, op, x)
                if op == "relative_error":
                    rel = x
                else:
                    floor = x
        check(what)
        close_each(D.dobs, dobs, f"{what}: dobs", rtol=0)
    return []


def sip_slices(c):
    """the slices of all pairs of a survey cover its data (fixed inputs: known finding)"""
    from simpeg.electromagnetics.static import spectral_induced_polarization as sip

    rx = sip.receivers.Pole(np.zeros((2, 3)), times=np.arange(1.0, 1.0 + c["times"]))
    sv = sip.Survey([sip.sources.Pole([rx], np.ones(3))])
    n = sum(s.stop - s.start for s in sv.get_all_slices().values())
    require(n == sv.nD, f"spectral IP survey of {sv.nD} data: the slices of its pairs cover {n}")
    return ["trivial"]


# --------------------------------------------------------------------------------------------------------- fields
fields_cases = st.fixed_dictionaries(
    {
        "time": st.booleans(),
        "nsrc": st.integers(1, 4),
        "nt": st.integers(1, 4),
        "nc": st.lists(st.integers(1, 3), min_size=2, max_size=3),
        "ops": st.lists(st.integers(0, 2**31 - 1), min_size=4, max_size=14),
        "seed": gen.seeds,
    }
)


def fields_history(c):
    """a fields object is a table (place, source, time) per known field; an alias is its function of that table"""
    import discretize
    from simpeg import fields as F, simulation, survey

    r = gen.rng(c)
    mesh = discretize.TensorMesh([np.ones(n) for n in c["nc"]])
    srcs = [survey.BaseSrc([survey.BaseRx(np.zeros((1, mesh.dim)))]) for _ in range(c["nsrc"])]
    sv = survey.BaseSurvey(srcs)
    known = {"phi": "CC", "psi": "N", "b": "F", "e": "E"}
    size = {"CC": mesh.n_cells, "N": mesh.n_nodes, "F": mesh.n_faces, "E": mesh.n_edges}
    n, nt = c["nsrc"], c["nt"] + 1
    scale = {id(s): 1.0 + i for i, s in enumerate(srcs)}

    if c["time"]:

        class Sim(simulation.BaseTimeSimulation):
            pass

        sim = Sim(survey=sv, time_steps=np.ones(c["nt"]))
        sim.mesh = mesh

        def double(x, src_list, t):
            f = np.array([scale[id(s)] for s in src_list])
            return x * f * (1 + np.asarray(t).reshape(-1)[0])

        f = F.TimeFields(sim, knownFields=known, aliasFields={"twice": ["b", "F", double]})
    else:

        class Sim(simulation.BaseSimulation):
            pass

        sim = Sim(survey=sv)
        sim.mesh = mesh

        def double(x, src_list):
            return x * np.array([scale[id(s)] for s in src_list])

        f = F.Fields(sim, knownFields=known, aliasFields={"twice": ["b", "F", double]})
    shape = (n, nt) if c["time"] else (n,)
    model = {k: np.zeros((size[v],) + shape) for k, v in known.items()}
    stored = set()
    log = []
    for seed in c["ops"]:
        rr = np.random.default_rng(seed)
        kind = rr.integers(4)
        if kind == 0:
            sel, key = list(range(n)), slice(None)
        elif kind == 1:
            i = int(rr.integers(n))
            sel, key = [i], srcs[i]
        else:
            sel = list(rr.permutation(n)[: rr.integers(1, n + 1)])
            key = [srcs[i] for i in sel]
        times, tkey = list(range(nt)), slice(None)
        if c["time"] and rr.random() < 0.6:
            t = int(rr.integers(nt))
            times, tkey = [t], t
        name = str(rr.choice(["b", "b", "e", "psi", "phi"]))
        if rr.random() < 0.6:
            shp = (model[name].shape[0], len(sel)) + ((len(times),) if c["time"] else ())
            x = rr.standard_normal(shp)
            log.append(f"set {name} {sel} {times}")
            if c["time"]:
                model[name][np.ix_(range(shp[0]), sel, times)] = x
                f[key, name, tkey] = x if rr.random() < 0.5 else x.reshape(-1, order="F")
            else:
                model[name][:, sel] = x
                f[key, name] = x if len(sel) > 1 or rr.random() < 0.5 else x[:, 0]
            stored.add(name)
        else:
            if rr.random() < 0.3:
                name = "twice"
            base = "b" if name == "twice" else name
            if base not in stored:
                require(name not in f, f"{log}: {name} is in the fields before it was set")
                continue
            require(name in f, f"{log}: {name} was set but is not in the fields")
            log.append(f"get {name} {sel} {times}")
            if c["time"]:
                want = model[base][np.ix_(range(model[base].shape[0]), sel, times)]
                if name == "twice":
                    want = want * np.array([1.0 + i for i in sel])[None, :, None] * (1.0 + np.array(times))[None, None, :]
                got = f[key, name, tkey]
                squeezed = tuple(s for s in want.shape if s > 1)
                if len(squeezed) == 1:
                    squeezed += (1,)
                want = want.reshape(squeezed, order="F")
            else:
                want = model[base][:, sel]
                if name == "twice":
                    want = want * np.array([1.0 + i for i in sel])
                got = f[key, name]
            require(np.size(got) == np.size(want), f"{log}: size {np.shape(got)} for {np.shape(want)}")
            if np.shape(got) != np.shape(want):
                got = np.reshape(got, np.shape(want), order="F")
            close_each(got, want, f"{'time ' if c['time'] else ''}fields: {log}", rtol=1e-14)
    return [] if any(x.startswith("get") for x in log) and any(x.startswith("set") for x in log) else ["trivial"]


BEFORE = {"dc3d", "dc2d", "dc1d", "ip", "sip", "sp"}  # these build their survey before the factory
RTOL = {"dc1d": 3e-2, "em1d_t": 1e-3}  # interpolate over the range of offsets / times of the survey
ATOL = {"em1d_t": 1e-6, "dc1d": 1e-3}
SKIP = {"linear", "rays", "richards"}  # decided in C07
WEIGHTS = {"mt_3d": 5, "tdem": 12, "fdem": 14, "em1d_t": 14, "richards": 16, "magnetics_fv": 24, "tdem_sym": 14}


def _pairs(name):
    sub = family.sub_of(*family.FAMILIES[name])
    n = WEIGHTS.get(name, 36)
    return Sub(
        f"pairs-{name}",
        st.fixed_dictionaries({"case": sub.strategy, "seed": gen.seeds}),
        pairs(name, sub),
        quick=n,
        thorough=20 * n,
        shards=2 if name.startswith(("gravity", "magnetics")) else 8,
        cost=sub.cost,
    )


SUBS = [
    Sub("survey", survey_cases, survey_history, quick=300, thorough=6000, shards=2, cost=1.0),
    Sub("tables", tables_cases, tables, quick=120, thorough=2000, shards=1, cost=1.0),
    Sub("uncertainties", uncert_cases, uncertainties, quick=300, thorough=6000, shards=2, cost=1.0),
    Sub("sip_slices", st.fixed_dictionaries({"times": st.just(1)}), sip_slices, quick=1, thorough=1),
    Sub("fields", fields_cases, fields_history, quick=300, thorough=6000, shards=2, cost=1.0),
] + [_pairs(k) for k in family.FAMILIES if k not in SKIP]
