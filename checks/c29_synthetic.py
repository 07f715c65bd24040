"""C29: synthetic data are the predicted data plus the noise asked for; random numbers come from the seed given and from nothing else."""

import contextlib
import io

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from lib import family, gen
from lib.oracle import close, nrm, require
from lib.pbt import Sub

PROPERTY = "C29"
RULE = (
    "A case is a generated simulation of one of 9 families (as in C01-C07) with a model, relative errors and noise floors (numbers or one per datum, possibly zero), a seed (a number or a generator) and "
    "whether to add noise or to pass fields; or a large linear simulation for the statistics of the noise; or a function that takes a seed (random models, derivative tests, topography). "
    "Non-trivial: there are data that are not zero, or noise."
)
ASSUMPTIONS = ["the noise is judged by its distribution (mean, spread, extremes of 300-3000 data), not by the generator used"]

NAMES = ["dc3d", "dc1d", "sp", "fdem", "mt_recursive", "em1d_f", "gravity", "magnetics", "linear", "rays"]


def levels(kind, n, r):
    return {"zero": 0.0, "one": 0.03, "array": r.uniform(0.01, 0.2, n), "some": np.where(r.random(n) < 0.5, 0.0, 0.1)}[kind]


def synth(name, sub):
    def run(c):
        S = family.capture(sub, c["case"])
        if S is None:
            return ["trivial"]
        sim, other = S.make(), S.make()
        m = S.m.copy()
        r = gen.rng(c)
        want = np.asarray(other.dpred(m.copy()))
        if want.dtype.kind != "f" or want.shape != (sim.survey.nD,) or not np.all(np.isfinite(want)):
            return ["trivial"]
        rel, floor = levels(c["rel"], want.size, r), levels(c["floor"], want.size, r) * (nrm(want) / np.sqrt(max(want.size, 1)) + 1e-30)
        kw = dict(relative_error=np.copy(rel) if np.ndim(rel) else rel, noise_floor=np.copy(floor) if np.ndim(floor) else floor)
        what = f"{S.what}: synthetic data (relative error {c['rel']}, floor {c['floor']}, noise {c['noise']}, seed {c['how']})"
        seed = int(r.integers(2**31))
        f = sim.fields(m.copy()) if c["fields"] and S.fields_arg else None

        def go(s, **more):
            return sim.make_synthetic_data(m, add_noise=c["noise"], random_seed=np.random.default_rng(s) if c["how"] == "generator" else s, **kw, **more)

        state = np.random.get_state()[1].copy()
        D = go(seed, f=f)
        require(np.array_equal(np.random.get_state()[1], state), f"{what}: used the global random numbers")
        require(np.array_equal(m, S.m), f"{what}: changed the model")
        require(D.survey is sim.survey, f"{what}: belongs to another survey")
        tol = 1e-6 if name in ("dc1d",) else 1e-9
        close(D.dclean, want, what + ": clean data", tol)
        sd = np.sqrt((rel * np.abs(want)) ** 2 + floor**2)
        close(D.relative_error, np.broadcast_to(rel, want.shape), what + ": relative errors", 1e-12, atol=1e-300)
        close(D.noise_floor, np.broadcast_to(floor, want.shape), what + ": noise floors", 1e-12, atol=1e-300)
        noise = D.dobs - D.dclean
        if not c["noise"]:
            require(np.array_equal(D.dobs, D.dclean), f"{what}: not asked for noise, but got {noise}")
        else:
            require(np.all(np.abs(noise) <= 8 * sd * (1 + 1e-6) + 1e-9 * np.abs(want)), f"{what}: noise {noise} for deviations {sd}")
            if np.any(sd > 1e-12 * np.abs(want)):
                require(np.any(noise != 0), f"{what}: asked for noise, but got none")
            np.random.seed(seed % 1000)
            again = go(seed)
            close(again.dobs, D.dobs, what + ": the same seed again", tol)
            if np.any(sd > 1e-6 * np.abs(want)):
                require(not np.array_equal(go(seed + 1).dobs, D.dobs), f"{what}: another seed gives the same noise")
        d = want + r.standard_normal(want.size) * (1 + np.abs(want))
        close(sim.residual(m.copy(), d.copy()), want - d, f"{S.what}: residual", tol, atol=1e-12 * nrm(d))
        return [name, "noise" if c["noise"] else "clean"] if np.any(want) else ["trivial"]

    return run


def _sub(name):
    sub = family.sub_of(*family.FAMILIES[name])
    lev = st.sampled_from(["zero", "one", "array", "some"])
    strategy = st.fixed_dictionaries({"case": sub.strategy, "rel": lev, "floor": lev, "noise": st.booleans(), "fields": st.booleans(), "how": st.sampled_from(["number", "generator"]), "seed": gen.seeds})
    return Sub(name, strategy, synth(name, sub), quick=40, thorough=800, shards=1, cost=1.0)


# ------------------------------------------------------------------------------------------------------- statistics
stat_case = st.fixed_dictionaries({"n": st.integers(300, 3000), "rel": st.sampled_from(["zero", "one", "array", "some"]), "floor": st.sampled_from(["zero", "one", "array"]), "scale": st.sampled_from([1e-12, 1.0, 1e5]), "seed": gen.seeds})


def stats(c):
    from simpeg import maps, simulation

    r = gen.rng(c)
    n = c["n"]
    G = r.standard_normal((n, 3)) * c["scale"]
    sim = simulation.LinearSimulation(G=G, model_map=maps.IdentityMap(nP=3))
    m = r.standard_normal(3)
    clean = G @ m
    rel, floor = levels(c["rel"], n, r), levels(c["floor"], n, r) * c["scale"]
    D = sim.make_synthetic_data(m, relative_error=rel, noise_floor=floor, add_noise=True, random_seed=int(r.integers(2**31)))
    sd = np.broadcast_to(np.sqrt((rel * np.abs(clean)) ** 2 + floor**2), clean.shape)
    on = sd > 1e-9 * np.abs(clean)
    what = f"noise of {n} data, relative error {c['rel']}, floor {c['floor']}, scale {c['scale']}"
    require(np.all(np.abs(D.dobs - clean)[~on] <= 1e-6 * np.abs(clean[~on])), f"{what}: noise on data without uncertainty")
    if on.sum() < 100:
        return ["trivial"]
    z = (D.dobs - clean)[on] / sd[on]
    k = z.size
    require(abs(z.mean()) < 6 / np.sqrt(k), f"{what}: mean {z.mean():.3f} deviations")
    require(abs(z.std() - 1) < 6 / np.sqrt(2 * k), f"{what}: spread {z.std():.3f} deviations")
    half = z[: k // 2 * 2].reshape(2, -1)
    require(abs(np.mean(half[0] * half[1])) < 6 / np.sqrt(k / 2), f"{what}: the noise of different data is correlated")
    return ["stats"]


# ------------------------------------------------------------------------------------------------- seeds elsewhere
seed_case = st.fixed_dictionaries({"kind": st.sampled_from(["model", "model", "map", "objective", "topo", "eig"]), "shape": st.lists(st.integers(2, 9), min_size=1, max_size=3), "bounds": st.sampled_from([None, [-2.0, 3.0], [5.0, 5.5]]), "its": st.integers(0, 12), "aniso": st.booleans(), "gen": st.booleans(), "seed": gen.seeds})


def seeded(c):
    import discretize

    from simpeg import maps, objective_function, utils
    from simpeg.electromagnetics.static.utils import static_utils

    r = gen.rng(c)
    seed = int(r.integers(2**31))
    s = lambda k=0: np.random.default_rng(seed + k) if c["gen"] and c["kind"] != "topo" else seed + k  # noqa: E731
    shape = tuple(c["shape"])
    kw = {}
    if c["bounds"]:
        kw["bounds"] = list(c["bounds"])
    if c["aniso"] and c["kind"] == "model":
        kw["anisotropy"] = r.uniform(0.5, 2, (3,) * len(shape))
    lo, hi = c["bounds"] or [0.0, 1.0]

    def check_range(x, what):
        close([x.min(), x.max()], [lo, hi], what + ": range", 1e-12, atol=1e-12)

    if c["kind"] == "model":
        f = lambda k=0: utils.model_builder.create_random_model(shape if len(shape) > 1 or seed % 2 else shape[0], random_seed=s(k), its=c["its"], **kw)  # noqa: E731
        x = f()
        require(x.shape == shape, f"random model of shape {x.shape}, asked for {shape}")
        check_range(x, "random model")
    elif c["kind"] == "topo":
        shape = (shape + (3, 3))[: max(2, len(shape))]
        mesh = discretize.TensorMesh([np.ones(k) for k in shape])
        f = lambda k=0: np.asarray(static_utils.genTopography(mesh, lo, hi, seed=s(k), its=c["its"])[0])  # noqa: E731
        x = f()
        require(x.shape == shape[:-1], f"topography of shape {x.shape} for a mesh of {shape}")
        check_range(x, "topography")
    elif c["kind"] == "eig":
        A = sp.csr_matrix(r.standard_normal((6, 5)))
        obj = objective_function.L2ObjectiveFunction(W=A)
        f = lambda k=0: np.atleast_1d(utils.eigenvalue_by_power_iteration(obj, np.zeros(5), n_pw_iter=2, random_seed=s(k)))  # noqa: E731
        x = f()
    else:
        seen = []

        class Map(maps.ExpMap):
            def _transform(self, m):
                seen.append(np.array(m))
                return super()._transform(m)

        class Obj(objective_function.L2ObjectiveFunction):
            def __call__(self, m, **k):
                seen.append(np.array(m))
                return super().__call__(m, **k)

        def f(k=0):
            seen.clear()
            with contextlib.redirect_stdout(io.StringIO()):
                ok = Map(nP=5).test(random_seed=s(k)) if c["kind"] == "map" else Obj(W=sp.diags(np.arange(1.0, 6)).tocsr()).test(random_seed=s(k))
            require(bool(ok), f"derivative test of a correct {c['kind']} failed with seed {seed + k}")
            return np.array(seen)

        x = f()
    state = np.random.get_state()[1].copy()
    np.random.seed(seed % 77)
    y = f()
    np.random.set_state(("MT19937", state, 624))
    require(x.shape == y.shape and np.array_equal(x, y), f"{c['kind']}: the same seed gives another result")
    z = f(1)
    require(z.shape != x.shape or not np.array_equal(x, z) or x.size < 3, f"{c['kind']}: another seed gives the same result")
    return [c["kind"]] if x.size > 2 else ["trivial"]


SUBS = [
    Sub("stats", stat_case, stats, quick=150, thorough=4000, shards=1, cost=1.0),
    Sub("seeds", seed_case, seeded, quick=250, thorough=4000, shards=1, cost=1.0),
] + [_sub(n) for n in NAMES]
