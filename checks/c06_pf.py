"""C06: gravity and magnetic sensitivities are the exact derivative and adjoint."""

import itertools

import numpy as np
from hypothesis import strategies as st
from scipy.constants import mu_0
from simpeg import maps
from simpeg.potential_fields import gravity, magnetics

from lib import gen, pf, sens
from lib.pbt import Sub

PROPERTY = "C06"
RULE = (
    "A case is a gravity or magnetic simulation: prism integral on a tensor or tree mesh, an equivalent-source layer, or the "
    "finite-volume magnetic problem; engine, storage (memory, disk, matrix-free), precision, active cells; 1-3 receivers with "
    "1-3 components at 1-4 places above, below or beside the mesh; scalar or vector magnetization, amplitude data; identity, "
    "exponential, grouping, wired, summed and general linear maps. Jvec is compared with differences of the predicted data per "
    "receiver and component, Jtvec by the dot-product identity, getJ and getJtJdiag with both for three weightings. "
    "Non-trivial: non-zero sensitivity with a conclusive difference."
)
ASSUMPTIONS = [
    "receivers outside the cells; at most 300 cells and 36 data",
    "matrix-free storage only where the code offers it (choclo engine)",
]

_n = itertools.count()


def common(mag, layer=False):
    d = {
        "mesh": pf.mesh2() if layer else pf.mesh3(),
        "active": st.sampled_from(["all", "some", "flat"] if layer else ["all", "some"]),
        "rx": pf.receivers(pf.MAG if mag else pf.GRAV),
        "engine": st.sampled_from(["choclo", "choclo", "geoana"]),
        "store": st.sampled_from(["ram", "disk", "forward_only"]),
        "dtype": st.sampled_from(["f64", "f64", "f32"]),
        "map": st.sampled_from(pf.MAPS),
        "order": st.integers(0, 3),
        "seed": gen.seeds,
    }
    if mag:
        d["field"] = pf.field
        d["type"] = st.sampled_from(["scalar", "vector"])
        d["ampl"] = st.sampled_from([False, False, True])
    return st.fixed_dictionaries(d)


def integral(c, mag, layer=False):
    r = gen.rng(c)
    mesh, act, kw, bounds, box, nodes, gap = pf.geometry(c, r)
    locs = pf.locations(c, box, nodes, gap, r)
    nA = int(act.sum())
    c = dict(c)
    if c["engine"] == "geoana" and c["store"] == "forward_only":
        c["store"] = "ram"
    f32 = c["dtype"] == "f32" and c["store"] != "forward_only"
    ampl = bool(mag and c["ampl"])
    n = nA * 3 if mag and c["type"] == "vector" else nA
    mp, m = pf.make_map(c["map"], n, r)
    blocks, nD = pf.blocks(c)
    if ampl:
        ns = np.cumsum([0] + [rx["n"] for rx in c["rx"]])
        blocks = [np.arange(a, b) for a, b in zip(ns[:-1], ns[1:])]
    mod = magnetics if mag else gravity
    cls = mod.SimulationEquivalentSourceLayer if layer else mod.Simulation3DIntegral

    def make():
        k = dict(kw)
        k.update(pf.store_kw(c, tag=f"{next(_n)}"))
        sv = pf.survey(c, locs, "mag" if mag else "grav", ampl)
        if mag:
            k.update(chiMap=mp, model_type=c["type"], is_amplitude_data=ampl)
        else:
            k.update(rhoMap=mp)
        return cls(mesh, active_cells=act, survey=sv, **k)

    v = r.standard_normal(m.size)
    J = None
    if not ampl:

        def J(s, mm):
            Jm = s.getJ(mm)
            if not isinstance(Jm, np.ndarray):
                Jm = Jm @ np.eye(mm.size)
            return Jm

    what = f"{'magnetic' if mag else 'gravity'} {'layer' if layer else 'integral'} {c['engine']}/{c['store']}/{c['dtype']} map={c['map']}"
    tol = 2e-4 if f32 else 1e-6
    lab = sens.judge(
        make,
        m,
        v,
        r,
        what,
        h=0.3 if f32 else 3e-2,
        rtol=tol,
        adj_rtol=3e-5 if f32 else 1e-9,
        rep_rtol=2e-6 if f32 else 1e-9,
        blocks=blocks,
        order=c["order"],
        J=None,
        floor=(1e-5 if f32 else 1e-11) * max(1e-300, float(np.linalg.norm(make().dpred(m)))),
    )
    # explicit matrices, weighted Gram diagonals
    s4 = make()
    Jv = np.asarray(s4.Jvec(m, v))
    nd = Jv.size
    gtol = 1e-3 if f32 else 1e-8
    if J is not None:
        Jm = np.asarray(J(s4, m))
        sens.require(Jm.shape == (nd, m.size), f"{what}: J has shape {Jm.shape}")
    elif c["store"] == "forward_only":
        Jm = None
    else:
        Jm = np.stack([np.asarray(s4.Jvec(m, e)) for e in np.eye(m.size)], axis=1)
    if Jm is not None:
        for b in blocks:
            sens.close(Jm[b] @ v, Jv[b], what + ": J @ v != Jvec(v)", gtol, atol=gtol * sens.nrm(Jm[b]) * sens.nrm(v) * 1e-2)
        for W in (None, 0.5 + r.random(nd), 10 ** r.uniform(-2, 2, nd)):
            wd = np.ones(nd) if W is None else W
            got = np.asarray(s4.getJtJdiag(m, W=None if W is None else sens.sp.diags(W)))
            sens.close(
                got,
                ((wd[:, None] * Jm.astype(float)) ** 2).sum(axis=0),
                what + ": getJtJdiag is not the diagonal of J^T W^T W J",
                gtol,
            )
    return lab + [c["engine"], c["store"], c["map"]]


# ------------------------------------------------------- finite-volume magnetics

diff_case = st.fixed_dictionaries(
    {
        "mesh": st.one_of(gen.tensor_mesh(dim=3, nmin=3, nmax=5), gen.tree_mesh(dim=3, logn=(2, 2))),
        "rx": st.lists(
            st.fixed_dictionaries(
                {
                    "n": st.integers(1, 4),
                    "comps": st.lists(st.sampled_from(["bx", "by", "bz", "tmi"]), min_size=1, max_size=4, unique=True),
                }
            ),
            min_size=1,
            max_size=3,
        ),
        "field": pf.field,
        "par": st.sampled_from(["mu", "rem", "mu+rem", "shared", "mu|rem", "rem|mu"]),
        "storeJ": st.booleans(),
        "order": st.integers(0, 3),
        "seed": gen.seeds,
    }
)


def diff_setup(c, r):
    mesh = gen.build_mesh(c["mesh"])
    n = mesh.n_cells
    amp, inc, dec = c["field"]
    locs = [gen.inside_points(mesh, r, rx["n"], 0.15) for rx in c["rx"]]
    chi = np.where(r.random(n) < 0.5, 0.05, 2.0) * r.random(n)
    rem = amp * r.standard_normal(3 * n)
    p = c["par"]
    kw = {}
    if p == "shared":
        kw["muMap"] = maps.ChiMap(mesh) * maps.ExpMap(nP=n) * maps.Wires(("a", n)).a
        kw["remMap"] = maps.LinearMap(sens.sp.random(3 * n, n, density=0.1, random_state=int(r.integers(2**31))) * amp)
        m = np.log(0.2 + chi)
    elif p == "mu+rem":
        w = maps.Wires(("mu", n), ("rem", 3 * n))
        kw["muMap"] = maps.ChiMap(mesh) * w.mu
        kw["remMap"] = maps.EffectiveSusceptibilityMap(nP=3 * n, ambient_field_magnitude=amp) * w.rem
        m = np.r_[chi, rem / amp]
    else:
        if p.startswith("mu"):
            kw["muMap"] = maps.ChiMap(mesh)
            m = chi
            if "|" in p:
                kw["rem"] = rem
        else:
            kw["remMap"] = maps.EffectiveSusceptibilityMap(nP=3 * n, ambient_field_magnitude=amp)
            m = rem / amp
            if "|" in p:
                kw["mu"] = mu_0 * (1 + chi)

    def make(storeJ=bool(c["storeJ"])):
        rxs = [magnetics.Point(x, components=list(rx["comps"])) for x, rx in zip(locs, c["rx"])]
        sv = magnetics.Survey(magnetics.UniformBackgroundField(rxs, amplitude=amp, inclination=inc, declination=dec))
        return magnetics.Simulation3DDifferential(mesh=mesh, survey=sv, storeJ=storeJ, **kw)

    return mesh, m, make


def differential(c):
    r = gen.rng(c)
    mesh, m, make = diff_setup(c, r)
    blocks, i = [], 0
    for rx in c["rx"]:
        for _ in rx["comps"]:
            blocks.append(np.arange(i, i + rx["n"]))
            i += rx["n"]
    v = r.standard_normal(m.size)
    return sens.judge(
        make,
        m,
        v,
        r,
        f"finite-volume magnetics {c['par']} storeJ={c['storeJ']}",
        h=1e-2,
        rtol=1e-5,
        blocks=blocks,
        order=c["order"],
        J=lambda s, mm: s.getJ(mm),
    ) + [c["par"], "storeJ" if c["storeJ"] else "J-free"]


SUBS = [
    Sub("gravity", common(False), lambda c: integral(c, False), quick=160, thorough=4000, shards=2),
    Sub("gravity-layer", common(False, True), lambda c: integral(c, False, True), quick=80, thorough=2000, shards=1),
    Sub("magnetics", common(True), lambda c: integral(c, True), quick=200, thorough=5000, shards=3),
    Sub("magnetics-layer", common(True, True), lambda c: integral(c, True, True), quick=90, thorough=2500, shards=1),
    Sub("differential", diff_case, differential, quick=240, thorough=3000, shards=1),
]
