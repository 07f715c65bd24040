"""C04: natural-source EM sensitivities (1D, 2D, 3D)."""

import numpy as np
from hypothesis import strategies as st
from scipy.constants import mu_0
from simpeg import maps
from simpeg.electromagnetics import natural_source as nsem

from lib import gen, sens
from lib.oracle import close
from lib.pbt import Sub

PROPERTY = "C04"
RULE = (
    "A case is a natural-source simulation (recursive 1D layers; 1D electric, magnetic and primary-secondary; 2D electric "
    "and magnetic on tensor and tree meshes with computed or given boundary fields; 3D primary-secondary on tensor and "
    "tree meshes), 1-2 frequencies (sources), 1-4 receivers each (impedance, tipper, admittance, apparent conductivity; "
    "every orientation and component; separate electric and magnetic locations) and a model of sigma, rho, mu / mui or "
    "layer thicknesses. Jvec is compared with Richardson differences per receiver, Jtvec by the dot-product identity, "
    "getJtJdiag with explicit columns. Non-trivial: non-zero sensitivity product with a conclusive difference."
)
ASSUMPTIONS = [
    "conductivities 1e-3..1 S/m, 0.1..100 Hz, fewer than 120 cells in 3D / 150 in 2D",
    "receivers supported by the simulation as documented (real valued components)",
]
COMPS = ["real", "imag", "apparent_resistivity", "phase"]


def flipc(comp, flip):
    if not flip:
        return comp
    return {"real": "imag", "imag": "real", "apparent_resistivity": "real", "phase": "imag"}[comp]


# ------------------------------------------------------------------ recursive 1D
@st.composite
def case_rec(draw):
    return {
        "n": draw(st.integers(1, 6)),
        "par": draw(st.sampled_from(["sigma", "rho", "sigma+h", "rho+h", "h", "shared"])),
        "rx": draw(st.lists(st.lists(st.sampled_from(COMPS), min_size=1, max_size=4), min_size=1, max_size=4)),
        "freqs": draw(st.permutations([0.1, 1.0, 30.0, 200.0])),
        "order": draw(st.integers(0, 3)),
        "seed": draw(gen.seeds),
    }


def run_rec(c):
    r = gen.rng(c)
    n = max(c["n"], 2) if "h" in c["par"] else c["n"]
    sig = 10 ** r.uniform(-3, 0, n)
    h = r.uniform(10, 300, n - 1)
    kw = {}
    p = c["par"]
    if p == "h":
        kw = dict(sigma=sig, thicknessesMap=maps.ExpMap(nP=n - 1))
        m = np.log(h)
    elif p == "shared":
        # one model that feeds both properties
        kw = dict(sigmaMap=maps.ExpMap(nP=n) * maps.LinearMap(r.standard_normal((n, 3))))
        m = 0.3 * r.standard_normal(3)
        if n > 1:
            kw["thicknessesMap"] = maps.ExpMap(nP=n - 1) * maps.LinearMap(r.standard_normal((n - 1, 3)), np.full(n - 1, 4.0))
        else:
            kw["thicknesses"] = h
    elif p.endswith("+h"):
        w = maps.Wires(("a", n), ("h", n - 1))
        kw = {p[:-2] + "Map": maps.ExpMap(nP=n) * w.a, "thicknessesMap": maps.ExpMap(nP=n - 1) * w.h}
        m = np.r_[np.log(sig if p[0] == "s" else 1 / sig), np.log(h)]
    else:
        kw = {p + "Map": maps.ExpMap(nP=n), "thicknesses": h}
        m = np.log(sig if p == "sigma" else 1 / sig)

    def make(flip=False):
        srcs = []
        for k, comps in enumerate(c["rx"]):
            rxs = [nsem.receivers.Impedance(np.zeros((1, 1)), orientation="xy", component=flipc(q, flip)) for q in comps]
            srcs.append(nsem.sources.Planewave(rxs, frequency=c["freqs"][k]))
        return nsem.Simulation1DRecursive(survey=nsem.Survey(srcs), **kw)

    v = r.standard_normal(m.size)

    def J(s, mm):
        return np.column_stack([s.Jvec(mm, e) for e in np.eye(mm.size)])

    lab = sens.judge(
        make, m, v, r, f"NSEM 1D recursive {p}", h=2e-2, rtol=1e-6, order=c["order"], J=J, JtJ=True, fields_arg=True
    )
    return lab + [p]


# ------------------------------------------------------------------ 1D
@st.composite
def case_1d(draw):
    k = draw(st.sampled_from(["E", "M", "PS"]))
    props = {"E": ["sigma", "rho", "mui", "mu", "sigma+mui"], "M": ["rho", "sigma", "mu", "mui", "rho+mu"], "PS": ["sigma", "rho"]}[k]
    return {
        "kind": k,
        "h": draw(gen.widths(5, 14, base=(200.0,))),
        "prop": draw(st.sampled_from(props)),
        "const": draw(st.sampled_from(["default", "array"])),
        "freqs": draw(st.sampled_from([[1.0], [10.0, 0.1], [3.0, 100.0]])),
        "rx": draw(
            st.lists(
                st.tuples(st.sampled_from(COMPS), st.sampled_from(["xy", "yx"]), st.integers(1, 2)), min_size=1, max_size=4
            )
        ),
        "order": draw(st.integers(0, 3)),
        "seed": draw(gen.seeds),
    }


def prop_kw(c, n, r):
    """-> simulation kwargs, model"""
    p = c["prop"]
    logsig = np.log(10 ** r.uniform(-3, -1, n))
    lmu = np.log(mu_0 * (1 + r.random(n)))
    one = {"sigma": logsig, "rho": -logsig, "mu": lmu, "mui": -lmu}
    if "+" in p:
        a, b = p.split("+")
        w = maps.Wires(("a", n), ("b", n))
        return {a + "Map": maps.ExpMap(nP=n) * w.a, b + "Map": maps.ExpMap(nP=n) * w.b}, np.r_[one[a], one[b]]
    kw = {p + "Map": maps.ExpMap(nP=n)}
    if p in ("mu", "mui"):
        kw["sigma" if r.random() < 0.5 else "rho"] = 1.0
        k = [q for q in kw if q in ("sigma", "rho")][0]
        kw[k] = np.exp(one[k])
    elif c["const"] == "array":
        kw["mu"] = np.exp(lmu)
    return kw, one[p]


def run_1d(c):
    from discretize import TensorMesh

    r = gen.rng(c)
    mesh = TensorMesh([np.array(c["h"])], "N")
    n = mesh.n_cells
    kw, m = prop_kw(c, n, r)
    locs = [mesh.origin[0] + (mesh.nodes_x[-1] - mesh.origin[0]) * r.uniform(0.3, 0.95, (k, 1)) for _, _, k in c["rx"]]

    def make(flip=False):
        srcs = []
        for f in c["freqs"]:
            rxs = [
                nsem.receivers.Impedance(L, orientation=o, component=flipc(q, flip)) for L, (q, o, _) in zip(locs, c["rx"])
            ]
            S = nsem.sources.PlanewaveXYPrimary if c["kind"] == "PS" else nsem.sources.Planewave
            srcs.append(S(rxs, f))
        survey = nsem.Survey(srcs)
        if c["kind"] == "PS":
            return nsem.simulation.Simulation1DPrimarySecondary(mesh, survey=survey, sigmaPrimary=np.full(n, 0.02), **kw)
        cls = nsem.simulation.Simulation1DElectricField if c["kind"] == "E" else nsem.simulation.Simulation1DMagneticField
        return cls(mesh, survey=survey, **kw)

    v = r.standard_normal(m.size)
    lab = sens.judge(
        make,
        m,
        v,
        r,
        f"NSEM 1D {c['kind']} {c['prop']} {c['rx']}",
        h=5e-2,
        rtol=1e-5,
        adj_rtol=1e-6,
        order=c["order"],
        rep_rtol=1e-6,
        flip=lambda: make(True),
    )
    return lab + [c["kind"], c["prop"]] + [q[0] for q in c["rx"]]


# ------------------------------------------------------------------ 2D
@st.composite
def case_2d(draw):
    k = draw(st.sampled_from(["E", "M"]))
    props = {"E": ["sigma", "rho", "mui", "mu", "sigma+mui"], "M": ["rho", "sigma", "mu", "mui", "rho+mu"]}[k]
    kinds = [["imp", "xy"], ["adm", "yx"]] if k == "E" else [["imp", "yx"], ["adm", "xy"], ["tip", "zx"]]
    return {
        "kind": k,
        "mesh": draw(st.one_of(gen.tensor_mesh(2, 4, 8, base=(50.0,)), gen.tree_mesh(2, (3, 3), base=(50.0,), level=2))),
        "prop": draw(st.sampled_from(props)),
        "const": draw(st.sampled_from(["default", "array"])),
        "bc": draw(st.sampled_from(["auto", "auto", "given"])),
        "freqs": draw(st.sampled_from([[1.0], [10.0, 0.1], [3.0, 100.0]])),
        "rx": draw(
            st.lists(
                st.tuples(st.sampled_from(kinds), st.sampled_from(COMPS), st.integers(1, 3), st.booleans()),
                min_size=1,
                max_size=4,
            )
        ),
        "order": draw(st.integers(0, 3)),
        "seed": draw(gen.seeds),
    }


def run_2d(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    n = mesh.n_cells
    kw, m = prop_kw(c, n, r)
    s0 = int(r.integers(1 << 31))
    bc = None
    if c["bc"] == "given":
        nb = mesh.boundary_edges.shape[0]
        bc = {f: r.standard_normal(nb) + 1j * r.standard_normal(nb) for f in c["freqs"]}

    def make(flip=False):
        q = np.random.default_rng(s0)
        srcs = []
        for f in c["freqs"]:
            rxs = []
            for (kind, o), comp, k, sep in c["rx"]:
                a = gen.inside_points(mesh, q, k, 0.2)
                b = gen.inside_points(mesh, q, k, 0.2) if sep else None
                if kind == "imp":
                    rxs.append(nsem.receivers.Impedance(a, b, orientation=o, component=flipc(comp, flip)))
                else:
                    cc = comp if comp in ("real", "imag") else "real"
                    cls = nsem.receivers.Admittance if kind == "adm" else nsem.receivers.Tipper
                    rxs.append(cls(a, b, orientation=o, component=flipc(cc, flip)))
            srcs.append(nsem.sources.Planewave(rxs, f))
        survey = nsem.Survey(srcs)
        if c["kind"] == "E":
            return nsem.simulation.Simulation2DElectricField(mesh, survey=survey, h_bc=bc, **kw)
        return nsem.simulation.Simulation2DMagneticField(mesh, survey=survey, e_bc=bc, **kw)

    v = r.standard_normal(m.size)
    lab = sens.judge(
        make,
        m,
        v,
        r,
        f"NSEM 2D {c['kind']} {c['prop']} {c['rx']}",
        h=5e-2,
        rtol=1e-5,
        adj_rtol=1e-7,
        order=c["order"],
        rep_rtol=1e-7,
        flip=lambda: make(True),
    )
    return lab + [c["kind"], c["prop"]] + [q[0][0] + q[1] for q in c["rx"]]


# ------------------------------------------------------------------ 3D
@st.composite
def case_3d(draw):
    rx = st.one_of(
        st.tuples(st.just("imp"), st.sampled_from(["xx", "xy", "yx", "yy"]), st.sampled_from(COMPS)),
        st.tuples(st.just("tip"), st.sampled_from(["zx", "zy", "xx", "xy", "yx", "yy"]), st.sampled_from(COMPS[:2])),
        st.tuples(st.just("adm"), st.sampled_from(["xx", "xy", "yx", "yy", "zx", "zy"]), st.sampled_from(COMPS[:2])),
        st.tuples(st.just("cond"), st.just("xy"), st.just("real")),
    )
    return {
        "mesh": draw(st.one_of(gen.tensor_mesh(3, 3, 4, base=(50.0,)), gen.tree_mesh(3, (2, 2), base=(50.0,), level=1))),
        "prop": draw(st.sampled_from(["sigma", "rho"])),
        "const": draw(st.sampled_from(["default", "array"])),
        "map": draw(st.sampled_from(["exp", "active"])),
        "freqs": draw(st.sampled_from([[1.0], [10.0, 1.0], [3.0, 100.0]])),
        "rx": draw(st.lists(st.tuples(rx, st.integers(1, 3), st.booleans()), min_size=1, max_size=4)),
        "order": draw(st.integers(0, 3)),
        "seed": draw(gen.seeds),
    }


def run_3d(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    n = mesh.n_cells
    s = 1 if c["prop"] == "sigma" else -1
    logsig = np.log(10 ** r.uniform(-3, -1, n))
    if c["map"] == "exp":
        kw, m = {c["prop"] + "Map": maps.ExpMap(nP=n)}, s * logsig
    else:
        a = r.random(n) < 0.7
        a[:2] = True
        kw = {
            c["prop"]
            + "Map": maps.InjectActiveCells(mesh, a, value_inactive=1e-3 if s == 1 else 1e3) * maps.ExpMap(nP=int(a.sum()))
        }
        m = s * logsig[a]
    if c["const"] == "array":
        kw["mu"] = mu_0 * (1 + r.random(n))
    s0 = int(r.integers(1 << 31))
    sp = 10 ** r.uniform(-3, -1)
    # the primary: uniform or layered, per cell or per layer, given to the sources or the simulation
    where, form = s0 % 2, s0 // 2 % 3
    if form == 0 or mesh._meshType == "TREE":
        prim = np.full(n, sp)
    else:
        layers = sp * 10 ** np.random.default_rng(s0).uniform(-0.5, 0.5, mesh.shape_cells[2])
        prim = layers if form == 1 else np.repeat(layers, mesh.shape_cells[0] * mesh.shape_cells[1])

    def make(flip=False):
        q = np.random.default_rng(s0)
        srcs = []
        for f in c["freqs"]:
            rxs = []
            for (kind, o, comp), k, sep in c["rx"]:
                A = gen.inside_points(mesh, q, k, 0.15)
                # a horizontal tipper whose base station is at the same location is constant
                B = gen.inside_points(mesh, q, k, 0.15) if sep or (kind == "tip" and o[0] != "z") else None
                if kind == "cond":
                    rxs.append(nsem.receivers.ApparentConductivity(A, B))
                else:
                    cls = {"imp": nsem.receivers.Impedance, "tip": nsem.receivers.Tipper, "adm": nsem.receivers.Admittance}
                    rxs.append(cls[kind](A, B, orientation=o, component=flipc(comp, flip)))
            srcs.append(nsem.sources.PlanewaveXYPrimary(rxs, f, sigma_primary=prim.copy() if where else None))
        return nsem.Simulation3DPrimarySecondary(mesh, survey=nsem.Survey(srcs), sigmaPrimary=None if where else prim.copy(), **kw)

    v = r.standard_normal(m.size)
    lab = sens.judge(
        make,
        m,
        v,
        r,
        f"NSEM 3D {c['prop']} {c['rx']}",
        h=2e-2,
        rtol=1e-5,
        adj_rtol=1e-6,
        order=c["order"],
        rep_rtol=1e-6,
        flip=lambda: make(True),
        J=lambda s_, mm: s_.getJ(mm),
        JtJ=True,
    )
    return lab + [c["prop"]] + [q[0][0] + q[0][1] for q in c["rx"]]


SUBS = [
    Sub("recursive_1d", case_rec(), run_rec, quick=400, thorough=8000, shards=1, cost=1),
    Sub("pde_1d", case_1d(), run_1d, quick=240, thorough=5000, shards=1, cost=1),
    Sub("pde_2d", case_2d(), run_2d, quick=200, thorough=5000, shards=3, cost=2),
    Sub("pde_3d", case_3d(), run_3d, quick=96, thorough=3000, shards=4, cost=4),
]
