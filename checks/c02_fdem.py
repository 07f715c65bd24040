"""C02: frequency-domain EM (3D / cylindrical) sensitivities."""

import numpy as np
from discretize.utils import Zero
from hypothesis import strategies as st
from scipy.constants import mu_0
from simpeg import maps
from simpeg.electromagnetics import frequency_domain as fdem

from lib import gen, sens
from lib.oracle import close, nrm, require
from lib.pbt import Sub

PROPERTY = "C02"
RULE = (
    "A case is a mesh (tensor, tree, cylindrical with and without symmetry), one of the four formulations, 1-3 sources "
    "at 1-2 frequencies with a random kind each (magnetic dipole from the vector potential / flux density, circular loop, "
    "grounded line, raw electric / magnetic / both, primary-secondary), 1-3 receivers per source (e, b, secondary b, h, "
    "secondary h, j; real / imaginary; arbitrary orientations), and a model of sigma, rho, mu, mui or two of them. "
    "Jvec is compared with Richardson-extrapolated differences of dpred receiver by receiver, Jtvec by the dot-product "
    "identity, getJ / getJtJdiag with Jvec / Jtvec. Non-trivial: non-zero sensitivity product with a conclusive difference."
)
ASSUMPTIONS = [
    "conductivities 1e-3..10 S/m, relative permeabilities 1..2, 100 Hz..100 kHz, fewer than about 300 cells",
    "cylindrical symmetry only with the field components that exist there",
]

SIMS = {
    "e": fdem.Simulation3DElectricField,
    "b": fdem.Simulation3DMagneticFluxDensity,
    "j": fdem.Simulation3DCurrentDensity,
    "h": fdem.Simulation3DMagneticField,
}
RX = {
    "e": fdem.receivers.PointElectricField,
    "b": fdem.receivers.PointMagneticFluxDensity,
    "bs": fdem.receivers.PointMagneticFluxDensitySecondary,
    "h": fdem.receivers.PointMagneticField,
    "hs": fdem.receivers.PointMagneticFieldSecondary,
    "j": fdem.receivers.PointCurrentDensity,
}


def prop_model(c, n, r, mesh=None):
    """-> (simulation kwargs, model, step)"""
    logsig = np.log(10.0) * c["lsig"] + 0.6 * r.standard_normal(n)
    sig = {"sigma": np.exp(logsig)}
    mur = 1.0 + r.random(n)
    kw = {}
    p = c["prop"]
    if p in ("sigma", "rho"):
        s = 1 if p == "sigma" else -1
        if c["map"] == "exp":
            kw[p + "Map"] = maps.ExpMap(nP=n)
            m = s * logsig
        elif c["map"] == "active":
            a = r.random(n) < 0.7
            a[:2] = True
            kw[p + "Map"] = maps.InjectActiveCells(mesh, a, value_inactive=1e-3) * maps.ExpMap(nP=int(a.sum()))
            m = s * logsig[a]
        else:
            kw[p + "Map"] = maps.IdentityMap(nP=n)
            m = np.exp(s * logsig)
        if c["mu"] == "const":
            kw["mu"] = mu_0 * mur
    elif p in ("mu", "mui"):
        kw["sigma" if r.random() < 0.5 else "rho"] = 1.0
        k = [q for q in kw][0]
        kw[k] = np.exp(logsig) if k == "sigma" else np.exp(-logsig)
        if p == "mu":
            kw["muMap"] = maps.ExpMap(nP=n)
            m = np.log(mu_0 * mur)
        else:
            kw["muiMap"] = maps.ExpMap(nP=n)
            m = -np.log(mu_0 * mur)
    else:  # two properties of one model
        w = maps.Wires(("a", n), ("b", n))
        kw["sigmaMap" if p == "sigma+mu" else "rhoMap"] = maps.ExpMap(nP=n) * w.a
        kw["muMap" if p == "sigma+mu" else "muiMap"] = maps.ExpMap(nP=n) * w.b
        s = 1 if p == "sigma+mu" else -1
        m = np.r_[s * logsig, s * np.log(mu_0 * mur)]
    return kw, m


FLIP = {"real": "imag", "imag": "real"}


def has_mu(c):
    return "mu" in c["prop"]


@st.composite
def src_desc(draw, form, cyl):
    eb = form in "eb"
    kinds = ["raw", "raw_e", "raw_m", "line"]
    if cyl == "sym":
        kinds = ["raw", "raw_e", "raw_m"] + (["dip", "dipb", "loop"] if eb else [])
    elif cyl == "cyl":
        kinds = ["raw", "raw_e", "raw_m", "dip"]
    else:
        kinds += ["dip", "dipb", "loop"]
    if eb:
        kinds.append("primsec")
    comp = {"e": "yx"[cyl == "none"], "b": "xz", "h": "xz", "j": "y"}
    rxs = draw(
        st.lists(
            st.fixed_dictionaries(
                {
                    "f": st.sampled_from(
                        ["e", "b", "h", "j"] + (["bs"] if eb else ["hs"])
                    ),
                    "o": st.sampled_from(["x", "y", "z", "v"]),
                    "c": st.sampled_from(["real", "imag"]),
                    "n": st.integers(1, 3),
                }
            ),
            min_size=1,
            max_size=3,
        )
    )
    return {
        "kind": draw(st.sampled_from(kinds)),
        "f": draw(st.sampled_from([0, 0, 1])),
        "rx": rxs,
        "amp": draw(st.sampled_from([1.0, 3.0, 0.5])),
        "mu": draw(st.sampled_from([1.0, 1.0, 1.3])),
    }


@st.composite
def case(draw, cyl="none"):
    form = draw(st.sampled_from("ebjh"))
    if cyl == "none":
        mesh = draw(
            st.one_of(
                gen.tensor_mesh(3, 3, 4, base=(10.0,)),
                gen.tree_mesh(3, (2, 2), base=(10.0,), level=1),
            )
        )
    else:
        mesh = draw(gen.cyl_mesh(4, 6, base=(10.0,), theta=cyl == "cyl"))
    prop = draw(st.sampled_from(["sigma", "rho", "sigma", "rho", "mu", "mui", "sigma+mu", "rho+mui"]))
    return {
        "mesh": mesh,
        "form": form,
        "cyl": cyl,
        "prop": prop,
        "map": draw(st.sampled_from(["exp", "exp", "active", "identity"])),
        "mu": draw(st.sampled_from(["default", "const"])),
        "lsig": draw(st.sampled_from([-2.0, -1.0, 0.0])),
        "freqs": draw(st.sampled_from([[100.0, 1e4], [1e3, 1e5], [3e4, 300.0]])),
        "srcs": draw(st.lists(src_desc(form, cyl), min_size=1, max_size=3)),
        "order": draw(st.integers(0, 3)),
        "seed": draw(gen.seeds),
    }


def sparse_vec(r, n):
    v = np.zeros(n)
    v[r.choice(n, min(n, 4), replace=False)] = r.standard_normal(min(n, 4))
    return v


def unit(r, o):
    if o == "v":
        v = r.standard_normal(3)
        return v / np.linalg.norm(v)
    return o


def build_survey(c, mesh, r, flip=False):
    form, cyl = c["form"], c["cyl"]
    eb = form in "eb"
    n_m, n_e = (mesh.n_faces, mesh.n_edges) if eb else (mesh.n_edges, mesh.n_faces)
    L = gen.lims(mesh)
    if cyl != "none":
        R, zlo, zhi = np.sum(mesh.h[0]), L[-1, 0], L[-1, 1]

        def pts(k):
            rad = R * (0.15 + 0.7 * r.random(k))
            th = np.zeros(k) if cyl == "sym" else 2 * np.pi * r.random(k)
            z = zlo + (zhi - zlo) * (0.15 + 0.7 * r.random(k))
            # points are given in the mesh's (r, theta, z) for symmetric meshes
            return np.c_[rad, th, z] if cyl == "sym" else np.c_[rad, th, z]

        ctr = np.r_[0.0, 0.0, 0.5 * (zlo + zhi)]
    else:

        def pts(k):
            return gen.inside_points(mesh, r, k, 0.15)

        ctr = pts(1)[0]
    srcs = []
    for s in c["srcs"]:
        rxs = []
        for q in s["rx"]:
            o = unit(r, q["o"])
            if cyl == "sym":
                edge = (q["f"] in ("e", "j")) == eb
                o = "y" if edge else ("z" if q["o"] in "yz" else "x")
            rxs.append(RX[q["f"]](pts(q["n"]), orientation=o, component=FLIP[q["c"]] if flip else q["c"]))
        f = c["freqs"][s["f"]]
        k = s["kind"]
        if k == "line" and not eb and mesh._meshType == "TREE":
            k = "raw_e"
        o = "z" if cyl != "none" else unit(r, s["rx"][0]["o"])
        if k == "dip":
            src = fdem.sources.MagDipole(rxs, f, location=ctr, moment=s["amp"], orientation=o, mu=mu_0 * s["mu"])
        elif k == "dipb":
            src = fdem.sources.MagDipole_Bfield(rxs, f, location=ctr, moment=s["amp"], orientation=o, mu=mu_0 * s["mu"])
        elif k == "loop":
            src = fdem.sources.CircularLoop(
                rxs, f, location=ctr, current=s["amp"], radius=3.0, n_turns=2, orientation=o, mu=mu_0 * s["mu"]
            )
        elif k == "line":
            p = pts(3)
            if not eb:
                # faces: axis-aligned paths through cell centres
                i0 = [int(r.integers(n)) for n in mesh.shape_cells] if hasattr(mesh, "shape_cells") else None
                ax = int(r.integers(3))
                i1 = list(i0)
                i1[ax] = (i0[ax] + 1 + int(r.integers(mesh.shape_cells[ax] - 1))) % mesh.shape_cells[ax]
                g = [mesh.cell_centers_x, mesh.cell_centers_y, mesh.cell_centers_z]
                p = np.array([[g[k][q[k]] for k in range(3)] for q in (i0, i1)])
            src = fdem.sources.LineCurrent(rxs, f, location=p, current=s["amp"])
        elif k == "raw_e":
            src = fdem.sources.RawVec_e(rxs, f, sparse_vec(r, n_e), integrate=bool(s["mu"] != 1.0))
        elif k == "raw_m":
            src = fdem.sources.RawVec_m(rxs, f, 1e-6 * sparse_vec(r, n_m), integrate=bool(s["mu"] != 1.0))
        elif k == "raw":
            src = fdem.sources.RawVec(rxs, f, s_m=1e-6 * sparse_vec(r, n_m), s_e=sparse_vec(r, n_e))
        else:
            ep = r.standard_normal(mesh.n_edges) + 1j * r.standard_normal(mesh.n_edges)
            src = fdem.sources.PrimSecSigma(rxs, f, sigBack=np.full(mesh.n_cells, 0.02), ePrimary=ep)
        srcs.append(src)
    return fdem.Survey(srcs)


def run(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    kw, m = prop_model(c, mesh.n_cells, r, mesh)
    s0 = int(r.integers(1 << 31))

    def make(flip=False):
        q = np.random.default_rng(s0)
        survey = build_survey(c, mesh, q, flip)
        sim = SIMS[c["form"]](mesh, survey=survey, **kw)
        return sim

    v = r.standard_normal(m.size)
    if c["prop"] in ("sigma", "rho") and c["map"] == "identity":
        v *= np.abs(m)
    what = f"FDEM {c['form']} {c['prop']} " + ",".join(
        s["kind"] + "(" + " ".join(q["f"] + q["c"][0] for q in s["rx"]) + ")" for s in c["srcs"]
    )
    lab = sens.judge(
        make,
        m,
        v,
        r,
        what,
        h=5e-2,
        rtol=1e-5,
        adj_rtol=1e-7,
        J=lambda s, mm: s.getJ(mm),
        JtJ=True,
        order=c["order"],
        rep_rtol=1e-7,
        flip=lambda: make(True),
    )
    return lab + [c["form"], c["prop"]] + [s["kind"] for s in c["srcs"]]


SUBS = [
    Sub("cartesian", case("none"), run, quick=600, thorough=6000, shards=6, cost=4),
    Sub("cyl_symmetric", case("sym"), run, quick=300, thorough=3000, shards=2, cost=2),
    Sub("cyl_3d", case("cyl"), run, quick=120, thorough=1500, shards=2, cost=4),
]
