"""C17: DC, IP, SIP and SP data are those of the discretized earth and its electrodes."""

import numpy as np
from hypothesis import strategies as st
from scipy.special import j0, k0e, k1e, roots_legendre
from simpeg import maps
from simpeg.electromagnetics.static import induced_polarization as ip
from simpeg.electromagnetics.static import resistivity as dc
from simpeg.electromagnetics.static import self_potential as spot
from simpeg.electromagnetics.static import spectral_induced_polarization as sip
from simpeg.utils import mkvc

from checks import c01_static as s1
from lib import gen
from lib.oracle import close, close_each, fail, nrm, require
from lib.pbt import Sub

PROPERTY = "C17"
RULE = (
    "A case is a mesh, conductivities, boundary condition, formulation (cell centered, nodal; 1D, 2.5D, 3D) and electrodes (several may share a cell; "
    "pole, dipole and multipole sources with any currents; voltages, apparent resistivities and chargeabilities, electric fields and currents), as in C01. "
    "The data are recomputed from a dense solution of the discretized equations, by reciprocity and superposition; on padded meshes they are compared "
    "with the half-space formula; layered earths with the Sommerfeld integral. Non-trivial: non-zero data."
)
ASSUMPTIONS = [
    "discretize's operators (inner products, divergence, gradient, interpolation, Robin gradient) are right",
    "Neumann problems: sources without net current, seen through dipoles",
    "the half-space formula within 15% for electrodes at least 6 cells apart",
]

# ---------------------------------------------------------------------------------------------- reference


def robin_alpha(mesh, ky=None):
    """decay of the potential of a point source in the middle of the top, on all but the top faces"""
    bf, nrmals = mesh.boundary_faces, mesh.boundary_face_outward_normals
    top = mesh.nodes[:, -1].max()
    src = np.r_[np.median(mesh.nodes, axis=0)[:-1], top]
    d = bf - src
    r = np.sqrt((d**2).sum(1))
    cos = (d * nrmals).sum(1) / r
    a = cos / r if ky is None else cos * ky * k1e(ky * r) / k0e(ky * r)
    a[np.abs(bf[:, -1] - top) < 1e-9 * (1 + abs(top))] = 0.0
    return a


def matrix(mesh, sigma, form, bc, ky=None):
    if form == "CC":
        V = mesh.cell_volumes
        D = np.diag(V) @ mesh.face_divergence.toarray()
        Mi = np.linalg.inv(mesh.get_face_inner_product(1 / sigma).toarray())
        G = D.T.copy()
        if bc != "Dirichlet":
            nb = len(mesh.boundary_faces)
            a = robin_alpha(mesh, ky) if bc == "Robin" else np.zeros(nb)
            B, _ = mesh.cell_gradient_weak_form_robin(a, np.ones(nb), 0.0)
            G = G - B.toarray()
        A = D @ Mi @ G
        if ky is not None:
            A = A + ky**2 * np.diag(V * sigma)
        return A, (Mi, G)
    G = mesh.nodal_gradient.toarray()
    A = G.T @ mesh.get_edge_inner_product(sigma).toarray() @ G
    if ky is not None:
        A = A + ky**2 * np.diag(mesh.average_node_to_cell.toarray().T @ (mesh.cell_volumes * sigma))
    if bc == "Robin":
        P = mesh.project_face_to_boundary_face
        w = robin_alpha(mesh, ky) * (P @ mesh.face_areas) * (P @ mesh.average_cell_to_face @ sigma)
        A = A + np.diag((P @ mesh.average_node_to_face).T @ w)
    return A, None


def electrodes_of(src):
    loc = np.atleast_2d(src.location)
    if isinstance(src, sip.sources.Dipole):
        return loc, src.current * np.r_[1.0, -1.0]
    return loc, np.broadcast_to(src.current, len(loc))


def inject(mesh, form, loc, cur):
    if form == "CC":
        q = np.zeros(mesh.n_cells)
        for x, c in zip(loc, cur):
            q[np.argmin(((mesh.cell_centers - x) ** 2).sum(1))] += c
        return q
    q = np.zeros(mesh.n_nodes)
    for x, c in zip(loc, cur):
        q += c * mesh.get_interpolation_matrix(x[None], "nodes").toarray()[0]
    return q


def at(mesh, form, x):
    return mesh.get_interpolation_matrix(x, "cell_centers" if form == "CC" else "nodes").toarray()


def geometry(src, rx):
    """voltage of a unit half-space for the currents of the source"""
    loc, cur = electrodes_of(src)
    m = rx.locations_m if isinstance(rx, dc.receivers.Dipole) else rx.locations
    g = sum(c / np.linalg.norm(m - x, axis=1) for x, c in zip(loc, cur))
    if isinstance(rx, dc.receivers.Dipole):
        g = g - sum(c / np.linalg.norm(rx.locations_n - x, axis=1) for x, c in zip(loc, cur))
    return g / (2 * np.pi)


def read(mesh, form, bc, rx, phi, aux=None):
    if isinstance(rx, dc.receivers.Dipole):
        return (at(mesh, form, rx.locations_m) - at(mesh, form, rx.locations_n)) @ phi
    if rx.projField == "phi":
        return at(mesh, form, rx.locations) @ phi
    Mi, G = aux
    v = G @ phi
    v = Mi @ v if rx.projField == "j" else np.linalg.solve(mesh.get_face_inner_product().toarray(), v)
    return mesh.get_interpolation_matrix(rx.locations, "faces_" + rx.orientation) @ v


def solve(A, q, bc, ky):
    """potentials, and the scale of what a solver can resolve of them"""
    if bc == "Neumann" and ky is None:
        return np.linalg.lstsq(A, q, rcond=1e-11)[0]
    return np.linalg.solve(A, q)


def reference(mesh, sigma, form, bc, survey, kys=None, weights=None, dtype=True):
    """data of the survey and the scale of the potentials they are taken from"""
    mats = [matrix(mesh, sigma, form, bc, ky) for ky in ([None] if kys is None else kys)]
    if bc == "Neumann" and kys is not None and form == "CC":
        for A, _ in mats:
            A[0, 0] += 1.0  # the code's remedy for small wavenumbers
    out, scale = [], []
    for src in survey.source_list:
        loc, cur = electrodes_of(src)
        q = inject(mesh, form, loc, cur)
        size = np.abs(cur).max()
        phis = [solve(A, q, bc, ky) for (A, _), ky in zip(mats, [None] if kys is None else kys)]
        phi = phis[0] if kys is None else np.array(phis).T @ weights
        for rx in src.receiver_list:
            d = read(mesh, form, bc, rx, phi, mats[0][1])
            s = np.full(d.shape, nrm(phi) / np.sqrt(phi.size)) if rx.projField == "phi" else np.full(d.shape, np.abs(d).max())
            if dtype and rx.data_type == "apparent_resistivity":
                g = geometry(src, rx)
                d, s = d / g, s / np.abs(g)
            out.append(d)
            scale.append(s + 0 * size)
    return np.concatenate(out), np.concatenate(scale)


# ---------------------------------------------------------------------------------------------- generated set-ups
def crowd(elec, mesh, r):
    """some electrodes share the cell of another one"""
    e = elec.copy()
    for _ in range(2):
        i, j = r.choice(len(e), 2, replace=False)
        if r.random() < 0.5:
            e[j] = e[i] + 0.02 * mesh.h_gridded.min() * (r.random(mesh.dim) - 0.5) * np.r_[np.ones(mesh.dim - 1), 0]
    return e


def build(c, dim):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    bc, form = c["bc"], c["form"]
    if form == "N" and bc == "Dirichlet":
        bc = "Robin"
    if bc == "Neumann" and form == "CC" and c["mesh"]["kind"] == "tree":
        bc = "Robin"
    neu = bc == "Neumann" and dim == 3
    elec = s1.electrodes(mesh, r, 8, c["flat"])
    if c["crowd"]:
        elec = crowd(elec, mesh, r)
    kw, m = s1.prop_map(c, mesh, r)
    if neu:
        c = dict(c, sources=[dict(s, kind="dipole") for s in c["sources"]])
    S = s1.make_sources(c, mesh, elec, r, force_dipole_rx=neu)
    if c["store"]:
        for s in S:
            for rx in s.receiver_list:
                rx.storeProjections = True
    if dim == 3 and form == "CC" and c["field"] != "phi":
        for s in S:
            rx = dc.receivers.Pole(gen.inside_points(mesh, r, 2), orientation="xyz"[r.integers(3)], projField=c["field"])
            s.receiver_list = list(s.receiver_list) + [rx]
    survey = dc.Survey(S)
    s1.set_geometry(survey)
    name = c["prop"]
    p = kw[name + "Map"] * m
    sigma = p if name == "sigma" else 1 / p
    return mesh, r, bc, form, kw, m, sigma, survey


EXTRA = {"crowd": st.booleans(), "store": st.booleans()}


def st3():
    d = {"mesh": s1.mesh3_small(), "sources": s1.sources_st(), "field": st.sampled_from(["phi", "phi", "phi", "e", "j"]), **s1.COMMON, **EXTRA}
    return st.fixed_dictionaries(d)


def st2():
    return st.fixed_dictionaries({"mesh": s1.mesh2(), "sources": s1.sources_st(), "nky": st.integers(3, 7), "trap": st.booleans(), **s1.COMMON, **EXTRA})


CLS = {(3, "CC"): dc.Simulation3DCellCentered, (3, "N"): dc.Simulation3DNodal, (2, "CC"): dc.Simulation2DCellCentered, (2, "N"): dc.Simulation2DNodal}


def compare(got, want, scale, what, rtol=1e-6):
    if got.shape != want.shape:
        fail(f"{what}: {got.shape} data, expected {want.shape}")
    bad = ~(np.abs(got - want) <= rtol * np.abs(want) + rtol * scale)
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        fail(f"{what}: datum {i} of {want.size} is {got[i]!r}, expected {want[i]!r}")


def check_dc3(c):
    mesh, r, bc, form, kw, m, sigma, survey = build(c, 3)
    sim = CLS[3, form](mesh, survey=survey, bc_type=bc, **kw)
    what = f"3D DC {form} {bc}"
    d = sim.dpred(m)
    want, scale = reference(mesh, sigma, form, bc, survey)
    compare(d, want, scale, what)
    # the same survey in the other formulation (dipoles and poles only: fields live elsewhere)
    if all(rx.projField == "phi" for s in survey.source_list for rx in s.receiver_list):
        other = "N" if form == "CC" else "CC"
        bc2 = "Robin" if bc == "Dirichlet" or c["mesh"]["kind"] == "tree" else bc
        want, scale = reference(mesh, sigma, other, bc2, survey)
        compare(CLS[3, other](mesh, survey=survey, bc_type=bc2, **kw).dpred(m), want, scale, f"3D DC {other} {bc2} after {form}")
    return ["trivial"] if not np.abs(d).max() > 0 else [form, bc, c["prop"]]


def check_dc2(c):
    mesh, r, bc, form, kw, m, sigma, survey = build(c, 2)
    sim = CLS[2, form](mesh, survey=survey, bc_type=bc, nky=c["nky"], do_trap=c["trap"], **kw)
    d = sim.dpred(m)
    kys, w = sim._quad_points, sim._quad_weights
    want, scale = reference(mesh, sigma, form, bc, survey, kys, w)
    compare(d, want, scale, f"2.5D DC {form} {bc}")
    if c["trap"]:
        # trapezoidal rule of the inverse cosine transform at y=0
        k = np.logspace(-4, 1, c["nky"])
        f = np.exp(-0.3 * k)
        close(w @ f, (np.sum(0.5 * (f[1:] + f[:-1]) * np.diff(k)) + k[0] * f[0]) / np.pi, "weights of the trapezoidal rule")
    return ["trivial"] if not np.abs(d).max() > 0 else [form, bc, c["prop"]]


# ------------------------------------------------------------------ half-space
def st_half():
    return st.fixed_dictionaries(
        {
            "dim": st.sampled_from([2, 2, 3]),
            "form": st.sampled_from(["CC", "N"]),
            "h": st.sampled_from([0.5, 2.0, 10.0]),
            "prop": st.sampled_from(["sigma", "rho"]),
            "rho": gen.log_floats(-1, 4),
            "cur": st.sampled_from([1.0, 2.5, -0.4]),
            "src": st.sampled_from(["pole", "dipole"]),
            "rx": st.sampled_from(["pole", "dipole"]),
            "type": st.sampled_from(["volt", "apparent_resistivity"]),
            "tree": st.booleans(),
            "seed": gen.seeds,
        }
    )


def check_half(c):
    import discretize

    r = gen.rng(c)
    h, dim, form = c["h"], c["dim"], c["form"]
    n, pad = (40, 10) if dim == 2 else (20, 6)
    hx = np.r_[h * 1.45 ** np.arange(pad, 0, -1), np.full(n, h), h * 1.45 ** np.arange(1, pad + 1)]
    hy = np.r_[h * 1.45 ** np.arange(pad, 0, -1), np.full(6, h), h * 1.45 ** np.arange(1, pad + 1)]
    hz = np.r_[h * 1.45 ** np.arange(pad, 0, -1), np.full(4, h)]
    if dim == 2:
        mesh = discretize.TensorMesh([hx, hz], origin="CN")
        if c["tree"]:
            mesh = discretize.TreeMesh([np.full(128, h), np.full(64, h)], origin="CN")
            mesh.refine_surface(np.c_[np.linspace(-20 * h, 20 * h, 80), np.zeros(80)], padding_cells_by_level=[4, 4, 4], finalize=True)
    else:
        mesh = discretize.TensorMesh([hx, hy, hz], origin="CCN")
    # electrodes on a line at the surface, at the grid of the discretisation, at least 6 cells apart
    pos = np.array([-9.0, -3.0, 3.0, 9.0]) * (2 if dim == 2 else 1)
    pos = pos[r.permutation(4)]
    off = 0.0 if form == "N" else 0.5
    x = (pos + off) * h
    z = 0.0 if form == "N" else -0.5 * h
    e = np.c_[x, np.full(4, z)] if dim == 2 else np.c_[x, np.full(4, off * h), np.full(4, z)]
    A, B, M, N = e
    rx = dc.receivers.Pole(M[None], data_type=c["type"]) if c["rx"] == "pole" else dc.receivers.Dipole(M[None], N[None], data_type=c["type"])
    src = dc.sources.Pole([rx], A, current=c["cur"]) if c["src"] == "pole" else dc.sources.Dipole([rx], A, B, current=c["cur"])
    survey = dc.Survey([src])
    g = geometry(src, rx)
    if abs(g[0]) < 1e-3 * abs(c["cur"]) / (2 * np.pi * 6 * h):
        return ["trivial"]  # no apparent resistivity, no voltage
    size = abs(c["cur"]) / (2 * np.pi * 6 * h)
    if c["type"] == "apparent_resistivity":
        survey.set_geometric_factor()
        want, size = c["rho"], size / abs(g[0]) * c["rho"]
    else:
        want, size = c["rho"] * g[0], size * c["rho"]
    val = c["rho"] if c["prop"] == "rho" else 1 / c["rho"]
    sim = CLS[dim, form](mesh, survey=survey, **{c["prop"]: np.full(mesh.n_cells, val)})
    d = float(sim.dpred(None)[0])
    tol = 0.15 * abs(want) + (0.05 if dim == 3 else 0.03) * size
    if not abs(d - want) <= tol:
        fail(f"{dim}D {form} half-space of {c['rho']} ohm m: {c['type']} {d}, expected {want} +- {tol}")
    return [f"{dim}D", form, c["src"], c["rx"]]


# ------------------------------------------------------------------ reciprocity, superposition
def check_relations(c):
    mesh, r, bc, form, kw, m, sigma, survey = build(dict(c, bc="Robin", field="phi"), mesh_dim(c))
    dim = mesh.dim
    extra = {"nky": 5} if dim == 2 else {}

    def data(src_list):
        return CLS[dim, form](mesh, survey=dc.Survey(src_list), **extra, **kw).dpred(m)

    e = s1.electrodes(mesh, r, 4, c["flat"], centers=form == "CC")
    A, B, M, N = e
    dp = lambda a, b: dc.receivers.Dipole(a[None], b[None])  # noqa: E731
    po = lambda a: dc.receivers.Pole(a[None])  # noqa: E731
    ab = data([dc.sources.Dipole([dp(M, N)], A, B)])
    mn = data([dc.sources.Dipole([dp(A, B)], M, N)])
    parts = data([dc.sources.Pole([po(M), po(N)], A), dc.sources.Pole([po(M), po(N)], B)])
    scale = np.abs(parts).max()
    close(ab, mn, "reciprocity", rtol=0, atol=1e-7 * scale)
    close(ab, [parts[0] - parts[1] - parts[2] + parts[3]], "superposition of poles", rtol=0, atol=1e-8 * scale)
    multi = data([dc.sources.Multipole([dp(M, N)], np.array([A, B]), current=[2.0, -3.0])])
    close(multi, [2 * (parts[0] - parts[1]) - 3 * (parts[2] - parts[3])], "multipole source", rtol=0, atol=1e-8 * scale)
    k = 3.7
    scaled = CLS[dim, form](mesh, survey=dc.Survey([dc.sources.Dipole([dp(M, N)], A, B, current=2.0)]), sigma=k * sigma, **extra).dpred(None)
    close(scaled, 2 / k * ab, "voltage per current and resistivity", rtol=0, atol=1e-8 * scale)
    return [f"{dim}D", form]


def mesh_dim(c):
    return len(c["mesh"].get("h"))


def st_rel():
    return st.fixed_dictionaries({"mesh": st.one_of(s1.mesh2(), s1.mesh3_small()), "sources": s1.sources_st(max_src=1, max_rx=1), **s1.COMMON, "crowd": st.just(False), "store": st.just(False)})


# ------------------------------------------------------------------ layers
def layered(rho, th, r_off):
    """potential of a unit current at the surface at distances r_off"""
    x, w = roots_legendre(16)
    if len(th) == 0:
        return rho[0] / (2 * np.pi * r_off)
    lmax = 22.0 / th[0]
    out = np.zeros(len(r_off))
    for i, r in enumerate(r_off):
        dl = min(1.5 / r, 0.2 / np.max(np.cumsum(th)))
        n = int(np.ceil(lmax / dl))
        e = np.linspace(0, lmax, n + 1)
        lam = (0.5 * (e[1:] + e[:-1])[:, None] + 0.5 * np.diff(e)[:, None] * x).ravel()
        wt = (0.5 * np.diff(e)[:, None] * w).ravel()
        # reflection form of the recursion
        T = np.full(lam.size, rho[-1])
        for k in range(len(th) - 1, -1, -1):
            u = (T - rho[k]) / (T + rho[k]) * np.exp(-2 * lam * th[k])
            T = rho[k] * (1 + u) / (1 - u)
        out[i] = (rho[0] / r + np.sum((T - rho[0]) * j0(lam * r) * wt)) / (2 * np.pi)
    return out


def st_1d():
    return st.fixed_dictionaries(
        {
            "nl": st.integers(1, 5),
            "sources": s1.sources_st(max_src=2, max_rx=2, src=st.sampled_from(["pole", "dipole"])),
            "prop": st.sampled_from(["sigma", "rho"]),
            "filter": st.sampled_from(["key_201_2012", "key_101_2012", "anderson_801_1982", "key_201_2009"]),
            "seed": gen.seeds,
        }
    )


def check_1d(c):
    r = gen.rng(c)
    nl = c["nl"]
    elec = np.c_[np.cumsum(5 + 20 * r.random(10)), 10 * r.random(10), np.zeros(10)]
    S = s1.make_dc1_sources(c, elec, r)
    survey = dc.Survey(S)
    s1.set_geometry(survey)
    rho = 10 ** (2 + 0.5 * r.standard_normal(nl))
    th = 3 + 20 * r.random(nl - 1)
    val = rho if c["prop"] == "rho" else 1 / rho
    sim = dc.Simulation1DLayers(survey=survey, thicknesses=th, hankel_filter=c["filter"], **{c["prop"] + "Map": maps.IdentityMap(nP=nl)})
    d = sim.dpred(val)
    want, scale = [], []
    for src in S:
        loc, cur = electrodes_of(src)
        for rx in src.receiver_list:
            sets = [(rx.locations_m, 1), (rx.locations_n, -1)] if isinstance(rx, dc.receivers.Dipole) else [(rx.locations, 1)]
            v = [k * i * layered(rho, th, np.linalg.norm(x - e, axis=1)) for x, k in sets for e, i in zip(loc, cur)]
            g = geometry(src, rx) if rx.data_type == "apparent_resistivity" else 1.0
            want.append(np.sum(v, axis=0) / g)
            scale.append(np.sum(np.abs(v), axis=0) / np.abs(g))
    compare(d, np.concatenate(want), np.concatenate(scale), f"layered earth ({c["filter"]})", rtol=3e-2 if "101" in c["filter"] else 2e-3)
    return ["1D", c["filter"]]


# ------------------------------------------------------------------ IP, spectral IP, self potential
def st_ip():
    d = {
        "dim": st.sampled_from([2, 3]),
        "mesh2": s1.mesh2(),
        "mesh3": s1.mesh3_small(),
        "sources": s1.sources_st(max_src=2, max_rx=2, rx=s1.ip_rx),
        "emap": st.sampled_from(["id", "active"]),
        "spectral": st.booleans(),
        "pulses": st.sampled_from([2, 2, 2, 0, 1, 3]),
        "T": st.sampled_from([8.0, 8.0, 2.0, 1.0]),
        "crowd": st.booleans(),
        **s1.COMMON,
    }
    return st.fixed_dictionaries(d)


IPC = {(3, "CC"): "Simulation3DCellCentered", (3, "N"): "Simulation3DNodal", (2, "CC"): "Simulation2DCellCentered", (2, "N"): "Simulation2DNodal"}


def check_ip(c):
    dim, form = c["dim"], c["form"]
    mesh = gen.build_mesh(c[f"mesh{dim}"])
    r = gen.rng(c)
    n = mesh.n_cells
    sigma = 10 ** (-2 + 0.4 * r.standard_normal(n))
    elec = s1.electrodes(mesh, r, 8, c["flat"])
    if c["crowd"]:
        elec = crowd(elec, mesh, r)
    S0 = s1.make_sources(c, mesh, elec, r)
    times = np.array([0.01, 0.1, 1.0])
    spectral = c["spectral"] and dim == 3
    S = []
    for s in S0:
        rxs = []
        for rx in s.receiver_list:
            dip = isinstance(rx, dc.receivers.Dipole)
            if spectral:
                k = sip.receivers
                a = (rx.locations_m, rx.locations_n) if dip else (rx.locations,)
                rxs.append((k.Dipole if dip else k.Pole)(*a, times=times, data_type=rx.data_type))
            else:
                rxs.append(rx)
        mod = sip.sources if spectral else dc.sources
        loc, cur = electrodes_of(s)
        if len(loc) == 1:
            S.append(mod.Pole(rxs, loc[0], current=cur[0]))
        elif len(loc) == 2:
            S.append(mod.Dipole(rxs, loc[0], loc[1], current=cur[0]))
        else:
            S.append(mod.Multipole(rxs, loc, current=cur) if hasattr(mod, "Multipole") else mod.Dipole(rxs, loc[0], loc[1], current=cur[0]))
    eta = 0.01 + 0.2 * r.random(n)
    act = np.ones(n, bool)
    if c["emap"] == "active":
        act = gen.active_cells(mesh, r)
        eta[~act] = 0.0
    P = maps.InjectActiveCells(mesh, act, 0.0)
    kys = w = None
    kw = {c["prop"]: sigma if c["prop"] == "sigma" else 1 / sigma}

    def dcdata(sg, kys, w):
        return reference(mesh, sg, form, "Robin", dc.Survey(S), kys, w, dtype=False) if not spectral else ref_spectral(mesh, sg, form, S)

    def ratio(v0, d):
        k = 0
        d = d.copy()
        for s in S:
            for rx in s.receiver_list:
                q = (rx.locations[0] if isinstance(rx.locations, list) else rx.locations).shape[0]
                if rx.data_type == "apparent_chargeability":
                    d[k : k + q] = d[k : k + q] / v0[k : k + q]
                k += q
        return d

    def polar(et, kys, w):
        h = 1e-4
        v0, scale = dcdata(sigma, kys, w)
        d = (dcdata(sigma * (1 - h * et), kys, w)[0] - dcdata(sigma * (1 + h * et), kys, w)[0]) / (2 * h)
        return ratio(v0, d), ratio(v0, scale), np.abs(v0) / np.maximum(scale, 1e-300)

    if not spectral:
        survey = ip.Survey(S)
        cls = getattr(ip, IPC[dim, form])
        sim = cls(mesh, survey=survey, etaMap=P, **kw, **({"nky": 5} if dim == 2 else {}))
        m = eta[act]
        d = sim.dpred(m)
        if dim == 2:
            kys, w = sim._quad_points, sim._quad_weights
        want, scale, rel = polar(eta, kys, w)
        ok = rel > 1e-4
        compare(d[ok], want[ok], np.abs(scale[ok]), f"{dim}D IP {form}", rtol=1e-5)
        return ["ip", form, f"{dim}D"]
    survey = sip.Survey(S)
    survey._n_pulse, survey._T = c["pulses"], c["T"]
    cls = getattr(sip, IPC[dim, form])
    taui, cc = 10 ** r.uniform(-1, 1, n), r.uniform(0.3, 1, n)
    sim = cls(mesh, survey=survey, etaMap=P, taui=taui, c=cc, **kw)
    m = eta[act]
    d = sim.dpred(m)
    v0, scale, rel = polar(eta, kys, w)
    ok = np.tile(rel > 1e-4, len(times))


    def decay(t):
        return np.exp(-((t * taui) ** cc))

    def shape(t):
        """stacked response after trains of pulses of alternating sign (period T, half duty)"""
        if c["pulses"] == 0:
            return decay(t)
        k, T = c["pulses"], c["T"]
        one = [decay(t + i * T / 2) - decay(t + T / 4 + i * T / 2) for i in range(k)]
        return sum((-1) ** i * (k - i) / k * one[i] for i in range(k))

    want = np.concatenate([polar(eta * shape(t), kys, w)[0] for t in times])
    scale = np.tile(np.abs(scale), len(times))
    compare(d[ok], want[ok], scale[ok], f"3D spectral IP {form}", rtol=1e-5)
    return ["sip", form]


def ref_spectral(mesh, sg, form, S):
    A, _ = matrix(mesh, sg, form, "Robin")
    out, scale = [], []
    for s in S:
        loc, cur = electrodes_of(s)
        phi = np.linalg.solve(A, inject(mesh, form, loc, cur))
        for rx in s.receiver_list:
            L = rx.locations
            v = at(mesh, form, L[0]) @ phi - at(mesh, form, L[1]) @ phi if isinstance(L, list) else at(mesh, form, L) @ phi
            out.append(v)
            scale.append(np.full(v.shape, nrm(phi) / np.sqrt(phi.size)))
    return np.concatenate(out), np.concatenate(scale)


def st_sp():
    return st.fixed_dictionaries({"mesh": s1.mesh3_small(), "q": st.sampled_from(["id", "current", "head"]), "prop": st.sampled_from(["sigma", "rho"]), "seed": gen.seeds})


def check_sp(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    n = mesh.n_cells
    sigma = 10 ** (-2 + 0.4 * r.standard_normal(n))
    kw = {c["prop"]: sigma if c["prop"] == "sigma" else 1 / sigma}
    e = gen.inside_points(mesh, r, 6)
    rxs = [dc.receivers.Pole(e[:2]), dc.receivers.Dipole(e[2:4], e[4:])]
    survey = spot.Survey([spot.sources.StreamingCurrents(rxs)])
    if c["q"] == "id":
        mp, m = maps.IdentityMap(nP=n), r.standard_normal(n)
        q = m
    elif c["q"] == "current":
        mp, m = spot.CurrentDensityMap(mesh), r.standard_normal(3 * n)
        # minus the divergence of the current density, averaged to the faces
        q = -(mesh.face_divergence @ (mesh.average_cell_vector_to_face @ m))
    else:
        L = r.uniform(0.5, 2, n)
        mp, m = spot.HydraulicHeadMap(mesh, L), r.standard_normal(n)
        Mi = np.linalg.inv(mesh.get_face_inner_product(1 / L).toarray())
        D = mesh.face_divergence.toarray()
        q = D @ Mi @ D.T @ (mesh.cell_volumes * m)
    sim = spot.Simulation3DCellCentered(mesh, survey=survey, qMap=mp, **kw)
    A, _ = matrix(mesh, sigma, "CC", "Robin")
    phi = np.linalg.solve(A, mesh.cell_volumes * q)
    want = np.concatenate([read(mesh, "CC", "Robin", rx, phi) for rx in rxs])
    compare(sim.dpred(m), want, np.full(want.shape, nrm(phi) / np.sqrt(n)), "self potential " + c["q"], rtol=1e-6)
    return ["sp", c["q"]]


SUBS = [
    Sub("dc3d", st3(), check_dc3, quick=240, thorough=4000, shards=4, cost=4),
    Sub("dc2d", st2(), check_dc2, quick=240, thorough=4000, shards=3, cost=3),
    Sub("halfspace", st_half(), check_half, quick=80, thorough=1500, shards=3, cost=4),
    Sub("relations", st_rel(), check_relations, quick=120, thorough=2000, shards=2, cost=2),
    Sub("layers", st_1d(), check_1d, quick=150, thorough=3000, shards=2, cost=2),
    Sub("ip", st_ip(), check_ip, quick=120, thorough=2000, shards=4, cost=4),
    Sub("sp", st_sp(), check_sp, quick=80, thorough=1500, shards=1, cost=2),
]
