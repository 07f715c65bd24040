"""C18: frequency- and time-domain EM data (3D, cylindrical) are those of the discretized Maxwell equations."""

import warnings

import numpy as np
from geoana.em.static import CircularLoopWholeSpace, LineCurrentWholeSpace
from hypothesis import strategies as st
from scipy.constants import epsilon_0, mu_0
from simpeg.electromagnetics import frequency_domain as fdem
from simpeg.electromagnetics import time_domain as tdem
from simpeg.electromagnetics.utils import line_through_faces, segmented_line_current_source_term

from checks import c02_fdem as c02
from checks import c03_tdem as c03
from lib import gen
from lib.oracle import fail
from lib.pbt import Sub

PROPERTY = "C18"
RULE = (
    "A case is a mesh (tensor, tree, cylindrical with and without symmetry), a formulation (E, B, H, J), properties (conductivity, permeability, "
    "in the frequency domain permittivity), sources of several kinds and waveforms, receivers and (in time) steps, as in C02 and C03. Every datum and every field is "
    "compared with a dense solution of the coupled discretized equations in e and b (or j and h), in time by backward Euler steps from the static fields of "
    "the source; layered earths on padded cylindrical meshes with the layered simulations. Non-trivial: non-zero data."
)
ASSUMPTIONS = [
    "discretize's operators (curl, inner products, interpolation, projections, boundary terms) are right",
    "geoana's vector potentials of loops and wires; current paths on the mesh are those of C26",
    "the layered simulations (C32), within 10-20 percent",
]

# ---------------------------------------------------------------------------------------------- free-space potentials


def dipole_a(x, loc, mom, mu):
    d = x - loc
    r = np.linalg.norm(d, axis=1)[:, None]
    with np.errstate(all="ignore"):
        a = mu / (4 * np.pi) * np.cross(mom, d) / r**3
    a[~np.isfinite(a)] = 0.0
    return a


def dipole_b(x, loc, mom, mu):
    d = x - loc
    r = np.linalg.norm(d, axis=1)[:, None]
    with np.errstate(all="ignore"):
        b = mu / (4 * np.pi) * (3 * d * (d @ mom)[:, None] / r**5 - mom / r**3)
    b[~np.isfinite(b)] = 0.0
    return b


def local(mesh, x, fun):
    """a vector function of Cartesian points at points x of the mesh, in the directions of the mesh"""
    if mesh._meshType != "CYL":
        return fun(x)
    r, t, z = x.T
    v = fun(np.c_[r * np.cos(t), r * np.sin(t), z])
    return np.c_[v[:, 0] * np.cos(t) + v[:, 1] * np.sin(t), -v[:, 0] * np.sin(t) + v[:, 1] * np.cos(t), v[:, 2]]


def on_edges(mesh, fun):
    if mesh._meshType == "CYL" and mesh.is_symmetric:
        return local(mesh, mesh.edges_y, fun)[:, 1]
    return mesh.project_edge_vector(local(mesh, mesh.edges, fun))


def on_faces(mesh, fun):
    if mesh._meshType == "CYL" and mesh.is_symmetric:
        return np.r_[local(mesh, mesh.faces_x, fun)[:, 0], local(mesh, mesh.faces_z, fun)[:, 2]]
    return mesh.project_face_vector(local(mesh, mesh.faces, fun))


def boundary_term(mesh, fun):
    return mesh.boundary_edge_vector_integral @ local(mesh, mesh.boundary_edges, fun).ravel(order="F")


def unit(o):
    return {"x": np.r_[1.0, 0, 0], "y": np.r_[0, 1.0, 0], "z": np.r_[0, 0, 1.0]}[o] if isinstance(o, str) else np.asarray(o)


class Ops:
    """dense operators"""

    def __init__(self, mesh, form, sigma, mu, eps=None):
        self.mesh, self.form = mesh, form
        self.C = mesh.edge_curl.toarray()
        self.sigma, self.mu, self.eps = sigma, mu, eps
        self.Me = mesh.get_edge_inner_product().toarray()
        self.Mf = mesh.get_face_inner_product().toarray()
        if form in "eb":
            self.Mmui = mesh.get_face_inner_product(1 / mu).toarray()
            self.Msig = mesh.get_edge_inner_product(sigma).toarray()
        else:
            self.Mmu = mesh.get_edge_inner_product(mu).toarray()
            self.Mrho = mesh.get_face_inner_product(1 / sigma).toarray()

    def hp(self, fun, mu):
        """magnetic field on edges of a vector potential"""
        a = on_faces(self.mesh, fun)
        return np.linalg.solve(self.Me, self.C.T @ (self.Mf @ a) - boundary_term(self.mesh, fun)) / mu


# ---------------------------------------------------------------------------------------------- frequency domain
@st.composite
def fsrc(draw, form, cyl):
    eb = form in "eb"
    kinds = ["raw", "raw_e", "raw_m", "line", "dip", "dipb", "loop"]
    if cyl == "sym":
        kinds = ["raw", "raw_e", "raw_m"] + (["dip", "dipb", "loop"] if eb else [])
    elif cyl == "cyl":
        kinds = ["raw", "raw_e", "raw_m", "dip", "dipb"]
    if eb:
        kinds.append("primsec")
    rx = st.fixed_dictionaries(
        {
            "f": st.sampled_from(["e", "b", "h", "j"] + (["bs"] if eb else ["hs"])),
            "o": st.sampled_from(["x", "y", "z", "v"]),
            "c": st.sampled_from(["real", "imag"]),
            "n": st.integers(1, 3),
        }
    )
    return {
        "kind": draw(st.sampled_from(kinds)),
        "f": draw(st.sampled_from([0, 0, 1])),
        "o": draw(st.sampled_from(["x", "y", "z", "v"])),
        "rx": draw(st.lists(rx, min_size=1, max_size=3)),
        "amp": draw(st.sampled_from([1.0, 3.0, 0.5])),
        "mu": draw(st.sampled_from([1.0, 1.0, 1.3])),
        "int": draw(st.booleans()),
        "store": draw(st.booleans()),
    }


@st.composite
def fcase(draw, cyl):
    form = draw(st.sampled_from("ebjh"))
    if cyl == "none":
        mesh = draw(st.one_of(gen.tensor_mesh(3, 3, 4, base=(10.0,)), gen.tree_mesh(3, (2, 2), base=(10.0,), level=1)))
    else:
        mesh = draw(gen.cyl_mesh(4, 5, base=(10.0,), theta=cyl == "cyl"))
    return {
        "mesh": mesh,
        "form": form,
        "cyl": cyl,
        "prop": draw(st.sampled_from(["sigma", "rho", "sigma", "rho", "mu", "mui", "sigma+mu", "rho+mui"])),
        "map": draw(st.sampled_from(["exp", "exp", "active", "identity"])),
        "mu": draw(st.sampled_from(["default", "const"])),
        "eps": draw(st.sampled_from([False, False, True])),
        "lsig": draw(st.sampled_from([-2.0, -1.0, 0.0])),
        "freqs": draw(st.sampled_from([[100.0, 1e4], [1e3, 1e5], [3e4, 300.0]])),
        "srcs": draw(st.lists(fsrc(form, cyl), min_size=1, max_size=3)),
        "seed": draw(gen.seeds),
    }


def places(mesh, r, cyl):
    L = gen.lims(mesh)
    if cyl == "none":
        return (lambda k: gen.inside_points(mesh, r, k, 0.15)), gen.inside_points(mesh, r, 1, 0.15)[0]
    R, zlo, zhi = np.sum(mesh.h[0]), L[-1, 0], L[-1, 1]

    def pts(k):
        th = np.zeros(k) if cyl == "sym" else 2 * np.pi * r.random(k)
        return np.c_[R * (0.15 + 0.7 * r.random(k)), th, zlo + (zhi - zlo) * (0.15 + 0.7 * r.random(k))]

    return pts, np.r_[0.0, 0.0, 0.5 * (zlo + zhi) + 0.013]


def direction(o, r):
    if o != "v":
        return o
    v = r.standard_normal(3)
    return v / np.linalg.norm(v)


def face_path(mesh, r):
    i0 = [int(r.integers(n)) for n in mesh.shape_cells]
    ax = int(r.integers(3))
    i1 = list(i0)
    i1[ax] = (i0[ax] + 1 + int(r.integers(mesh.shape_cells[ax] - 1))) % mesh.shape_cells[ax]
    g = [mesh.cell_centers_x, mesh.cell_centers_y, mesh.cell_centers_z]
    return np.array([[g[k][q[k]] for k in range(3)] for q in (i0, i1)])


def fsurvey(c, mesh, ops, r):
    """-> survey and, for every source, (primary of the solved field, s_m, s_e) of the total fields"""
    form, cyl = c["form"], c["cyl"]
    eb = form in "eb"
    n_m, n_e = (mesh.n_faces, mesh.n_edges) if eb else (mesh.n_edges, mesh.n_faces)
    pts, ctr = places(mesh, r, cyl)
    S, ref = [], []
    for s in c["srcs"]:
        rxs = []
        for q in s["rx"]:
            o = direction(q["o"], r)
            if cyl == "sym":
                edge = (q["f"] in ("e", "j")) == eb
                o = "y" if edge else ("z" if q["o"] in "yz" else "x")
            rxs.append(c02.RX[q["f"]](pts(q["n"]), orientation=o, component=q["c"], storeProjections=s["store"]))
        f, k = c["freqs"][s["f"]], s["kind"]
        if k == "line" and not eb and mesh._meshType == "TREE":
            k = "raw_e"
        o = "z" if cyl != "none" else direction(s["o"], r)
        mu = mu_0 * s["mu"]
        primary, sm, se, ep = None, 0.0, 0.0, 0.0
        if k in ("dip", "dipb", "loop"):
            if k == "loop":
                src = fdem.sources.CircularLoop(rxs, f, location=ctr, current=s["amp"], radius=3.0, n_turns=2, orientation=o, mu=mu)
                loop = CircularLoopWholeSpace(mu=mu, location=ctr, orientation=unit(o), radius=3.0, current=s["amp"])
                fun = lambda x: 2 * np.nan_to_num(loop.vector_potential(x))  # noqa: E731
            else:
                cls = fdem.sources.MagDipole if k == "dip" else fdem.sources.MagDipole_Bfield
                src = cls(rxs, f, location=ctr, moment=s["amp"], orientation=o, mu=mu)
                fun = lambda x: dipole_a(x, ctr, s["amp"] * unit(o), mu)  # noqa: E731
            bfun = lambda x: dipole_b(x, ctr, s["amp"] * unit(o), mu)  # noqa: E731
            if eb:
                primary = on_faces(mesh, bfun) if k == "dipb" else ops.C @ on_edges(mesh, fun)
                se = ops.C.T @ (mesh.get_face_inner_product(np.full(mesh.n_cells, 1 / mu)) @ primary)
            else:
                primary = on_edges(mesh, bfun) / mu if k == "dipb" else ops.hp(fun, mu)
                se = ops.C @ primary
        elif k == "line":
            p = pts(3) if eb else face_path(mesh, r)
            src = fdem.sources.LineCurrent(rxs, f, location=p, current=s["amp"])
            se = s["amp"] * (segmented_line_current_source_term(mesh, p) if eb else line_through_faces(mesh, p, normalize_by_area=True))
        elif k == "primsec":
            ep = r.standard_normal(mesh.n_edges) + 1j * r.standard_normal(mesh.n_edges)
            src = fdem.sources.PrimSecSigma(rxs, f, sigBack=np.full(mesh.n_cells, 0.02), ePrimary=ep)
            se = (ops.Msig - mesh.get_edge_inner_product(np.full(mesh.n_cells, 0.02)).toarray()) @ ep
        else:
            ve, vm = c02.sparse_vec(r, n_e), 1e-6 * c02.sparse_vec(r, n_m)
            if k != "raw_m":
                se = ops.Me @ ve if eb and s["int"] else ve
            if k != "raw_e":
                sm = ops.Me @ vm if not eb and s["int"] else vm
            if k == "raw_e":
                src = fdem.sources.RawVec_e(rxs, f, ve, integrate=s["int"])
            elif k == "raw_m":
                src = fdem.sources.RawVec_m(rxs, f, vm, integrate=s["int"])
            else:
                src = fdem.sources.RawVec(rxs, f, s_m=vm, s_e=ve, integrate=s["int"])
        S.append(src)
        ref.append((primary, sm, se, ep))
    return fdem.Survey(S), ref


def fsolve(ops, f, primary, sm, se, ep):
    """total fields on their grids"""
    w = 2 * np.pi * f
    C = ops.C
    mesh = ops.mesh
    y = ops.sigma if ops.eps is None else ops.sigma + 1j * w * ops.eps
    if ops.form in "eb":
        My = ops.Msig if ops.eps is None else mesh.get_edge_inner_product(y).toarray()
        A = C.T @ ops.Mmui @ C + 1j * w * My
        e = np.linalg.solve(A, C.T @ (ops.Mmui @ (sm + np.zeros(mesh.n_faces))) - 1j * w * se)
        b = (sm - C @ e) / (1j * w)
        e = e + ep
        out = {"e": e, "b": b, "j": np.linalg.solve(ops.Me, ops.Msig @ e), "h": np.linalg.solve(ops.Mf, ops.Mmui @ b)}
        out["bs"] = b if primary is None else b - primary
        return out
    Mr = ops.Mrho if ops.eps is None else mesh.get_face_inner_product(1 / y).toarray()
    A = C.T @ Mr @ C + 1j * w * ops.Mmu
    h = np.linalg.solve(A, C.T @ (Mr @ (se + np.zeros(mesh.n_faces))) + sm)
    j = C @ h - se
    out = {"h": h, "j": j, "e": np.linalg.solve(ops.Mf, Mr @ j), "b": np.linalg.solve(ops.Me, ops.Mmu @ h)}
    out["hs"] = h if primary is None else h - primary
    return out


GRID = {"e": "edges", "b": "faces", "bs": "faces", "h": "faces", "hs": "faces", "j": "edges", "dbdt": "faces", "dhdt": "faces"}
OTHER = {"edges": "faces", "faces": "edges"}


def grid_of(form, f):
    return GRID[f] if form in "eb" else OTHER[GRID[f]]


def project(mesh, grid, x, o, v):
    return sum(w * (mesh.get_interpolation_matrix(x, f"{grid}_{k}") @ v) for w, k in zip(unit(o), "xyz") if w != 0)


def mismatch(got, want, scale, what, rtol):
    got, want = np.asarray(got).ravel(), np.asarray(want).ravel()
    if got.shape != want.shape:
        fail(f"{what}: {got.shape} values, expected {want.shape}")
    bad = ~(np.abs(got - want) <= rtol * scale)
    if bad.any():
        i = int(np.flatnonzero(bad)[0])
        fail(f"{what}: value {i} of {want.size} is {got[i]!r}, expected {want[i]!r} (scale {scale:.3g})")


FNAME = {"e": "e", "b": "b", "h": "h", "j": "j", "bs": "bSecondary", "hs": "hSecondary"}


def properties_of(c, kw, m, n):
    sigma = mu = None
    for k, v in kw.items():
        val = v * m if k.endswith("Map") else v
        k = k.removesuffix("Map")
        if k == "sigma":
            sigma = val
        elif k == "rho":
            sigma = 1 / val
        elif k == "mu":
            mu = val
        elif k == "mui":
            mu = 1 / val
    return np.broadcast_to(sigma, n), np.full(n, mu_0) if mu is None else np.broadcast_to(mu, n)


def check_fdem(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    n = mesh.n_cells
    kw, m = c02.prop_model(c, n, r, mesh)
    sigma, mu = properties_of(c, kw, m, n)
    # derivatives are not available with a permittivity, and displacement currents are not part of the current density then
    eps = epsilon_0 * (1 + 1e3 * r.random(n)) if c["eps"] else None
    if c["eps"]:
        c = dict(c, srcs=[dict(s, rx=[dict(q, f="h" if q["f"] in "je" else q["f"]) for q in s["rx"]]) for s in c["srcs"]])
        c["srcs"] = [dict(s, kind="raw" if s["kind"] == "primsec" else s["kind"]) for s in c["srcs"]]
    ops = Ops(mesh, c["form"], sigma, mu, eps)
    survey, ref = fsurvey(c, mesh, ops, r)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        sim = c02.SIMS[c["form"]](mesh, survey=survey, **kw, **({"permittivity": eps} if eps is not None else {}))
        f = sim.fields(m)
        d = sim.dpred(m, f=f)
        d2 = sim.dpred(m)
    want, scales, i = [], [], 0
    what = f"FDEM {c['form']}{' permittivity' if c['eps'] else ''}"
    for src, s, t in zip(survey.source_list, c["srcs"], ref):
        u = fsolve(ops, src.frequency, *t)
        for k, v in u.items():
            if c["eps"] and (k == "j" or (k == "e" and c["form"] in "hj")):
                continue
            if (k == "bs" and c["form"] not in "eb") or (k == "hs" and c["form"] in "eb"):
                continue
            # secondary fields are as accurate as the total fields they are taken from
            sc = max(np.abs(v).max(), np.abs(u[k[0]]).max())
            mismatch(f[src, FNAME[k]], v, sc, f"{what} field {FNAME[k]} of {s['kind']}", 1e-6)
        for rx, q in zip(src.receiver_list, s["rx"]):
            v = u[q["f"]]
            w = project(mesh, grid_of(c["form"], q["f"]), rx.locations, rx.orientation, v)
            w = w.real if q["c"] == "real" else w.imag
            sc = max(np.abs(v).max(), np.abs(u[q["f"][0]]).max())
            mismatch(d[i : i + w.size], w, sc, f"{what} data {q['f']} {q['c']} of {s['kind']}", 1e-6)
            i += w.size
            want.append(w)
            scales.append(np.full(w.size, sc))
        if not c["eps"] and c["cyl"] != "sym":
            q = f[src, "charge"]
            if c["form"] in "eb":
                rho_ref = -epsilon_0 * (mesh.nodal_gradient.T @ (ops.Me @ u["e"]))
            else:
                rho_ref = epsilon_0 * mesh.cell_volumes * (mesh.face_divergence @ u["e"])
            mismatch(q, rho_ref, np.abs(u["e"]).max() * epsilon_0 * np.max(mesh.cell_volumes) / np.min(mesh.h[0]) * 10, f"{what} charge of {s['kind']}", 1e-6)
    mismatch(d2, d, np.concatenate(scales).max() if i else 1.0, "dpred with and without fields", 1e-9)
    if not any(np.abs(w).max() > 0 for w in want):
        return ["trivial"]
    return [c["form"], c["prop"]] + [s["kind"] for s in c["srcs"]]


# ---------------------------------------------------------------------------------------------- time domain
def tcase(cyl):
    return c03.case(cyl)


def tsurvey(c, mesh, ops, r, T):
    """-> survey and for every source (source current on its grid, initial state)"""
    form, cyl, t0 = c["form"], c["cyl"], c["t0"]
    eb = form in "eb"
    pts, ctr = places(mesh, r, "sym" if cyl else "none")
    n = mesh.n_cells
    S, ref = [], []
    for s in c["srcs"]:
        rxs = []
        for q in s["rx"]:
            o = direction(q["o"], r)
            if cyl:
                o = "y" if q["f"] in ("e", "j") else ("z" if q["o"] in "yz" else "x")
            times = t0 + (T - t0) * np.sort(np.array(q["t"]))
            rxs.append(c03.RX[q["f"]](pts(q["n"]), times, orientation=o))
        k, w = s["kind"], s["wave"]
        if k == "line0" and w in c03.HAS_INIT:
            w = "tri"
        wv = c03.wave(w, T, t0, s["v"] / 3.0)
        init = w in c03.HAS_INIT
        o = "z" if cyl else ["x", "y", "z", "z"][s["v"]]
        if form in "hj" and mesh._meshType == "TREE" and k not in ("dip", "loop"):
            k = "dip"
        b0 = h0 = e0 = j0 = None
        if k in ("dip", "loop"):
            mu = mu_0
            if k == "dip":
                src = tdem.sources.MagDipole(rxs, location=ctr, moment=s["amp"], orientation=o, waveform=wv)
                fun = lambda x: dipole_a(x, ctr, s["amp"] * unit(o), mu_0)  # noqa: E731
            else:
                src = tdem.sources.CircularLoop(rxs, location=ctr, current=s["amp"], radius=3.0, n_turns=2, orientation=o, waveform=wv)
                loop = CircularLoopWholeSpace(mu=mu_0, location=ctr, orientation=unit(o), radius=3.0, current=s["amp"])
                fun = lambda x: 2 * np.nan_to_num(loop.vector_potential(x))  # noqa: E731
            if eb:
                b0 = ops.C @ on_edges(mesh, fun)
                hp = mesh.get_face_inner_product(np.full(n, 1 / mu_0)) @ b0
                se = ops.C.T @ hp
                if not np.allclose(ops.mu, mu_0, rtol=1e-12, atol=0):
                    # magnetostatics: div b = 0, h - hp is a gradient
                    D = mesh.face_divergence.toarray()
                    Mi = np.linalg.inv(ops.Mmui)
                    phi = np.linalg.solve(D @ Mi @ D.T, -D @ (Mi @ hp))
                    b0 = Mi @ (hp + D.T @ phi)
            else:
                h0 = ops.hp(fun, mu_0)
                se = ops.C @ h0
        else:
            if eb:
                p = pts(3)
                if k == "wire":
                    p = np.r_[p, p[:1]]
                se = s["amp"] * segmented_line_current_source_term(mesh, p)
            else:
                p = face_path(mesh, r)
                if k == "wire":
                    p = closed_path(mesh, r)
                se = s["amp"] * line_through_faces(mesh, p, normalize_by_area=True)
            if k == "raw":
                src = tdem.sources.RawVec_Grounded(rxs, s_e=se, location=p, waveform=wv)
            else:
                src = tdem.sources.LineCurrent(rxs, location=p, current=s["amp"], waveform=wv)
            if init and k == "wire":
                line = LineCurrentWholeSpace(p)
                fun = lambda x: s["amp"] * line.vector_potential(x)  # noqa: E731
                if eb:
                    b0 = ops.C @ on_edges(mesh, fun)
                else:
                    h0 = ops.hp(fun, mu_0)
            if init:
                if eb:
                    G = mesh.nodal_gradient.toarray()
                    e0 = -G @ np.linalg.lstsq(G.T @ ops.Msig @ G, G.T @ se, rcond=1e-12)[0]
                else:
                    D = np.diag(mesh.cell_volumes) @ mesh.face_divergence.toarray()
                    Mi = np.linalg.inv(ops.Mrho)
                    j0 = -Mi @ (D.T @ np.linalg.lstsq(D @ Mi @ D.T, D @ se, rcond=1e-12)[0])
                    if h0 is None:
                        # C h = s_e + j and div (mu h) = 0
                        h0 = magnetostatic_h(ops, se + j0)
        if not init:
            b0 = h0 = e0 = j0 = None
        S.append(src)
        ref.append((se, b0, h0, e0, j0, wv, init))
    return tdem.Survey(S), ref


def closed_path(mesh, r):
    g = [mesh.cell_centers_x, mesh.cell_centers_y, mesh.cell_centers_z]
    ax, bx = [(0, 1), (1, 2), (2, 0)][int(r.integers(3))]
    i0 = [int(r.integers(n)) for n in mesh.shape_cells]

    def nxt(i, a):
        return (i + 1 + int(r.integers(mesh.shape_cells[a] - 1))) % mesh.shape_cells[a]

    i1 = list(i0)
    i1[ax] = nxt(i0[ax], ax)
    i2 = list(i1)
    i2[bx] = nxt(i1[bx], bx)
    i3 = list(i0)
    i3[bx] = i2[bx]
    return np.array([[g[d][q[d]] for d in range(3)] for q in (i0, i1, i2, i3, i0)])


def magnetostatic_h(ops, js):
    # the h of least magnetic energy with the given curl
    L = np.linalg.cholesky(ops.Mmu)
    y = np.linalg.lstsq(np.linalg.solve(L, ops.C.T).T, js, rcond=1e-10)[0]
    return np.linalg.solve(L.T, y)


def tsolve(ops, ts, t0, src):
    """fields at all times"""
    se, b0, h0, e0, j0, wv, init = src
    mesh, C, form = ops.mesh, ops.C, ops.form
    times = t0 + np.r_[0.0, np.cumsum(ts)]
    cur = [float(wv.eval(t)) for t in times]
    if init:
        cur[0] = 1.0
    ne, nf = mesh.n_edges, mesh.n_faces
    out = {k: [] for k in ("e", "b", "h", "j", "dbdt", "dhdt")}
    if form == "e":
        e = np.zeros(ne) if e0 is None else e0
        g = se * cur[0] + ops.Msig @ e  # C^T h of the initial state
        K = C.T @ ops.Mmui @ C
        E = [e]
        for k, dt in enumerate(ts):
            e = np.linalg.solve(ops.Msig + dt * K, g - se * cur[k + 1])
            g = g - dt * (K @ e)
            E.append(e)
        B = [None] * len(E)
    elif form == "b":
        b = np.zeros(nf) if b0 is None else b0
        K = C.T @ ops.Mmui @ C
        B, E = [b], [np.linalg.solve(ops.Msig, C.T @ (ops.Mmui @ b) - se * cur[0])]
        for k, dt in enumerate(ts):
            e = np.linalg.solve(ops.Msig + dt * K, C.T @ (ops.Mmui @ b) - se * cur[k + 1])
            b = b - dt * (C @ e)
            B.append(b)
            E.append(e)
    else:
        K = C.T @ ops.Mrho @ C
        if form == "h":
            h = np.zeros(ne) if h0 is None else h0
            H, J = [h], [C @ h - se * cur[0]]
        else:
            j = np.zeros(nf) if j0 is None else j0
            J, H = [j], [None]
            g = j + se * cur[0]  # C h
        MI = np.linalg.inv(ops.Mmu)
        for k, dt in enumerate(ts):
            if form == "h":
                h = np.linalg.solve(ops.Mmu + dt * K, ops.Mmu @ h + dt * (C.T @ (ops.Mrho @ (se * cur[k + 1]))))
                H.append(h)
                J.append(C @ h - se * cur[k + 1])
            else:
                A = np.eye(nf) + dt * (C @ MI @ C.T @ ops.Mrho)
                j = np.linalg.solve(A, g - se * cur[k + 1])
                g = j + se * cur[k + 1]
                J.append(j)
                H.append(None)
        for h, j in zip(H, J):
            dh = -MI @ (C.T @ (ops.Mrho @ j))
            out["j"].append(j)
            out["e"].append(np.linalg.solve(ops.Mf, ops.Mrho @ j))
            out["dhdt"].append(dh)
            out["dbdt"].append(np.linalg.solve(ops.Me, ops.Mmu @ dh))
            if h is not None:
                out["h"].append(h)
                out["b"].append(np.linalg.solve(ops.Me, ops.Mmu @ h))
        return times, out
    for e, b in zip(E, B):
        out["e"].append(e)
        out["j"].append(np.linalg.solve(ops.Me, ops.Msig @ e))
        out["dbdt"].append(-C @ e)
        out["dhdt"].append(np.linalg.solve(ops.Mf, ops.Mmui @ (-C @ e)))
        if b is not None:
            out["b"].append(b)
            out["h"].append(np.linalg.solve(ops.Mf, ops.Mmui @ b))
    return times, out


def check_tdem(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    n = mesh.n_cells
    form = c["form"]
    eb = form in "eb"
    mu = mu_0 * (1 + r.random(n)) if c["mu"] == "const" else np.full(n, mu_0)
    kinds = [s["kind"] for s in c["srcs"]]
    # not provided: static fields of dipoles in permeable media (HJ), of closed wires in permeable media
    if (not eb and any(k in ("dip", "loop") for k in kinds)) or "wire" in kinds or (not eb and mesh._meshType == "TREE"):
        mu = np.full(n, mu_0)
    cc = dict(c, mu="default")
    kw, m = c02.prop_model(cc, n, r, mesh)
    if not np.all(mu == mu_0):
        kw["mu"] = mu
    sigma, _ = properties_of(c, kw, m, n)
    ts = np.concatenate([np.full(k, dt) for dt, k in c["steps"]])
    T = c["t0"] + ts.sum()
    ops = Ops(mesh, form, sigma, mu)
    survey, ref = tsurvey(c, mesh, ops, r, T)
    sim = c03.SIMS[form](mesh, survey=survey, time_steps=ts, t0=c["t0"], **kw)
    f = sim.fields(m)
    d = sim.dpred(m, f=f)
    i, size = 0, 0.0
    both = {k: f[survey.source_list, k, :] for k in c03.HAS[form]}
    single = {k: np.stack([np.asarray(f[s, k, :]).reshape(-1, len(ts) + 1) for s in survey.source_list], axis=1) for k in both}
    for k, v in both.items():
        mismatch(v, single[k], np.abs(single[k]).max() + 1e-300, f"TDEM {form} fields {k} of all sources at all times", 1e-9)
    for src, s, t in zip(survey.source_list, c["srcs"], ref):
        times, u = tsolve(ops, ts, c["t0"], t)
        what = f"TDEM {form} {s['kind']} {s['wave']}"
        scale = {k: max(np.abs(x).max() for x in v) if v else 0.0 for k, v in u.items()}
        for k, v in u.items():
            if not v:
                continue
            if k in ("h", "b") and form in "ej":
                continue
            if k == "h" and form == "e":
                continue
            first = 1 if k in ("dbdt", "dhdt", "e", "j") else 0
            for ti in range(first, len(times)):
                mismatch(f[src, k, ti], v[ti], scale[k] + 1e-300, f"{what} field {k} at time {ti}", 1e-6)
        for rx, q in zip(src.receiver_list, s["rx"]):
            v = np.array(u[q["f"]])
            proj = np.array([project(mesh, grid_of(form, q["f"]), rx.locations, rx.orientation, x) for x in v])
            w = np.array([[np.interp(tt, times, proj[:, k]) for k in range(proj.shape[1])] for tt in rx.times]).ravel()
            mismatch(d[i : i + w.size], w, scale[q["f"]] + 1e-300, f"{what} data {q['f']}", 1e-6)
            i += w.size
            size = max(size, np.abs(w).max())
    if not size > 0:
        return ["trivial"]
    return [form] + kinds + [s["wave"] for s in c["srcs"]]


# ---------------------------------------------------------------------------------------------- layered earth
def st_layers():
    return st.fixed_dictionaries(
        {
            "domain": st.sampled_from(["f", "t"]),
            "form": st.sampled_from("eb"),
            "source": st.sampled_from(["dip", "loop"]),
            "nl": st.integers(1, 3),
            "rho": st.lists(st.sampled_from([3.0, 10.0, 30.0, 100.0]), min_size=3, max_size=3),
            "z": st.sampled_from([5.0, 10.0, 20.0]),
            "freq": st.sampled_from([100.0, 1e3, 5e3]),
            "amp": st.sampled_from([1.0, 4.0]),
            "r": st.sampled_from([10.0, 30.0, 50.0]),
            "seed": gen.seeds,
        }
    )


def check_layers(c):
    import discretize
    from simpeg import maps

    r = gen.rng(c)
    h = 2.5
    hr = np.r_[np.full(30, h), h * 1.3 ** np.arange(1, 22)]
    hz = np.r_[h * 1.3 ** np.arange(21, 0, -1), np.full(36, h), h * 1.3 ** np.arange(1, 22)]
    mesh = discretize.CylindricalMesh([hr, 1, hz], origin=[0, 0, 0])
    zc = hz[:21].sum() + 24 * h  # the surface
    mesh.origin = np.r_[0.0, 0.0, -zc]
    nl = c["nl"]
    th = h * r.integers(2, 8, nl - 1)
    sig = 1 / np.array(c["rho"][:nl])
    z = mesh.cell_centers[:, 2]
    bottom = -np.cumsum(th)
    layer = np.sum(z[:, None] < bottom[None, :], axis=1) if nl > 1 else np.zeros(len(z), int)
    sigma = np.where(z > 0, 1e-8, sig[layer])
    src_loc = np.r_[0.0, 0.0, c["z"]]
    # receivers at the height of the source
    if c["domain"] == "t":
        c = dict(c, r=10.0)  # no change of sign at these times
    xr = np.r_[c["r"] if c["source"] == "dip" else 0.0, 0.0, c["z"]]
    kw = {} if c["source"] == "dip" else {"radius": 6.0, "current": c["amp"]}
    if c["source"] == "dip":
        kw["moment"] = c["amp"]
    if c["domain"] == "f":
        comps = ["real", "imag"]
        rx = [fdem.receivers.PointMagneticFluxDensitySecondary(xr[None], orientation="z", component=k) for k in comps]
        rx1 = [fdem.receivers.PointMagneticFieldSecondary(xr[None], orientation="z", component=k) for k in comps]
        S = fdem.sources.MagDipole if c["source"] == "dip" else fdem.sources.CircularLoop
        sim = c02.SIMS[c["form"]](mesh, survey=fdem.Survey([S(rx, c["freq"], location=src_loc, **kw)]), sigmaMap=maps.IdentityMap(nP=mesh.n_cells))
        sim1 = fdem.Simulation1DLayered(survey=fdem.Survey([S(rx1, c["freq"], location=src_loc, **kw)]), thicknesses=th, sigmaMap=maps.IdentityMap(nP=nl))
        d, w = sim.dpred(sigma), mu_0 * sim1.dpred(sig)
        scale, tol = np.abs(w).max(), 0.06
    else:
        t = np.array([6e-5, 1.2e-4, 4e-4])
        ts = np.concatenate([np.full(20, 5e-7), np.full(30, 1e-6), np.full(30, 3e-6), np.full(40, 8e-6)])
        rx = [tdem.receivers.PointMagneticFluxTimeDerivative(xr[None], t, orientation="z")]
        rx1 = [tdem.receivers.PointMagneticFluxTimeDerivative(xr[None], t, orientation="z")]
        S = tdem.sources.MagDipole if c["source"] == "dip" else tdem.sources.CircularLoop
        wv = tdem.sources.StepOffWaveform()
        sim = c03.SIMS[c["form"]](mesh, survey=tdem.Survey([S(rx, location=src_loc, waveform=wv, **kw)]), time_steps=ts, sigmaMap=maps.IdentityMap(nP=mesh.n_cells))
        sim1 = tdem.Simulation1DLayered(survey=tdem.Survey([S(rx1, location=src_loc, waveform=wv, **kw)]), thicknesses=th, sigmaMap=maps.IdentityMap(nP=nl))
        d, w = sim.dpred(sigma), sim1.dpred(sig)
        scale, tol = np.abs(w), 0.25
    bad = np.abs(d - w) / scale
    if not np.all(bad < tol):
        fail(f"layered earth, {c['domain']} {c['form']} {c['source']}: {d}, the layered simulation gives {w}")
    return [c["domain"], c["form"], c["source"]]


SUBS = [
    Sub("fdem", fcase("none"), check_fdem, quick=200, thorough=3000, shards=4, cost=4),
    Sub("fdem_sym", fcase("sym"), check_fdem, quick=120, thorough=2000, shards=1, cost=2),
    Sub("fdem_cyl", fcase("cyl"), check_fdem, quick=60, thorough=800, shards=2, cost=3),
    Sub("tdem", tcase(False), check_tdem, quick=160, thorough=3000, shards=4, cost=4),
    Sub("tdem_sym", tcase(True), check_tdem, quick=100, thorough=2000, shards=1, cost=2),
    Sub("layers", st_layers(), check_layers, quick=24, thorough=600, shards=2, cost=3),
]
