"""C16: predicted gravity and magnetic data are the fields of the prisms in the model."""

import itertools

import numpy as np
import scipy.linalg
from hypothesis import strategies as st
from scipy.constants import G as NEWTON
from scipy.constants import mu_0
from simpeg.potential_fields import gravity, magnetics

from checks import c06_pf
from lib import gen, pf
from lib.oracle import close, nrm, require
from lib.pbt import Sub

PROPERTY = "C16"
RULE = (
    "A case is a mesh (tensor, tree, or a 2D mesh with layer tops and bottoms), active cells, physical properties (scalar or "
    "vector magnetization), a background field, and 1-3 receivers with 1-3 of all supported components at places above, "
    "below and beside the cells, also exactly in line with their edges. The data of every engine / storage / precision are "
    "compared with Gauss quadrature of the point-mass / point-dipole field over every cell, entry by entry; the finite-volume "
    "magnetic fields with the discrete equations they solve. Non-trivial: a non-zero field whose quadrature has converged."
)
ASSUMPTIONS = [
    "receivers at least 0.6 of the largest cell width away from the cells",
    "units: mGal for gravity, Eotvos for its gradient, nT and nT/m for magnetics; z positive up; density in g/cc",
]

_n = itertools.count()


def tensors(x, q, w):
    """sum over quadrature points of 1/r derivatives: g (…,3), T2 (3,3), T3 (3,3,3) per (location, cell)"""
    r = x[:, None, None, :] - q[None]  # (nx, nc, nq, 3)
    R = np.linalg.norm(r, axis=-1)
    I = np.eye(3)
    g = np.einsum("cq,xcqi->xci", w, -r / R[..., None] ** 3)
    t2 = np.einsum("cq,xcqi,xcqj->xcij", w, r / R[..., None] ** 5, 3 * r) - np.einsum("cq,xcq,ij->xcij", w, R**-3, I)
    s = np.einsum("cq,xcqi->xci", w, r / R[..., None] ** 5)
    t3 = -15 * np.einsum("cq,xcqi,xcqj,xcqk->xcijk", w, r / R[..., None] ** 7, r, r)
    t3 = t3 + 3 * (np.einsum("ij,xck->xcijk", I, s) + np.einsum("ik,xcj->xcijk", I, s) + np.einsum("jk,xci->xcijk", I, s))
    return g, t2, t3


def quad(bounds, n):
    t, w = np.polynomial.legendre.leggauss(n)
    t, w = (t + 1) / 2, w / 2
    q = []
    for i in range(3):
        a, b = bounds[:, 2 * i], bounds[:, 2 * i + 1]
        q.append(a[:, None] + (b - a)[:, None] * t)
    idx = np.array(list(itertools.product(range(n), repeat=3)))
    Q = np.stack([q[i][:, idx[:, i]] for i in range(3)], axis=-1)
    V = np.prod(bounds[:, 1::2] - bounds[:, ::2], axis=1)
    W = V[:, None] * np.prod(w[idx], axis=1)
    return Q, W


AX = {"x": 0, "y": 1, "z": 2}


def rows(comp, g, t2, t3, mag=None, f0=None):
    """(nx, ncells) for gravity;  (nx, ncells, 3) per magnetization component for magnetics"""
    if mag is None:
        if comp == "guv":
            return 1e12 * NEWTON * 0.5 * (t2[..., 1, 1] - t2[..., 0, 0])
        k = [AX[a] for a in comp[1:]]
        return 1e8 * NEWTON * g[..., k[0]] if len(k) == 1 else 1e12 * NEWTON * t2[..., k[0], k[1]]
    if comp == "tmi":
        return np.einsum("xcij,i->xcj", t2, f0) / (4 * np.pi)
    if comp.startswith("tmi_"):
        return np.einsum("xcij,i->xcj", t3[..., AX[comp[-1]], :, :], f0) / (4 * np.pi)
    k = [AX[a] for a in comp[1:]]
    return (t2[..., k[0], :] if len(k) == 1 else t3[..., k[0], k[1], :]) / (4 * np.pi)


def reference(c, locs, bounds, prop, mag, n):
    """data from quadrature of order n; prop (nA,) density or (nA, 3) magnetization in nT"""
    Q, W = quad(bounds, n)
    f0 = None
    if mag:
        inc, dec = np.deg2rad(c["field"][1]), np.deg2rad(c["field"][2])
        f0 = np.r_[np.cos(inc) * np.sin(dec), np.cos(inc) * np.cos(dec), -np.sin(inc)]
    out, mag_rows = [], []
    for x, rx in zip(locs, c["rx"]):
        T = tensors(x, Q, W)
        d, a = [], []
        for comp in rx["comps"]:
            K = rows(comp, *T, mag=mag or None, f0=f0)
            d.append(np.einsum("xcj,cj->x", K, prop) if mag else K @ prop)
            a.append(np.einsum("xcj,cj->x", np.abs(K), np.abs(prop)) if mag else np.abs(K) @ np.abs(prop))
        out.append(np.stack(d, axis=1).ravel())
        mag_rows.append(np.stack(a, axis=1).ravel())
    return np.concatenate(out), np.concatenate(mag_rows), f0


VARIANTS = [
    ("geoana", "ram", "f64"),
    ("geoana", "ram", "f32"),
    ("geoana", "forward_only", "f32"),
    ("geoana", "disk", "f64"),
    ("choclo", "ram", "f64"),
    ("choclo", "ram", "f32"),
    ("choclo", "forward_only", "f64"),
    ("choclo", "disk", "f64"),
]


def case(mag, layer):
    d = {
        "mesh": pf.mesh2() if layer else pf.mesh3(),
        "active": st.sampled_from(["all", "some", "flat"] if layer else ["all", "some"]),
        "rx": pf.receivers(pf.MAG if mag else pf.GRAV),
        "variants": st.lists(st.sampled_from(VARIANTS), min_size=1, max_size=3, unique=True),
        "par": st.sampled_from([False] * 9 + [True]),
        "map": st.sampled_from(["id", "exp", "units"]),
        "seed": gen.seeds,
    }
    if mag:
        d.update(field=pf.field, type=st.sampled_from(["scalar", "vector"]), ampl=st.sampled_from([False, False, True]))
        d["M"] = st.sampled_from([False, False, False, True])
    return st.fixed_dictionaries(d)


def prisms(c, mag, layer):
    r = gen.rng(c)
    c = dict(c)
    mesh, act, kw, bounds, box, nodes, gap = pf.geometry(c, r)
    locs = pf.locations(c, box, nodes, gap, r)
    nA = int(act.sum())
    ampl = bool(mag and c["ampl"])
    if ampl:
        c["rx"] = [dict(rx, comps=["bx", "by", "bz"]) for rx in c["rx"]]
    vec = mag and c["type"] == "vector"
    mp, m = pf.make_map(c["map"], 3 * nA if vec else nA, r)
    p = np.asarray(mp * m)
    userM = None
    if mag:
        amp, inc, dec = c["field"]
        i_, d_ = np.deg2rad(inc), np.deg2rad(dec)
        b0 = amp * np.r_[np.cos(i_) * np.sin(d_), np.cos(i_) * np.cos(d_), -np.sin(i_)]
        if vec:
            prop = amp * p.reshape((nA, 3), order="F")
        elif c["M"]:
            userM = amp * r.standard_normal((nA, 3))
            prop = p[:, None] * userM
        else:
            prop = p[:, None] * b0
    else:
        prop = p
    # enough quadrature points for the closest receiver, few when there are many cells
    n = 10 if nA * sum(rx["n"] for rx in c["rx"]) < 400 else 7
    ref, scale, f0 = reference(c, locs, bounds, prop, mag, n)
    low, _, _ = reference(c, locs, bounds, prop, mag, n - 2)
    unc = np.abs(ref - low)
    if ampl:
        B, S, U = (a.reshape(-1, 3) for a in (ref, scale, unc))
        ref = np.linalg.norm(B, axis=1)
        scale, unc = np.linalg.norm(S, axis=1), np.linalg.norm(U, axis=1)
    mod = magnetics if mag else gravity
    cls = mod.SimulationEquivalentSourceLayer if layer else mod.Simulation3DIntegral
    lab = []
    for engine, store, dt in c["variants"]:
        if userM is not None:
            engine = "geoana"
        c.update(engine=engine, store=store, dtype=dt)
        k = dict(kw)
        k.update(pf.store_kw(c, tag=f"{next(_n)}"))
        sv = pf.survey(c, locs, "mag" if mag else "grav", ampl)
        if mag:
            k.update(chiMap=mp, model_type=c["type"], is_amplitude_data=ampl)
        else:
            k.update(rhoMap=mp)
        sim = cls(mesh, active_cells=act, survey=sv, **k)
        if userM is not None:
            sim.M = userM
        d = np.asarray(sim.dpred(m), float)
        what = f"{'magnetic' if mag else 'gravity'} {'layer' if layer else 'prism'} data {engine}/{store}/{dt}"
        require(d.shape == ref.shape, f"{what}: {d.shape} data, expected {ref.shape}")
        tol = (3e-5 if dt == "f32" and store != "forward_only" else 1e-6) * scale + 5 * unc
        bad = np.abs(d - ref) > tol
        if bad.any():
            i = int(np.flatnonzero(bad)[0])
            comps = list(itertools.chain(*[[cc for _ in range(rx["n"]) for cc in (["|b|"] if ampl else rx["comps"])] for rx in c["rx"]]))
            require(False, f"{what}: datum {i} ({comps[i]}) is {d[i]!r}, the cells produce {ref[i]!r} (+- {tol[i]:.1e})")
        lab.append(f"{engine}/{store}")
    if not np.any((unc < 1e-3 * scale) & (np.abs(ref) > 1e-9 * scale)):
        lab.append("trivial")
    return lab


# ------------------------------------------------ finite-volume magnetic fields

field_case = c06_pf.diff_case


def finite_volume(c):
    """div b = 0 and curl h = 0 hold exactly in the discrete equations; data are the
    interpolated b; tmi is the change of the total-field amplitude."""
    r = gen.rng(c)
    mesh, m, make = c06_pf.diff_setup(c, r)
    sim = make()
    f = sim.fields(m)
    b, u = np.asarray(f["b"]).ravel(), np.asarray(f["u"]).ravel()
    amp, inc, dec = c["field"]
    i_, d_ = np.deg2rad(inc), np.deg2rad(dec)
    b0v = amp * np.r_[np.cos(i_) * np.sin(d_), np.cos(i_) * np.cos(d_), -np.sin(i_)]
    b0 = np.r_[np.full(mesh.n_faces_x, b0v[0]), np.full(mesh.n_faces_y, b0v[1]), np.full(mesh.n_faces_z, b0v[2])]
    D = (sim_volume(mesh) @ mesh.face_divergence).toarray()
    mu = np.broadcast_to(np.asarray(sim.mu, float), (mesh.n_cells,))
    Mmui = mesh.get_face_inner_product(1 / mu).toarray()
    M0 = mesh.get_face_inner_product(1 / mu_0).toarray()
    h = Mmui @ (b + b0) - M0 @ b0
    if sim.rem is not None:
        h = h - mesh.get_face_inner_product(np.asarray(sim.rem) / np.tile(mu, 3)).diagonal()
    sc = nrm(Mmui @ b) + nrm(M0 @ b0)
    div = D @ b
    require(nrm(div) <= 1e-8 * nrm(np.abs(D) @ np.abs(b)) + 1e-10 * nrm(np.abs(D) @ np.abs(b0)), f"finite-volume magnetics: div b = {nrm(div):.2e}")
    N = scipy.linalg.null_space(D)
    require(
        nrm(N.T @ h) <= 1e-7 * sc, f"finite-volume magnetics {c['par']}: the secondary h is not a gradient ({nrm(N.T @ h):.2e} of {sc:.2e})"
    )
    close(-D.T @ u, h, "finite-volume magnetics: h is not the gradient of the stored potential", 1e-7, atol=1e-8 * sc)
    d = np.asarray(sim.dpred(m))
    out = []
    for rx in sim.survey.source_field.receiver_list:
        P = [mesh.get_interpolation_matrix(rx.locations, k) for k in ("faces_x", "faces_y", "faces_z")]
        bs = np.stack([p @ b for p in P], axis=1)
        for comp in rx.components:
            out.append(
                np.linalg.norm(bs + b0v, axis=1) - amp if comp == "tmi" else bs[:, AX[comp[1]]]
            )
    close(d, np.concatenate(out), "finite-volume magnetic data", 1e-8, atol=1e-9 * amp)
    return ["trivial"] if nrm(d) == 0 else [c["par"]]


def sim_volume(mesh):
    import scipy.sparse as sp

    return sp.diags(mesh.cell_volumes)


SUBS = [
    Sub("gravity", case(False, False), lambda c: prisms(c, False, False), quick=260, thorough=5000, shards=2),
    Sub("gravity-layer", case(False, True), lambda c: prisms(c, False, True), quick=130, thorough=3000, shards=1),
    Sub("magnetics", case(True, False), lambda c: prisms(c, True, False), quick=340, thorough=6000, shards=3),
    Sub("magnetics-layer", case(True, True), lambda c: prisms(c, True, True), quick=160, thorough=3000, shards=1),
    Sub("finite-volume", field_case, finite_volume, quick=120, thorough=1500, shards=1),
]
