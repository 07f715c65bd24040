"""C30: mass matrices are the volume integrals of the current property, their inverses invert them, their derivatives are their derivatives, whatever was asked before."""

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from lib import gen
from lib.oracle import close, nrm, require
from lib.pbt import Sub

PROPERTY = "C30"
RULE = (
    "A case is a generated mesh (tensor in 1-3 dimensions, tree, cylindrical), a property (conductivity, resistivity, permeability, its inverse) given as a number, per cell, per cell and axis, or through a map (of it or of its reciprocal), "
    "and a history of 1-5 steps (new model, new property, new map, questions) after each of which one matrix, its inverse and its derivatives are asked with one or several fields. Non-trivial: the property varies."
)
ASSUMPTIONS = ["face and edge matrices are judged against discretize and, for isotropic properties on tensor meshes, against sums over the neighbouring cells", "inverses of anisotropic properties are those of diagonal tensors", "reciprocals of anisotropic properties are taken per axis"]

case = st.fixed_dictionaries(
    {
        "mesh": st.one_of(st.sampled_from([1, 2, 3]).flatmap(lambda d: gen.tensor_mesh(d, 2, 4)), gen.tree_mesh(logn=(2, 2)), gen.cyl_mesh()),
        "prop": st.sampled_from(["sigma", "rho", "mu", "mui"]),
        "given": st.sampled_from(["number", "cell", "axis", "map", "map", "recip", "recip", "mapaxis"]),
        "map": st.sampled_from(["exp", "scale", "inject", "square"]),
        "steps": st.lists(st.sampled_from(["model", "value", "map", "ask", "model"]), min_size=1, max_size=5),
        "where": st.sampled_from(["cc", "n", "f", "e"]),
        "cols": st.integers(1, 3),
        "seed": gen.seeds,
    }
)
RECIP = {"sigma": "rho", "rho": "sigma", "mu": "mui", "mui": "mu"}


def build(c):
    from simpeg.base import BaseElectricalPDESimulation, BaseMagneticPDESimulation

    return {"sigma": BaseElectricalPDESimulation, "rho": BaseElectricalPDESimulation}.get(c["prop"], BaseMagneticPDESimulation)


def make_map(kind, n, r):
    from simpeg import maps

    if kind == "exp":
        return maps.ExpMap(nP=n), lambda m: np.exp(m), lambda: r.uniform(-1, 1, n)
    if kind == "scale":
        s = r.uniform(0.5, 2, n)
        return maps.LinearMap(sp.diags(s).tocsr()), lambda m: s * m, lambda: r.uniform(0.5, 2, n)
    if kind == "square":
        e = r.uniform(1, 2)
        P = sp.csr_matrix(r.uniform(0, 1, (n, 3)) + 0.2)
        return maps.ExpMap(nP=n) * maps.LinearMap(P * e), lambda m: np.exp(e * (P @ m)), lambda: r.uniform(-0.5, 0.5, 3)
    k = max(1, n // 2)
    idx = r.integers(k, size=n)
    P = sp.csr_matrix((np.ones(n), (np.arange(n), idx)), (n, k))
    return maps.LinearMap(P) * maps.ExpMap(nP=k), lambda m: P @ np.exp(m), lambda: r.uniform(-1, 1, k)


def run(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    prop, rec = c["prop"], RECIP[c["prop"]]
    nc = mesh.n_cells
    given = c["given"]
    ax = {"tensor": mesh.dim, "tree": mesh.dim, "cyl": 0}[c["mesh"]["kind"]]
    if given in ("axis", "mapaxis") and (ax < 2 or c["where"] in ("cc", "n")):
        given = {"axis": "cell", "mapaxis": "map"}[given]
    n = nc * ax if given in ("axis", "mapaxis") else nc
    where = c["where"]
    if c["mesh"]["kind"] == "cyl" and where == "n":
        where = "f"
    T = {"cc": "Mcc", "n": "Mn", "f": "Mf", "e": "Me"}[where]
    size = {"cc": nc, "n": mesh.n_nodes, "f": mesh.n_faces, "e": mesh.n_edges}[where]
    V = np.asarray(mesh.cell_volumes)
    A = prop.capitalize()
    scale = 10 ** r.uniform(-3, 3)
    sim = None
    f = grab = None
    mapped = given in ("map", "recip", "mapaxis")
    m = None

    def value():
        if given == "number":
            return float(r.uniform(0.5, 2) * scale)
        return r.uniform(0.5, 2, n) * scale

    if mapped:
        mp, f, grab = make_map(c["map"], n, r)
        name = (rec if given == "recip" else prop) + "Map"
        sim = build(c)(mesh, **{name: mp})
        m = grab()
        sim.model = m
    else:
        now = value()
        sim = build(c)(mesh, **{prop: now})

    def current(mm):
        if not mapped:
            return now
        p = f(mm)
        return 1.0 / p if given == "recip" else p

    def matrix(p):
        if where == "cc":
            return sp.diags(V * p)
        if where == "n":
            return sp.diags(mesh.aveN2CC.T @ (V * p * np.ones(nc)))
        p = p * np.ones(nc) if np.ndim(p) == 0 else p
        return (mesh.get_face_inner_product if where == "f" else mesh.get_edge_inner_product)(model=p)

    def ask(step):
        p = current(m)
        M = matrix(p)
        what = f"{T}{A} of {c['mesh']['kind']} mesh, {given}, after {step}"
        close(getattr(sim, prop) * np.ones(n), np.ravel(p) * np.ones(n), f"{prop}, {given}, after {step}", 1e-12)
        u = r.standard_normal(size)
        close(getattr(sim, f"{T}{A}") @ u, M @ u, what, 1e-10)
        if c["mesh"]["kind"] == "tensor" and n == nc and where in "fe":
            close(getattr(sim, f"{T}{A}").diagonal(), neighbours(mesh, V * p, where), what + ": half the volume of each neighbour", 1e-10)
        close(M @ (getattr(sim, f"{T}{A}I") @ u), u, what + ": the inverse", 1e-9)
        for inv in ("", "I"):
            D = getattr(sim, f"{T}{A}{inv}Deriv")
            w = what + f", derivative{' of the inverse' if inv else ''}"
            if not mapped:
                z = D(u)
                require(type(z).__name__ == "Zero", f"{w}: the property is fixed, but got {z!r}")
                continue
            vs = r.standard_normal(m.size)
            h = 1e-5
            g = [matrix(current(m + s * h * vs)) for s in (1, -1)]
            if inv:
                g = [sp.diags(1.0 / x.diagonal()) for x in g]
            fd = (g[0] @ u - g[1] @ u) / (2 * h)
            J = D(u)
            require(J.shape == (size, m.size), f"{w}: shape {J.shape}")
            close(J @ vs, fd, w, 1e-6)
            close(D(u, vs), J @ vs, w + ": as a product", 1e-10)
            y = r.standard_normal(size)
            close(D(u, y, adjoint=True), J.T @ y, w + ": transposed", 1e-10)
            close(D(u, adjoint=True) @ y, J.T @ y, w + ": transposed matrix", 1e-10)
            U = r.standard_normal((size, c["cols"]))
            Js = [D(U[:, k]) for k in range(c["cols"])]
            got = np.asarray(D(U, vs)).reshape(size, -1)
            close(got, np.stack([j @ vs for j in Js], axis=1), w + f", {c['cols']} fields", 1e-9)
            Y = r.standard_normal((size, c["cols"]))
            close(np.ravel(D(U, Y, adjoint=True)), sum(j.T @ Y[:, k] for k, j in enumerate(Js)), w + f", {c['cols']} fields, transposed", 1e-9)
            close(np.asarray(D(U) @ vs).reshape((c["cols"], size)).T, got, w + f", {c['cols']} fields, as a matrix", 1e-9)

    ask("the start")
    for s in c["steps"]:
        if s == "model" and mapped:
            m = grab()
            sim.model = m
        elif s == "value" and not mapped:
            now = value()
            setattr(sim, prop, now)
        elif s == "map" and mapped:
            mp, f, grab = make_map(c["map"], n, r)
            setattr(sim, name, mp)
            if r.random() < 0.5:
                m = grab()
                sim.model = m
        else:
            s = "ask"
        ask(s)
    vary = np.ptp(np.ravel(current(m))) > 1e-9 * nrm(np.ravel(current(m)))
    return [given, where] if vary else ["trivial"]


def neighbours(mesh, vp, where):
    """Diagonal of an isotropic face or edge matrix of a tensor mesh: every cell gives each of its faces half, each of its edges a share of its volume."""
    h = [np.asarray(x) for x in mesh.h]
    dim = len(h)
    q = (vp * np.ones(mesh.n_cells)).reshape([x.size for x in h], order="F")
    out = []
    for a in range(dim):
        spread = [a] if where == "f" else [b for b in range(dim) if b != a]
        g = q
        for b in spread:
            pad = [(0, 0)] * dim
            pad[b] = (1, 0)
            left = np.pad(g, pad)
            pad[b] = (0, 1)
            g = 0.5 * (left + np.pad(g, pad))
        out.append(g.ravel(order="F"))
    return np.concatenate(out)


SUBS = [Sub("mass", case, run, quick=400, thorough=10000, shards=4, cost=1.0)]
