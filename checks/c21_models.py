"""C21: models, weights, topography and vector utilities are what their definitions say, for any mesh, shape, order of the arguments and points."""

import itertools
import warnings

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st

from lib import gen
from lib.oracle import close, nrm, require
from lib.pbt import Sub

PROPERTY = "C21"
RULE = (
    "A case is a generated mesh of one, two or three dimensions (tensor or tree, any origin) with a shape (block, sphere, ellipse, hull, layers) or with reference points, active cells and exponents for weights, or with "
    "active cells under a generated surface and points to drape; or vectors and matrices. Non-trivial: the shape holds some cells and not all of them; the weights differ; the points are not all on one cell."
)
ASSUMPTIONS = ["cell centres within rounding of the boundary of a shape may be on either side", "every column of the mesh holds an active cell when topography is asked for"]


def is_tree(c):
    return c["mesh"]["kind"] == "tree"


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def meshes(dims=(1, 2, 3)):
    return {"mesh": st.one_of(st.sampled_from(dims).flatmap(lambda d: gen.tensor_mesh(d, 3, 6)), gen.tree_mesh())}


shape_case = st.fixed_dictionaries(
    {**meshes(), "kind": st.sampled_from(["block", "add", "wholespace", "sphere", "ellipse", "hull", "layers", "two", "function"]), "swap": st.booleans(), "asmesh": st.booleans(), "nl": st.integers(1, 5), "order": st.sampled_from(["down", "up", "any"]), "seed": gen.seeds}
)


def shapes(c):
    from simpeg.utils import model_builder as mb

    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    cc = np.array(mesh.cell_centers).reshape(mesh.n_cells, -1)
    dim = cc.shape[1]
    lo, hi = cc.min(axis=0), cc.max(axis=0)
    L = hi - lo + 1e-9
    arg = mesh if c["asmesh"] and dim > 1 else cc
    kind = c["kind"]
    tol = 1e-9 * (np.abs(cc).max() + L.max())
    v0, v1 = r.standard_normal(2)
    if kind in ("block", "add", "wholespace"):
        p, q = np.sort(lo + L * r.uniform(-0.3, 1.3, (2, dim)), axis=0)
        if r.random() < 0.3:  # corners on cell centres belong to the block
            p = cc[r.integers(len(cc))].copy()
            q = np.maximum(q, p)
        inside = np.all((cc >= p) & (cc <= q), axis=1)
        a, b = p.copy(), q.copy()
        if c["swap"]:
            k = r.integers(dim)
            a[k], b[k] = q[k], p[k]
        if kind == "block":
            got = quiet(mb.get_indices_block, a, b, arg if dim > 1 or r.random() < 0.5 else cc[:, 0])
            require(np.array_equal(np.sort(got), np.flatnonzero(inside)), f"cells of the block {a} {b}: {got}, should be {np.flatnonzero(inside)}")
        elif kind == "add":
            m = r.standard_normal(len(cc))
            keep = m.copy()
            got = mb.add_block(arg if dim > 1 or r.random() < 0.5 else cc[:, 0], m, a, b, v1)
            require(np.array_equal(m, keep), "add_block changed the model passed in")
            close(got, np.where(inside, v1, m), "add_block")
        else:
            got = mb.create_block_in_wholespace(arg if dim > 1 or r.random() < 0.5 else cc[:, 0], a, b, *((v0, v1) if r.random() < 0.5 else ((v0, v1),)))
            close(got, np.where(inside, v1, v0), "create_block_in_wholespace")
    elif kind == "sphere":
        o, R = lo + L * r.uniform(0, 1, dim), L.max() * r.uniform(0.05, 0.8)
        d = np.array([sum((x - y) ** 2 for x, y in zip(row, o)) ** 0.5 for row in cc])
        inside = d < R
        got = np.zeros(len(cc), bool)
        got[mb.get_indices_sphere(o, R, arg)] = True
        bad = (got != inside) & (np.abs(d - R) > tol)
        require(not bad.any(), f"sphere at {o}, radius {R}: cells {np.flatnonzero(bad)} are on the wrong side")
    elif kind == "ellipse":
        o = lo + L * r.uniform(0, 1, dim)
        an = L.max() * r.uniform(0.2, 1.5, 3)[:dim]
        th, slope = r.uniform(-180, 180), r.choice([1.0, 10.0])
        t = np.deg2rad(th)
        rel = cc - o
        if dim > 1:
            rel = np.c_[rel[:, 0] * np.cos(t) + rel[:, 1] * np.sin(t), -rel[:, 0] * np.sin(t) + rel[:, 1] * np.cos(t), rel[:, 2:]]
        elif dim == 1:
            th, rel = 0.0, rel
        D = np.sqrt(((rel / an * 2) ** 2).sum(axis=1))
        keep = cc.copy()
        got = mb.create_ellipse_in_wholespace(arg, center=o, anisotropy=an, slope=slope, theta=th)
        require(np.array_equal(np.array(mesh.cell_centers).reshape(cc.shape), keep), "create_ellipse_in_wholespace moved the cell centres")
        close(got, 0.5 - np.arctan((D - 1) * slope) / np.pi, "ellipse", 1e-9, atol=1e-9)
        inside = D < 1
    elif kind == "hull":
        if dim == 1:
            return ["trivial"]
        pts = lo + L * r.uniform(-0.2, 1.2, (dim + 1, dim))
        try:
            bary = np.linalg.solve(np.r_[pts.T, np.ones((1, dim + 1))], np.r_[cc.T, np.ones((1, len(cc)))])
        except np.linalg.LinAlgError:
            return ["trivial"]
        margin = bary.min(axis=0)
        inside = margin > 0
        got = np.zeros(len(cc), bool)
        got[mb.get_indices_polygon(mesh, pts)] = True
        bad = (got != inside) & (np.abs(margin) > 1e-6)
        require(not bad.any(), f"hull of {pts}: cells {np.flatnonzero(bad)} are on the wrong side")
    elif kind == "layers":
        tops = lo[-1] + L[-1] * np.sort(r.uniform(-0.2, 1.2, c["nl"]))[::-1]
        vals = r.standard_normal(c["nl"])
        want = np.zeros(len(cc))
        for i in range(len(cc)):
            above = [k for k in range(len(tops)) if cc[i, -1] <= tops[k]]
            want[i] = vals[above[-1]] if above else 0.0
        perm = {"down": np.arange(c["nl"]), "up": np.arange(c["nl"])[::-1], "any": r.permutation(c["nl"])}[c["order"]]
        got = mb.create_layers_model(arg, tops[perm], vals[perm])
        close(got, want, f"layers with tops {tops[perm]} and values {vals[perm]}")
        inside = want == want[0]
    elif kind == "two":
        depth = L[-1] * r.uniform(0.05, 0.95)
        want_bottom = cc[:, -1] <= hi[-1] - depth
        border = np.abs(cc[:, -1] - (hi[-1] - depth)) < tol
        if is_tree(c):
            return ["trivial"]  # the first and last cell of a tree mesh need not be corners
        got = mb.create_2_layer_model(cc, depth, *((v0, v1) if r.random() < 0.5 else ((v0, v1),)))
        close(got[~border], np.where(want_bottom, v1, v0)[~border], "two layers, the top value above the interface")
        inside = want_bottom
    else:
        w = r.standard_normal(dim)
        got = mb.create_from_function(arg, lambda *x: sum(a * b for a, b in zip(w, x)))
        close(got, cc @ w, "model from a function", scale=np.abs(cc).max())
        inside = cc[:, 0] > lo[0]
    return [kind] if inside.any() and not inside.all() else ["trivial"]


weight_case = st.fixed_dictionaries(
    {**meshes(), "kind": st.sampled_from(["depth", "depth_loc", "distance"]), "nref": st.integers(1, 6), "exponent": st.sampled_from([0.5, 1.0, 2.0, 3.0]), "thr": st.booleans(), "act": st.booleans(), "engine": st.sampled_from(["numba", "scipy"]), "seed": gen.seeds}
)


def weights(c):
    from simpeg.utils import depth_weighting, distance_weighting

    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    cc = np.array(mesh.cell_centers).reshape(mesh.n_cells, -1)
    dim = cc.shape[1]
    lo, hi = cc.min(axis=0), cc.max(axis=0)
    L = hi - lo + 1.0
    kw = {}
    small = min(float(np.min(h)) for h in mesh.h) if not hasattr(mesh, "max_level") else float(np.min(mesh.h_gridded))
    thr = 0.5 * small
    if c["thr"]:
        thr = kw["threshold"] = float(L.max() * r.uniform(0.01, 0.5))
    act = np.ones(len(cc), bool)
    if c["act"]:
        act = r.random(len(cc)) < 0.7
        act[r.integers(len(cc))] = True
        kw["active_cells"] = act if r.random() < 0.5 else np.flatnonzero(act)
    ref = lo + L * r.uniform(-0.3, 1.3, (c["nref"], dim))
    p = c["exponent"]
    if c["kind"] != "distance":
        if c["kind"] == "depth" or dim == 1:
            z0 = float(hi[-1] + L[-1] * r.uniform(-0.5, 0.5))
            dz, arg = np.abs(cc[:, -1] - z0), z0
        else:
            d2 = ((cc[:, None, :-1] - ref[None, :, :-1]) ** 2).sum(axis=2)
            best = np.sort(d2, axis=1)
            if best.shape[1] > 1 and np.any(best[:, 1] - best[:, 0] < 1e-9 * L.max() ** 2):
                return ["trivial"]
            dz, arg = np.abs(cc[:, -1] - ref[d2.argmin(axis=1), -1]), ref
        w = (dz + thr) ** (-p / 2)
        got = depth_weighting(mesh, arg, exponent=p, **kw)
    else:
        w = np.zeros(len(cc))
        for k in range(c["nref"]):
            w += (np.sqrt(((cc - ref[k]) ** 2).sum(axis=1)) + thr) ** (-2 * p)
        w = np.sqrt(w)
        got = quiet(distance_weighting, mesh, ref if dim > 1 else ref[:, 0], exponent=p, engine=c["engine"], **kw)
    w = w[act]
    close(got, w / w.max(), f"{c['kind']} weights", 1e-9)
    return [c["kind"]] if np.ptp(w) > 1e-6 * w.max() else ["trivial"]


topo_case = st.fixed_dictionaries({**meshes((2, 3)), "cutoff": st.sampled_from(["top", "center"]), "horizontal": st.booleans(), "elev": st.booleans(), "heights": st.sampled_from(["none", "one", "array"]), "n": st.integers(1, 8), "seed": gen.seeds})


def topo(c):
    from simpeg.utils import get_discrete_topography, shift_to_discrete_topography

    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    cc = np.array(mesh.cell_centers)
    dim = mesh.dim
    hz = np.array(mesh.h_gridded)
    lo, hi = cc.min(axis=0), cc.max(axis=0)
    bottom = cc[:, -1] - hz[:, -1] / 2
    low = bottom <= bottom.min() + 1e-9 * (np.abs(bottom).max() + 1)
    slope = r.standard_normal(dim - 1) * 0.6
    surf = lambda x: lo[-1] + (hi[-1] - lo[-1]) * np.clip(r0 + (x - lo[:-1]) / (hi[:-1] - lo[:-1] + 1e-9) @ slope, 0, 1.2)  # noqa: E731
    r0 = r.uniform(0.1, 0.9)
    act = low | (cc[:, -1] < surf(cc[:, :-1]))
    # the surface: active cells with no active cell above some part of them
    n = c["n"]
    lims = np.array([[o, o + np.sum(h)] for o, h in zip(mesh.origin, mesh.h)])
    pts = lims[:, 0] + np.ptp(lims, axis=1) * r.uniform(0.01, 0.99, (n, dim))
    top = cc[:, -1] + (hz[:, -1] / 2 if c["cutoff"] == "top" else 0)
    got = np.array(get_discrete_topography(mesh, act, topo_cell_cutoff=c["cutoff"]))
    if is_tree(c):
        surface = [i for i in np.flatnonzero(act) if not _covered(i, cc, hz, act)]
        certain = [i for i in np.flatnonzero(act) if _open(i, cc, hz, act)]
        rows = {tuple(np.round(np.r_[cc[i, :-1], top[i]], 6)) for i in surface}
        must = {tuple(np.round(np.r_[cc[i, :-1], top[i]], 6)) for i in certain}
        have = {tuple(x) for x in np.round(got, 6)}
        require(must <= have and have <= rows, f"surface cells of the tree mesh: {sorted(have)}, should be {sorted(rows)}")
    else:
        want = []
        for x in itertools.product(*[np.asarray(getattr(mesh, "cell_centers_" + a)) for a in "xy"[: dim - 1]][::-1]):
            x = np.array(x[::-1])
            col = np.flatnonzero(act & np.all(np.abs(cc[:, :-1] - x) < 1e-9 * (np.abs(x) + 1), axis=1))
            i = col[np.argmax(cc[col, -1])]
            want.append(np.r_[x, top[i]])
        close(got, np.array(want), "topography", 1e-9, scale=np.abs(lims).max())
    heights = {"none": 0.0, "one": 2.5, "array": r.uniform(0, 9, n)}[c["heights"]]
    kw = {} if c["heights"] == "none" else {"heights": heights}
    p = pts if c["elev"] else pts[:, :-1]
    if not c["elev"] and dim == 2 and r.random() < 0.5:
        p = p[:, 0]
    d2 = ((pts[:, None, :-1] - got[None, :, :-1]) ** 2).sum(axis=2)
    best = np.sort(d2, axis=1)
    if best.shape[1] > 1 and np.any(best[:, 1] - best[:, 0] < 1e-9 * np.ptp(lims) ** 2):
        return ["trivial"]
    near = got[d2.argmin(axis=1)]
    res = np.array(shift_to_discrete_topography(mesh, p, act, topo_cell_cutoff=c["cutoff"], shift_horizontal=c["horizontal"], **kw))
    require(res.shape == (len(pts), dim), f"{len(pts)} points shifted to an array of shape {res.shape}")
    close(res[:, -1], near[:, -1] + heights, "elevation of the shifted points", 1e-9, scale=np.abs(lims).max())
    if not c["horizontal"]:
        close(res[:, :-1], pts[:, :-1], "horizontal position of the points", 1e-12)
    elif c["elev"]:
        for x, q in zip(res, pts):
            cell = [i for i in range(len(cc)) if np.all(np.abs(cc[i] - q) <= hz[i] / 2)]
            close(x[:-1], cc[cell[0], :-1], "centre of the cell of the point", 1e-9, scale=np.abs(lims).max())
    else:
        close(res[:, :-1], near[:, :-1], "horizontal position of the nearest column", 1e-9, scale=np.abs(lims).max())
    return ["tree" if is_tree(c) else "tensor"] if len(np.unique(near[:, -1])) > 1 else ["trivial"]


def _above(i, cc, hz):
    """Cells that touch the top of cell i."""
    top = cc[i, -1] + hz[i, -1] / 2
    eps = 1e-6 * hz[i].min()
    return [j for j in range(len(cc)) if abs(cc[j, -1] - hz[j, -1] / 2 - top) < eps and np.all(np.abs(cc[j, :-1] - cc[i, :-1]) < (hz[j, :-1] + hz[i, :-1]) / 2 - eps)]


def _covered(i, cc, hz, act):
    up = _above(i, cc, hz)
    return bool(up) and all(act[j] for j in up)


def _open(i, cc, hz, act):
    up = _above(i, cc, hz)
    return bool(up) and not any(act[j] for j in up)


vec_case = st.fixed_dictionaries({"kind": st.sampled_from(["sphere", "dip", "angle", "plane", "diag", "eig", "unique"]), "n": st.integers(1, 25), "how": st.sampled_from(["Probing", "Ones", "Random"]), "fun": st.booleans(), "k": st.sampled_from(["default", "all", "some"]), "seed": gen.seeds})


def vectors(c):
    from simpeg import utils
    from simpeg.objective_function import L2ObjectiveFunction
    from simpeg.utils import mat_utils as mu

    r = gen.rng(c)
    n, kind = c["n"], c["kind"]
    if kind == "sphere":
        x = r.standard_normal((n, 3)) * 10 ** r.uniform(-3, 3)
        s = mu.cartesian2spherical(x).reshape((n, 3), order="F")
        a, t, p = s.T
        close(a, np.sqrt((x**2).sum(axis=1)), "amplitude", 1e-12)
        close(np.c_[a * np.cos(t) * np.cos(p), a * np.cos(t) * np.sin(p), a * np.sin(t)], x, "the angles of a vector", 1e-9)
        close(mu.spherical2cartesian(s).reshape((n, 3), order="F"), x, "there and back", 1e-9, atol=2e-8 * np.sqrt(n))
    elif kind == "dip":
        dip, azm = r.uniform(-90, 90, n), r.uniform(-360, 720, n)
        d, z = np.deg2rad(dip), np.deg2rad(azm)
        close(mu.dip_azimuth2cartesian(dip, azm), np.c_[np.cos(d) * np.sin(z), np.cos(d) * np.cos(z), -np.sin(d)], "dip and azimuth", 1e-9, atol=1e-9)
    elif kind == "angle":
        t = r.uniform(-30, 30, n)
        got = mu.coterminal(t.copy())
        require(np.all((got >= -np.pi) & (got <= np.pi)), "coterminal angles outside -pi, pi")
        close(np.exp(1j * got), np.exp(1j * t), "coterminal angles", 1e-9, atol=1e-9)
    elif kind == "plane":
        x = r.standard_normal((3, 3)) * 10 ** r.uniform(-2, 3) + r.standard_normal(3)
        a, b, cc_, d = mu.define_plane_from_points(*x)
        nn = np.array([a, b, cc_])
        close(x @ nn + d, np.zeros(3), "the points are not on their plane", atol=1e-9 * (np.abs(x).max() + 1), scale=0)
        require(nrm(nn) > 0, "plane without normal")
    elif kind == "diag":
        A = r.standard_normal((n, n))
        D = np.diag(np.diag(A))
        M, exact = (A, c["how"] == "Probing" and c["k"] == "all")
        if not exact:  # any number of probes finds the diagonal of a diagonal matrix
            M = D
        kw = {"k": {"all": n, "some": max(1, n // 2)}[c["k"]]} if c["k"] != "default" else {}
        got = mu.estimate_diagonal((lambda v: M @ v) if c["fun"] else M, n, approach=c["how"], **kw)
        require(got.shape == (n,), f"diagonal of shape {got.shape}")
        close(got, np.diag(M), "estimated diagonal", 1e-9)
    elif kind == "eig":
        Q, _ = np.linalg.qr(r.standard_normal((n, n)))
        lam = np.r_[5.0, r.uniform(0, 0.5, n - 1)]
        W = sp.csr_matrix(np.diag(np.sqrt(lam)) @ Q.T)
        o = L2ObjectiveFunction(W=W)
        a, b = r.uniform(0.5, 4, 2)
        combo = a * o if c["fun"] else a * o + b * L2ObjectiveFunction(W=sp.csr_matrix(W))
        if c["k"] == "all":
            a, b, combo = 1.0, 0.0, o
        elif c["fun"]:
            b = 0.0
        got = utils.eigenvalue_by_power_iteration(combo, r.standard_normal(n), n_pw_iter=30, random_seed=int(r.integers(99)))
        close(got, 2 * (a + b) * 5.0, "largest eigenvalue", 1e-6)
    else:
        x = r.integers(0, 3, (n, 2)).astype(float)
        u, i, j = mu.unique_rows(x)
        require(np.array_equal(x[i], u) and np.array_equal(u[np.ravel(j)], x), "unique rows do not give the rows back")
        require(len({tuple(k) for k in x}) == len(u), "rows are not unique")
    return [kind] if n > 1 else ["trivial"]


SUBS = [
    Sub("shapes", shape_case, shapes, quick=500, thorough=12000, shards=2, cost=1.0),
    Sub("weights", weight_case, weights, quick=200, thorough=6000, shards=1, cost=1.0),
    Sub("topo", topo_case, topo, quick=200, thorough=6000, shards=1, cost=1.0),
    Sub("vectors", vec_case, vectors, quick=300, thorough=6000, shards=1, cost=0.5),
]
