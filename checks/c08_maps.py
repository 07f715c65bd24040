"""C08: model mappings -- transform, derivative, inverse, composition."""

import functools

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from numpy.polynomial import polynomial as npoly
from scipy.integrate import quad
from scipy.interpolate import InterpolatedUnivariateSpline
from scipy.optimize import brentq
from simpeg import maps

from lib import gen
from lib.oracle import (
    check_directional,
    check_no_mutation,
    close,
    close_each,
    directional_derivative,
    nrm,
    require,
    fail,
)
from lib.pbt import Sub

PROPERTY = "C08"
RULE = (
    "A case is a map (every class of simpeg.maps, random mesh / indices / parameters), a chain "
    "or a sum of maps, a model in the map's domain and a random direction. The transform is "
    "compared with an independent numpy formula, deriv with Richardson-extrapolated central "
    "differences and with deriv(m, v), the inverse with the round trip, chains and sums with the "
    "composition of the parts; inputs must not be modified and the answer at m must not depend on "
    "what the map was evaluated at before. Non-trivial: the model has at least 2 entries and the "
    "derivative product is non-zero."
)
ASSUMPTIONS = [
    "models inside the documented domain of each map (positive for LogMap/ReciprocalMap, 0<phi<1 for effective media)",
    "derivatives judged against finite differences with a self-measured uncertainty",
]

MU0 = 4e-7 * np.pi  # scipy.constants.mu_0 to 1e-9
from scipy.constants import mu_0 as MU0  # noqa: E402


class B:
    """a built map with its reference"""

    def __init__(self, m, lo, hi, ref=None, inv=True, h=1e-4, shape=None, affine=None, rtol=1e-6):
        self.map, self.lo, self.hi = m, lo, hi
        self.ref, self.inv, self.h = ref, inv, h
        self.affine = affine
        self.rtol = rtol


def has_inverse(m):
    return type(m).inverse is not maps.IdentityMap.inverse


# ------------------------------------------------------------- elementwise

ELEM = ["identity", "exp", "log", "recip", "logistic", "chi", "mur", "effsus", "weight", "spherical", "scem"]


def elem_strategy():
    return st.fixed_dictionaries(
        {
            "kind": st.sampled_from(ELEM),
            "n": st.integers(2, 9),
            "seed": gen.seeds,
            "mesh": st.booleans(),
            "lo": gen.floats(-5, 2, 2),
            "width": gen.floats(0.1, 10, 2),
            "arr": st.booleans(),
            "alpha": st.sampled_from([1.0, 0.3, 0.7, 2.5, 5.0]),
            "amp": gen.floats(0.5, 60000.0, 1),
        }
    )


def depolarization(alpha):
    """depolarization factor along the axis of a spheroid of aspect ratio alpha, by quadrature"""
    f = lambda s: 0.5 * alpha / ((s + alpha**2) ** 1.5 * (s + 1))  # noqa: E731
    return quad(f, 0, 1)[0] + quad(lambda t: f(1 / t) / t**2, 0, 1)[0]


@functools.lru_cache(maxsize=4000)
def emt(phi, s0, s1, a0, a1):
    """self-consistent effective conductivity of randomly oriented spheroids"""

    def conc(s, e, a):
        Lz = depolarization_of(a)
        return sum(1 / (1 + L * (s - e) / e) for L in (Lz, (1 - Lz) / 2, (1 - Lz) / 2)) / 3

    def resid(e):
        return (1 - phi) * (s0 - e) * conc(s0, e, a0) + phi * (s1 - e) * conc(s1, e, a1)

    return brentq(resid, min(s0, s1), max(s0, s1), xtol=1e-15, rtol=1e-13)


depolarization_of = functools.lru_cache(maxsize=None)(depolarization)


def build_elem(c, n=None, nostar=True):
    n = c["n"] if n is None else n
    r = gen.rng(c, 1)
    k = c["kind"]
    if k == "spherical":
        n = 3 * max(1, n // 3)
    kw = {"nP": n}
    if c.get("mesh") and k != "spherical":
        from discretize import TensorMesh

        kw = {"mesh": TensorMesh([n])}
    o = np.ones(n)
    if k == "identity":
        return B(maps.IdentityMap(**kw), -3 * o, 3 * o, lambda m: m.copy(), affine=True)
    if k == "exp":
        return B(maps.ExpMap(**kw), -8 * o, 3 * o, np.exp, affine=False)
    if k == "log":
        return B(maps.LogMap(**kw), 1e-3 * o, 10 * o, np.log, h=1e-5)
    if k == "recip":
        return B(maps.ReciprocalMap(**kw), 0.1 * o, 10 * o, lambda m: 1 / m, h=1e-4)
    if k == "logistic":
        lo = c["lo"] + (r.random(n) if c["arr"] else 0.0)
        up = lo + c["width"] * (1 + (r.random(n) if c["arr"] else 0.0))
        return B(
            maps.LogisticSigmoidMap(lower_bound=lo, upper_bound=up, **kw),
            -4 * o,
            4 * o,
            lambda m: lo + (up - lo) / (1 + np.exp(-m)),
        )
    if k == "chi":
        return B(maps.ChiMap(**kw), 0 * o, 5 * o, lambda m: MU0 * (1 + m))
    if k == "mur":
        return B(maps.MuRelative(**kw), 0.5 * o, 5 * o, lambda m: MU0 * m)
    if k == "effsus":
        a = c["amp"]
        return B(maps.EffectiveSusceptibilityMap(a, **kw), 0 * o, 5 * o, lambda m: a * m)
    if k == "weight":
        w = 0.1 + 5 * r.random(n)
        return B(maps.Weighting(weights=w, **kw), -3 * o, 3 * o, lambda m: w * m)
    if k == "spherical":
        q = n // 3
        lo = np.r_[0.2 * np.ones(q), -1.3 * np.ones(q), -3.0 * np.ones(q)]
        hi = np.r_[3 * np.ones(q), 1.3 * np.ones(q), 3.0 * np.ones(q)]

        def ref(m):
            a, t, p = m[:q], m[q : 2 * q], m[2 * q :]
            return np.r_[a * np.cos(t) * np.cos(p), a * np.cos(t) * np.sin(p), a * np.sin(t)]

        return B(maps.SphericalSystem(nP=n), lo, hi, ref)
    if k == "scem":
        other = c["alpha"] if c["arr"] else [0.4, 1.0, 3.0][c["n"] % 3]
        s0, s1 = (1e-2, 0.3) if c["seed"] % 2 else (0.2, 3e-2)
        m = maps.SelfConsistentEffectiveMedium(sigma0=s0, sigma1=s1, alpha0=c["alpha"], alpha1=other, rel_tol=1e-10, maxIter=3000, **kw)
        return B(m, 0.05 * o, 0.9 * o, lambda phi: np.array([emt(p, s0, s1, c["alpha"], other) for p in phi]), h=1e-3, rtol=1e-5)
    raise ValueError(k)


# -------------------------------------------------------------- structural


def struct_strategy():
    kinds = [
        "inject", "projection", "surjectfull", "vertical", "s2d3d", "units", "mesh2mesh",
        "linear", "complex", "wires", "tile",
    ]
    return st.one_of([_struct(k) for k in kinds])


@st.composite
def _struct(draw, k):
    c = {"kind": k, "seed": draw(gen.seeds)}
    if k in ("inject", "surjectfull", "units"):
        c["mesh"] = draw(st.one_of(gen.tensor_mesh(nmin=1, nmax=4), gen.tree_mesh(logn=(1, 2), max_pts=2)))
    elif k == "vertical":
        c["mesh"] = draw(st.one_of(gen.tensor_mesh(dim=1), gen.tensor_mesh(dim=2, nmax=4), gen.tensor_mesh(dim=3, nmax=4), gen.cyl_mesh(nmax=4)))
    elif k == "s2d3d":
        c["mesh"] = draw(gen.tensor_mesh(dim=3, nmin=1, nmax=5))
        c["normal"] = draw(st.sampled_from(["x", "y", "z", "X", "Y", "Z"]))
    elif k == "mesh2mesh":
        d = draw(st.sampled_from([2, 3]))
        c["mesh"] = draw(gen.tensor_mesh(dim=d, nmax=4, base=(1.0,), origin="0"))
        c["mesh2"] = draw(gen.tensor_mesh(dim=d, nmax=4, base=(1.0,), origin="0"))
        c["active"] = draw(st.booleans())
    elif k == "tile":
        d = draw(st.sampled_from([2, 3]))
        c["mesh"] = draw(gen.tree_mesh(dim=d, logn=(2, 2) if d == 3 else (2, 3)))
        c["components"] = draw(st.integers(1, 3))
    if k in ("projection", "linear", "complex", "wires"):
        c["n"] = draw(st.integers(2, 8))
    c["mode"] = draw(st.integers(0, 3))
    return c


def build_struct(c):
    r = gen.rng(c, 2)
    k = c["kind"]
    mode = c["mode"]
    if k == "inject":
        mesh = gen.build_mesh(c["mesh"])
        act = gen.active_cells(mesh, r, 0.6, 1)
        if mode == 0:
            val = 2.5
        elif mode == 1:
            val = r.random(int((~act).sum()))
        else:
            val = 0.0
        ind = np.flatnonzero(act) if mode == 3 else act
        mp = maps.InjectActiveCells(mesh, active_cells=ind, value_inactive=val)

        def ref(m):
            out = np.zeros(mesh.n_cells)
            out[~act] = val
            out[act] = m
            return out

        return B(mp, -2, 2, ref, affine=True)
    if k == "projection":
        n = c["n"]
        if mode == 0:
            idx = r.integers(0, n, size=r.integers(1, n + 2))
        elif mode == 1:
            idx = r.random(n) < 0.5
            idx[r.integers(0, n)] = True
        elif mode == 2:
            a = int(r.integers(0, n))
            idx = slice(a, n, int(r.integers(1, 3)))
        else:
            idx = [int(i) for i in r.integers(0, n, size=3)]
        return B(maps.Projection(n, idx), -2, 2, lambda m: m[idx].copy())
    if k == "surjectfull":
        mesh = gen.build_mesh(c["mesh"])
        return B(maps.SurjectFull(mesh), -2, 2, lambda m: np.full(mesh.n_cells, m[0]))
    if k == "vertical":
        mesh = gen.build_mesh(c["mesh"])
        cc = mesh.cell_centers if mesh.dim > 1 else mesh.cell_centers.reshape(-1, 1)
        zs = np.unique(np.round(cc[:, -1], 9))
        lay = np.searchsorted(zs, np.round(cc[:, -1], 9))
        return B(maps.SurjectVertical1D(mesh), -2, 2, lambda m: m[lay])
    if k == "s2d3d":
        mesh = gen.build_mesh(c["mesh"])
        ax = "xyz".index(c["normal"].lower())
        keep = [i for i in range(3) if i != ax]
        sh = mesh.shape_cells
        I = np.unravel_index(np.arange(mesh.n_cells), sh, order="F")
        flat = I[keep[0]] + sh[keep[0]] * I[keep[1]]
        return B(maps.Surject2Dto3D(mesh, normal=c["normal"]), -2, 2, lambda m: m[flat])
    if k == "units":
        mesh = gen.build_mesh(c["mesh"])
        nu = int(r.integers(1, min(4, mesh.n_cells) + 1))
        lab = r.integers(0, nu, mesh.n_cells)
        inds = [lab == i for i in range(nu)]
        mp = maps.SurjectUnits(list(inds), mesh=mesh)
        return B(mp, -2, 2, lambda m: m[lab])
    if k == "mesh2mesh":
        m1, m2 = gen.build_mesh(c["mesh"]), gen.build_mesh(c["mesh2"])
        act = gen.active_cells(m1, r, 0.6, 1) if c["active"] else None
        mp = maps.Mesh2Mesh([m1, m2], active_cells=act)
        pts = m1.cell_centers if act is None else m1.cell_centers[act]
        return B(mp, -2, 2, lambda m: _interp_cc(m2, m, pts))
    if k == "linear":
        n, q = c["n"], int(r.integers(1, 6))
        A = r.standard_normal((q, n))
        A[r.random(A.shape) < 0.3] = 0
        b = r.standard_normal(q) if mode % 2 else None
        M = sp.csr_matrix(A) if mode >= 2 else A
        return B(maps.LinearMap(M, b), -2, 2, lambda m: A.dot(m) + (0 if b is None else b))
    if k == "complex":
        n = c["n"]
        return B(maps.ComplexMap(nP=2 * n), -2, 2, lambda m: m[:n] + 1j * m[n:])
    if k == "wires":
        n = c["n"]
        cuts = [int(x) for x in r.integers(1, 5, size=n)]
        w = maps.Wires(*[("m%d" % i, v) for i, v in enumerate(cuts)])
        j = int(r.integers(0, n))
        a = int(np.sum(cuts[:j]))
        m = r.standard_normal(sum(cuts))
        tup = w * m
        parts = [m[int(np.sum(cuts[:i])) : int(np.sum(cuts[: i + 1]))] for i in range(n)]
        require(w.nP == sum(cuts), "Wires.nP")
        for i in range(n):
            close_each(tup[i], parts[i], "Wires split", 0)
            close_each(getattr(tup, "m%d" % i), parts[i], "Wires split by name", 0)
        close_each(np.concatenate(list(tup)), m, "Wires concatenation", 0)
        return B(getattr(w, "m%d" % j), -2, 2, lambda m: m[a : a + cuts[j]])
    if k == "tile":
        from discretize import TreeMesh

        g = gen.build_mesh(c["mesh"])
        local = TreeMesh(g.h, origin=g.origin, diagonal_balance=True)
        local.refine(1, finalize=False)
        x = g.cell_centers[int(r.integers(0, g.n_cells))]
        local.insert_cells(x[None, :], np.array([1]), finalize=True)
        # the local mesh must be nowhere finer than the global one
        lv_g = np.asarray(g.cell_volumes)
        inl = local.get_containing_cells(g.cell_centers)
        if np.any(local.cell_volumes[inl] < lv_g * (1 - 1e-9)):
            return None
        act = gen.active_cells(g, r, 0.8, 1)
        mp = maps.TileMap(g, act, local, components=c["components"])

        def ref(m):
            n = int(act.sum())
            out = []
            for i in range(c["components"]):
                full = np.zeros(g.n_cells)
                full[act] = m[i * n : (i + 1) * n]
                w = np.zeros(local.n_cells)
                np.add.at(w, inl, full * lv_g)
                la = np.zeros(local.n_cells, bool)
                la[inl[act]] = True
                out.append((w / local.cell_volumes)[la])
            return np.concatenate(out)

        return B(mp, -2, 2, ref)
    raise ValueError(k)


def _interp_cc(mesh, m, pts):
    """multilinear interpolation between cell centres, zero outside the mesh."""
    out = np.zeros(len(pts))
    dims = mesh.dim
    ccs = [mesh.cell_centers_x, mesh.cell_centers_y] + ([mesh.cell_centers_z] if dims == 3 else [])
    nodes = [mesh.nodes_x, mesh.nodes_y] + ([mesh.nodes_z] if dims == 3 else [])
    M = m.reshape(mesh.shape_cells, order="F")
    for i, p in enumerate(pts):
        if any(p[a] < nodes[a][0] - 1e-10 or p[a] > nodes[a][-1] + 1e-10 for a in range(dims)):
            continue
        ix = []
        for a in range(dims):
            x = ccs[a]
            if p[a] <= x[0]:
                ix.append([(0, 1.0)])
            elif p[a] >= x[-1]:
                ix.append([(len(x) - 1, 1.0)])
            else:
                j = int(np.searchsorted(x, p[a])) - 1
                t = (p[a] - x[j]) / (x[j + 1] - x[j])
                ix.append([(j, 1 - t), (j + 1, t)])
        tot = 0.0
        for q in np.ndindex(*[len(v) for v in ix]):
            w = 1.0
            idx = []
            for a in range(dims):
                j, wt = ix[a][q[a]]
                w *= wt
                idx.append(j)
            tot += w * M[tuple(idx)]
        out[i] = tot
    return out


# --------------------------------------------------------------- parametric


@st.composite
def param_strategy(draw):
    k = draw(st.sampled_from(["circle", "poly", "layer", "block", "ellipsoid", "casing", "blocklayer", "spline"]))
    c = {"kind": k, "seed": draw(gen.seeds), "active": draw(st.booleans()), "log": draw(st.booleans())}
    c["slope"] = draw(gen.floats(0.3, 3.0, 2))
    if k == "circle":
        c["mesh"] = draw(gen.tensor_mesh(dim=2, base=(1.0,), origin="C"))
    elif k in ("poly", "layer", "blocklayer"):
        d = draw(st.sampled_from([2, 3]))
        c["mesh"] = draw(gen.tensor_mesh(dim=d, nmin=2, nmax=5 if d == 2 else 4, base=(1.0,), origin="C"))
        if k == "poly":
            if d == 2:
                c["order"] = draw(st.integers(0, 3))
                c["normal"] = draw(st.sampled_from(["x", "y", "X", "Y"]))
            else:
                c["order"] = [draw(st.integers(0, 2)), draw(st.integers(0, 2))]
                c["normal"] = draw(st.sampled_from(["x", "y", "z"]))
    elif k == "spline":
        c["d3"] = draw(st.booleans())
        c["mesh"] = draw(gen.tensor_mesh(dim=3 if c["d3"] else 2, nmin=3, nmax=4, base=(1.0,), origin="C"))
        c["normal"] = "x" if c["d3"] else draw(st.sampled_from(["x", "y"]))
        c["npts"] = draw(st.integers(4, 5))
        c["order"] = draw(st.integers(1, 3))
    elif k in ("block", "ellipsoid"):
        c["mesh"] = draw(gen.tensor_mesh(base=(1.0,), origin="C", nmax=4))
        c["p"] = draw(st.sampled_from([2, 3.0, 4.0]))
    elif k == "casing":
        c["mesh"] = draw(gen.cyl_mesh(base=(1.0,)))
    return c


def at(v):
    return np.arctan(v) / np.pi + 0.5


def build_param(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c, 3)
    k = c["kind"]
    s = c["slope"]
    act = gen.active_cells(mesh, r, 0.7, 1) if c["active"] else None
    sel = np.ones(mesh.n_cells, bool) if act is None else act
    cc = mesh.cell_centers if mesh.dim > 1 else mesh.cell_centers.reshape(-1, 1)
    L = gen.lims(mesh)
    ext = (L[:, 1] - L[:, 0]).max()
    X = [cc[sel, i] for i in range(mesh.dim)]
    lg = (lambda v: np.exp(v)) if c["log"] else (lambda v: v)
    if k == "circle":
        mp = maps.ParametricCircleMap(mesh, logSigma=c["log"], slope=s)

        def ref(m):
            d = np.hypot(cc[:, 0] - m[2], cc[:, 1] - m[3]) - m[4]
            return lg(m[0]) + (lg(m[1]) - lg(m[0])) * at(s * d)

        lo = np.r_[-2, -2, -0.3 * ext, -0.3 * ext, 0.5]
        hi = np.r_[2, 2, 0.3 * ext, 0.3 * ext, 2.0]
        return B(mp, lo, hi, ref, h=1e-3)
    if k == "poly":
        mp = maps.ParametricPolyMap(mesh, c["order"], logSigma=c["log"], normal=c["normal"], active_cells=act, slope=s)
        ax = "xyz".index(c["normal"].lower())
        oth = [i for i in range(mesh.dim) if i != ax]

        def ref(m):
            if mesh.dim == 2:
                f = npoly.polyval(X[oth[0]], m[2:]) - X[ax]
            else:
                nx, ny = c["order"][0] + 1, c["order"][1] + 1
                f = -X[ax].copy()
                # coefficients are stored with the first power varying fastest
                for j in range(ny):
                    for i in range(nx):
                        f = f + m[2 + i + nx * j] * X[oth[0]] ** i * X[oth[1]] ** j
            return lg(m[0]) + (lg(m[1]) - lg(m[0])) * at(s * f)

        n = mp.nP
        return B(mp, -np.ones(n), np.ones(n), ref, h=1e-3)
    if k == "spline":
        lohi = L[1] if c["normal"] == "x" else L[0]
        pts = np.linspace(lohi[0] - 0.1, lohi[1] + 0.1, c["npts"])
        ptsv = np.r_[L[2, 0], L[2, 1]] if c["d3"] else None
        mp = maps.ParametricSplineMap(mesh, pts, ptsv=ptsv, order=c["order"], logSigma=c["log"], normal=c["normal"], slope=s)

        def ref(m):
            q = c["npts"]
            if not c["d3"]:
                sp1 = InterpolatedUnivariateSpline(pts, m[2:], k=c["order"])
                f = sp1(X[1]) - X[0] if c["normal"] == "x" else sp1(X[0]) - X[1]
            else:
                b = InterpolatedUnivariateSpline(pts, m[2 : 2 + q], k=c["order"])(X[1])
                t = InterpolatedUnivariateSpline(pts, m[2 + q :], k=c["order"])(X[1])
                f = (t - b) * (X[2] - ptsv[0]) / (ptsv[1] - ptsv[0]) + b - X[0]
            return lg(m[0]) + (lg(m[1]) - lg(m[0])) * at(s * f)

        if act is not None:
            X = [cc[:, i] for i in range(mesh.dim)]
        n = mp.nP
        return B(mp, -np.ones(n), np.ones(n), ref, h=1e-3)
    if k == "layer":
        mp = maps.ParametricLayer(mesh, slope=s, active_cells=act)
        z = X[-1]

        def ref(m):
            b, t = m[2] - m[3] / 2, m[2] + m[3] / 2
            return m[0] + (m[1] - m[0]) * at(s * (z - b)) * at(-s * (z - t))

        return B(mp, np.r_[-2, -2, -1, 0.5], np.r_[2, 2, 1, 3], ref, h=1e-3)
    if k in ("block", "ellipsoid"):
        eps, p = 1e-3, c["p"]
        if k == "block":
            mp = maps.ParametricBlock(mesh, epsilon=eps, p=p, slope=s, active_cells=act)
        else:
            p = 2
            mp = maps.ParametricEllipsoid(mesh, epsilon=eps, slope=s, active_cells=act)

        def ref(m):
            f = np.ones(int(sel.sum()))
            for i in range(mesh.dim):
                u = (X[i] - m[2 + 2 * i]) / (0.5 * m[3 + 2 * i])
                f = f - (u**2 + eps**2) ** (p / 2.0)
            return m[0] + (m[1] - m[0]) * at(s * f)

        lo = np.r_[-2, -2, [-1.0, 1.5] * mesh.dim]
        hi = np.r_[2, 2, [1.0, 5.0] * mesh.dim]
        return B(mp, lo, hi, ref, h=1e-3)
    if k == "casing":
        mp = maps.ParametricCasingAndLayer(mesh, slope=s, active_cells=act)
        x, z = X[0], X[2]

        def ref(m):
            lay = m[0] + (m[1] - m[0]) * at(s * (z - m[4] + m[5] / 2)) * at(-s * (z - m[4] - m[5] / 2))
            a, b = m[6] - m[7] / 2, m[6] + m[7] / 2
            length = at(-s * (z - m[9])) * at(s * (z - m[8]))
            cas = length * at(s * (x - a)) * at(-s * (x - b))
            ins = length * at(-s * (x - a))
            return lay + (m[2] - lay) * cas + (m[3] - lay) * ins

        lo = np.r_[-2, -2, -2, -2, -1, 0.5, 1.0, 0.2, -4, 0]
        hi = np.r_[2, 2, 2, 2, 1, 3.0, 3.0, 1.0, -1, 3]
        return B(mp, lo, hi, ref, h=1e-3)
    if k == "blocklayer":
        mp = maps.ParametricBlockInLayer(mesh, slope=s, active_cells=act)
        z = X[-1]

        def ref(m):
            al = at(s * (z - m[3] + m[4] / 2)) * at(-s * (z - m[3] - m[4] / 2))
            lay = m[0] + (m[1] - m[0]) * al
            if mesh.dim == 2:
                blk = al * at(s * (X[0] - m[5] + m[6] / 2)) * at(-s * (X[0] - m[5] - m[6] / 2))
            else:
                x0, y0, dx, dy = m[5:9]
                blk = (
                    al
                    * at(s * (X[0] - x0 + dx / 2)) * at(-s * (X[0] - x0 - dx / 2))
                    * at(s * (X[1] - y0 + dy / 2)) * at(-s * (X[1] - y0 - dy / 2))
                )
            return lay + (m[2] - lay) * blk

        if mesh.dim == 2:
            lo, hi = np.r_[-2, -2, -2, -1, 0.5, -1, 0.5], np.r_[2, 2, 2, 1, 3.0, 1, 3]
        else:
            lo, hi = np.r_[-2, -2, -2, -1, 0.5, -1, -1, 0.5, 0.5], np.r_[2, 2, 2, 1, 3.0, 1, 1, 3, 3]
        return B(mp, lo, hi, ref, h=1e-3)
    raise ValueError(k)


# ------------------------------------------------------------------- oracle


def dense(D, n):
    if sp.issparse(D):
        return D.toarray()
    if isinstance(D, np.ndarray):
        return D
    # discretize Identity()/Zero()
    return np.asarray(D * np.eye(n)) if not np.isscalar(D) else D * np.eye(n)


def model(b, c, salt=7):
    r = gen.rng(c, salt)
    n = b.map.shape[1] if b.map.shape[1] != "*" else c["n"]
    lo = np.broadcast_to(np.asarray(b.lo, float), (n,))
    hi = np.broadcast_to(np.asarray(b.hi, float), (n,))
    # keep away from the ends so that finite differences stay inside
    w = hi - lo
    return lo + w * (0.02 + 0.96 * r.random(n)), r.standard_normal(n) * np.minimum(1.0, 0.5 * w)


def judge(b, c):
    mp = b.map
    name = type(mp).__name__ + str(c.get("kind", ""))
    m, v = model(b, c)
    m2, _ = model(b, c, 8)
    mc, vc = m.copy(), v.copy()
    f = mp * m
    check_no_mutation(mc, m, name + " transform")
    f = np.array(f, copy=True)
    if mp.shape[0] != "*":
        require(f.shape == (mp.shape[0],), f"{name}: output {f.shape} but shape {mp.shape}")
    require(mp.nP == mp.shape[1], f"{name}: nP {mp.nP} but shape {mp.shape}")
    require(mp.nP == m.size, f"{name}: nP")
    t0 = 0 if c.get("kind") != "scem" else 1e-6
    close_each(mp @ m, f, name + " @", t0)
    close_each(mp.dot(m), f, name + " dot", t0)
    rt = {"spherical": 1e-6, "scem": 1e-6}.get(c.get("kind"), 1e-9)
    if b.ref is not None:
        close(f, b.ref(m.copy()), name + ": transform differs from its formula", rt)
    D = mp.deriv(m)
    check_no_mutation(mc, m, name + " deriv")
    J = dense(D, m.size)
    require(J.shape == (f.size, m.size), f"{name}: deriv has shape {J.shape}, expected {(f.size, m.size)}")
    Jv = np.asarray(J @ v).ravel()
    Dv = np.asarray(mp.deriv(m, v)).ravel()
    Dv = Dv.copy()
    check_no_mutation(vc, v, name + " deriv(m, v) direction")
    check_no_mutation(mc, m, name + " deriv(m, v)")
    close(Dv, Jv, name + ": deriv(m, v) != deriv(m) @ v", 1e-10, atol=1e-14)
    ok = check_directional(lambda x: mp * x, Jv, m, v, b.h, name + ".deriv", rtol=b.rtol)
    if b.ref is not None:
        # the derivative belongs to the formula as well
        check_directional(lambda x: b.ref(x), Jv, m, v, b.h, name + ".deriv vs formula", rtol=b.rtol)
        # entry by entry, one column per parameter
        for j in range(min(m.size, 10)):
            e = np.zeros(m.size)
            e[j] = 1.0
            check_directional(lambda x: b.ref(x), J[:, j], m, e, b.h, f"{name}.deriv column {j}", rtol=max(b.rtol, 1e-5))
    # a fresh evaluation elsewhere must not change the answer at m
    mp * m2
    J2 = dense(mp.deriv(m2), m.size).copy()
    tol = 1e-12 if c.get("kind") != "scem" else 1e-6
    close(mp * m, f, name + ": transform depends on history", tol)
    close(dense(mp.deriv(m), m.size), J, name + ": deriv depends on history", tol)
    # the same array object, changed in place, is another model
    buf = m.copy()
    mp.deriv(buf)
    mp * buf
    buf[:] = m2
    close(dense(mp.deriv(buf), m.size), J2, name + ": deriv of a model changed in place", tol, atol=1e-300)
    # inverse
    if b.inv and has_inverse(mp):
        close(mp.inverse(f.copy()), m, name + ": inverse(map * m) != m", 1e-7 if c.get("kind") != "scem" else 1e-4)
    if mp.is_linear and not b.affine is False:
        z = mp * np.zeros(m.size)
        a1, a2 = 0.7, -1.3
        lin = mp * (a1 * m + a2 * m2)
        close(lin - z, a1 * (f - z) + a2 * (mp * m2 - z), name + ": flagged linear but is not affine", 1e-9, atol=1e-12 * (1 + nrm(f)))
    else:
        if c.get("kind") in ("exp", "log", "recip", "logistic", "scem", "spherical", "circle"):
            require(not mp.is_linear, name + ": non-linear map reports is_linear")
    # wrong sized models are refused
    try:
        mp * np.ones(m.size + 1)
    except Exception:  # noqa: BLE001
        pass
    else:
        fail(f"{name}: accepted a model of the wrong size")
    return ["trivial"] if (m.size < 2 or nrm(Jv) == 0) else [type(mp).__name__]


def check_elem(c):
    return judge(build_elem(c), c)


cluster_cases = st.fixed_dictionaries({"n": st.integers(1, 5), "deg": st.lists(st.integers(1, 4), min_size=4, max_size=4), "given": st.lists(st.booleans(), min_size=4, max_size=4), "seed": gen.seeds})


def check_cluster(c):
    """the polynomial relations of two properties, given as two columns"""
    r = gen.rng(c)
    names = ["coeffxx", "coeffxy", "coeffyx", "coeffyy"]
    co = {k: r.uniform(-2, 2, d) for k, d, g in zip(names, c["deg"], c["given"]) if g}
    mp = maps.PolynomialPetroClusterMap(**{k: v.copy() for k, v in co.items()})
    full = dict(zip(names, [np.r_[0.0, 1.0], np.r_[0.0], np.r_[0.0], np.r_[0.0, 1.0]]), **co)

    def ev(k, x, d=0):
        return sum(a * (x**i if d == 0 else (i * x ** (i - 1) if i else 0 * x)) for i, a in enumerate(full[k]))

    m = r.uniform(-2, 2, (c["n"], 2))
    keep = m.copy()
    got = mp * m
    x, y = m.T
    check_no_mutation(keep, m, "cluster map")
    close(got, np.c_[ev("coeffxx", x) + ev("coeffxy", y), ev("coeffyx", x) + ev("coeffyy", y)], f"polynomial map {full}", 1e-11, atol=1e-12)
    one = m[:1]
    x, y = one[0]
    D = np.array([[ev("coeffxx", x, 1), ev("coeffyx", x, 1)], [ev("coeffxy", y, 1), ev("coeffyy", y, 1)]])
    close(mp.deriv(one.ravel()), D, "derivative of the polynomial map", 1e-11, atol=1e-12)
    v = r.standard_normal(2)
    close(np.ravel(mp.deriv(one.ravel(), v)), D @ v, "derivative of the polynomial map times a vector", 1e-11, atol=1e-12)
    require(not mp.is_linear, "the polynomial map reports is_linear")
    return ["cluster"] if co else ["trivial"]


# fractions outside the bounds: one fixed case, a known finding (inside the bounds: the property maps above)
outside_cases = st.just({"phi": [-0.2, 0.4, 1.3], "alpha": 1.0})


def check_outside(c):
    phi = np.array(c["phi"])
    mp = maps.SelfConsistentEffectiveMedium(nP=phi.size, sigma0=1e-2, sigma1=0.3, alpha0=c["alpha"], alpha1=1.0, rel_tol=1e-10, maxIter=3000)
    want = [emt(p, 1e-2, 0.3, c["alpha"], 1.0) if 0 < p < 1 else (1e-2 if p <= 0 else 0.3) for p in phi]
    close(mp * phi, want, f"effective conductivity for fractions {phi}", 1e-6)
    return ["outside"] if np.any((phi < 0) | (phi > 1)) else ["trivial"]


def check_struct(c):
    b = build_struct(c)
    if b is None:
        return ["trivial", "refused"]
    return judge(b, c)


def check_param(c):
    return judge(build_param(c), c)


# ------------------------------------------------------------------- chains


def chain_strategy():
    el = st.sampled_from(["exp", "logistic", "recip", "identity", "weight", "effsus", "chi"])
    return st.fixed_dictionaries(
        {
            "base": struct_strategy(),
            "elems": st.lists(el, min_size=1, max_size=3),
            "post": st.booleans(),
            "assoc": st.booleans(),
            "seed": gen.seeds,
        }
    )


def _mk(kind, n, seed, salt):
    r = np.random.default_rng([seed, salt])
    if kind == "exp":
        return maps.ExpMap(nP=n), np.exp
    if kind == "logistic":
        lo, up = 0.5 + r.random(), 2.0 + r.random()
        return maps.LogisticSigmoidMap(nP=n, lower_bound=lo, upper_bound=up), lambda m: lo + (up - lo) / (1 + np.exp(-m))
    if kind == "recip":
        return maps.ReciprocalMap(nP=n), lambda m: 1 / m
    if kind == "identity":
        return maps.IdentityMap(nP=n), lambda m: m
    if kind == "weight":
        w = 0.5 + r.random(n)
        return maps.Weighting(nP=n, weights=w), lambda m: w * m
    if kind == "effsus":
        return maps.EffectiveSusceptibilityMap(3.5, nP=n), lambda m: 3.5 * m
    if kind == "chi":
        return maps.ChiMap(nP=n), lambda m: MU0 * (1 + m)
    raise ValueError(kind)


def check_chain(c):
    b = build_struct(c["base"])
    if b is None or isinstance(b.map, maps.ComplexMap):
        return ["trivial"]
    base = b.map
    parts = [(base, b.ref)]
    lo, hi = -1.0, 1.0
    ks = list(c["elems"])
    # domain handling: a reciprocal only after something strictly positive
    seq = []
    positive = False
    for k in ks:
        if k == "recip" and not positive:
            k = "exp"
        seq.append(k)
        positive = k in ("exp", "logistic") or (positive and k in ("identity", "weight", "effsus", "recip"))
    if c["post"]:
        n_out = base.shape[0]
        pieces = [(base, b.ref)]
        for i, k in enumerate(seq):
            pieces.append(_mk(k, n_out, c["seed"], i))
    else:
        n_in = base.shape[1]
        pieces = []
        for i, k in enumerate(seq):
            pieces.append(_mk(k, n_in, c["seed"], i))
        pieces.append((base, b.ref))
    ms = [p[0] for p in pieces]  # first applied first
    comp = None
    if c["assoc"]:
        for q in ms:
            comp = q if comp is None else q * comp
    else:
        comp = ms[-1]
        for q in reversed(ms[:-1]):
            comp = comp * q

    def ref(m):
        for _, f in pieces:
            m = f(m)
        return m

    rr = np.random.default_rng([c["seed"], 99])
    require(comp.shape == (ms[-1].shape[0], ms[0].shape[1]), f"chain shape {comp.shape}")
    m = lo + (hi - lo) * rr.random(ms[0].shape[1])
    # chain rule from the parts
    Dv = rr.standard_normal(m.size)
    cur, x = Dv.copy(), m.copy()
    for q, _ in pieces:
        cur = np.asarray(dense(q.deriv(x), x.size) @ cur).ravel()
        x = np.asarray(q * x)
    close(comp * m, x, "chain transform is not the composition of its parts", 1e-12)
    close(np.asarray(comp.deriv(m, Dv)).ravel(), cur, "chain derivative is not the product of the derivatives", 1e-10)
    bb = B(comp, lo, hi, ref, inv=False)
    bb.affine = None
    return judge(bb, {"seed": c["seed"], "kind": "chain"})


def sum_strategy():
    return st.fixed_dictionaries(
        {
            "mesh": gen.tensor_mesh(dim=2, nmin=1, nmax=4, base=(1.0,)),
            "parts": st.lists(st.sampled_from(["exp", "logistic", "identity", "weight", "effsus", "chi", "inj", "lin"]), min_size=2, max_size=4),
            "plus": st.booleans(),
            "seed": gen.seeds,
        }
    )


def check_sum(c):
    mesh = gen.build_mesh(c["mesh"])
    n = mesh.n_cells
    ms, refs = [], []
    for i, k in enumerate(c["parts"]):
        r = np.random.default_rng([c["seed"], i, 5])
        if k == "lin":
            A = r.standard_normal((n, n))
            q, f = maps.LinearMap(sp.csr_matrix(A)), (lambda m, A=A: A @ m)
        elif k == "inj":
            A = r.random(n) < 0.5
            A[0] = True
            q = maps.InjectActiveCells(mesh, A) * maps.Projection(n, A)
            f = lambda m, A=A: np.where(A, m, 0.0)  # noqa: E731
        else:
            q, f = _mk(k, n, c["seed"], i)
        ms.append(q)
        refs.append(f)
    if c["plus"] and len(ms) == 2:
        S = ms[0] + ms[1]
    else:
        S = maps.SumMap(ms)
    b = B(S, -1.0, 1.0, lambda m: np.sum([f(m) for f in refs], axis=0), inv=False)
    b.affine = None
    return judge(b, {"seed": c["seed"], "kind": "sum"})


# --------------------------------------------------- mismatched composition


def mism_strategy():
    return st.fixed_dictionaries({"n": st.integers(1, 6), "k": st.integers(1, 6), "seed": gen.seeds})


def check_mismatch(c):
    n, k = c["n"], c["k"]
    a, b = maps.ExpMap(nP=n), maps.IdentityMap(nP=k)
    try:
        ab = a * b
    except ValueError:
        require(n != k, "compatible maps refused")
        return []
    require(n == k, f"maps of incompatible sizes were composed: {a} * {b}")
    require(ab.shape == (n, k), "shape of a composition")
    return []


SUBS = [
    Sub("elementwise", elem_strategy(), check_elem, quick=2000, shards=2),
    Sub("structural", struct_strategy(), check_struct, quick=2000, shards=2),
    Sub("parametric", param_strategy(), check_param, quick=2000, shards=3),
    Sub("chain", chain_strategy(), check_chain, quick=1500, shards=2),
    Sub("sum", sum_strategy(), check_sum, quick=600, shards=1),
    Sub("cluster", cluster_cases, check_cluster, quick=200, shards=1),
    Sub("outside", outside_cases, check_outside, quick=1, thorough=1, shards=1),
    Sub("mismatch", mism_strategy(), check_mismatch, quick=40, shards=1),
]
