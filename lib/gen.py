"""Generators shared by the checks (JSON-serialisable descriptions) and builders."""

from __future__ import annotations

import contextlib

import numpy as np
from hypothesis import strategies as st

import discretize
from discretize import TensorMesh, TreeMesh, CylindricalMesh

# ------------------------------------------------------------------ scalars

seeds = st.integers(0, 2**31 - 1)


def floats(lo, hi, nd=3):
    """Rounded floats: short JSON, friendly shrinking."""
    k = 10**nd
    return st.integers(int(round(lo * k)), int(round(hi * k))).map(lambda i: i / k)


def log_floats(lo_exp, hi_exp, nd=2):
    k = 10**nd
    return st.integers(int(round(lo_exp * k)), int(round(hi_exp * k))).map(
        lambda i: float(f"{10 ** (i / k):.6g}")
    )


def rng(case, salt=0):
    return np.random.default_rng([int(case["seed"]), int(salt)])


# ------------------------------------------------------------------ meshes


def widths(nmin, nmax, uniform=False, base=(1.0,)):
    w = st.sampled_from([1.0, 1.0, 1.5, 2.0, 0.5, 3.0])
    s = st.lists(w, min_size=nmin, max_size=nmax)
    if uniform:
        s = st.integers(nmin, nmax).map(lambda n: [1.0] * n)
    return st.tuples(s, st.sampled_from(list(base))).map(
        lambda t: [round(v * t[1], 9) for v in t[0]]
    )


@st.composite
def tensor_mesh(draw, dim=None, nmin=2, nmax=5, base=(1.0, 5.0, 25.0), origin=None):
    if dim is None:
        dim = draw(st.sampled_from([1, 2, 3]))
    b = draw(st.sampled_from(list(base)))
    h = [draw(widths(nmin, nmax, base=(b,))) for _ in range(dim)]
    if origin is None:
        o = draw(st.sampled_from(["0", "C", "N", "shift"]))
    else:
        o = origin
    return {"kind": "tensor", "h": h, "origin": o}


@st.composite
def tree_mesh(draw, dim=None, logn=(2, 3), base=(1.0, 5.0, 25.0), max_pts=3, level=1):
    """n cells per axis is 2**k; refined around a few points."""
    if dim is None:
        dim = draw(st.sampled_from([2, 3]))
    b = draw(st.sampled_from(list(base)))
    k = [draw(st.integers(*logn)) for _ in range(dim)]
    anis = [draw(st.sampled_from([1.0, 1.0, 2.0, 0.5])) for _ in range(dim)]
    pts = draw(
        st.lists(
            st.tuples(
                *[floats(0.05, 0.95, 2) for _ in range(dim)], st.integers(1, max(k))
            ),
            min_size=1,
            max_size=max_pts,
        )
    )
    return {
        "kind": "tree",
        "n": [2**i for i in k],
        "h": [b * a for a in anis],
        "pts": [list(p) for p in pts],
        "origin": draw(st.sampled_from(["0", "C", "shift"])),
        "diag": draw(st.booleans()),
        "level": level,
    }


@st.composite
def cyl_mesh(draw, nmin=3, nmax=6, base=(1.0, 5.0), theta=False):
    b = draw(st.sampled_from(list(base)))
    hr = draw(widths(nmin, nmax, base=(b,)))
    hz = draw(widths(nmin, nmax, base=(b,)))
    nt = draw(st.sampled_from([3, 4])) if theta else 1
    return {"kind": "cyl", "hr": hr, "nt": nt, "hz": hz}


@st.composite
def curv_mesh(draw, dim=None, nmin=2, nmax=4):
    if dim is None:
        dim = draw(st.sampled_from([2, 3]))
    n = [draw(st.integers(nmin, nmax)) for _ in range(dim)]
    return {"kind": "curv", "n": n, "amp": draw(floats(0.0, 0.1, 3))}


OFFSET = None


@contextlib.contextmanager
def shifted(offset):
    """meshes built within are moved by (x, y, z); the last of their axes is the vertical one"""
    global OFFSET
    OFFSET = offset
    try:
        yield
    finally:
        OFFSET = None


def part(offset, dim):
    x, y, z = np.asarray(offset, float)
    return {1: np.r_[z], 2: np.r_[x, z], 3: np.r_[x, y, z]}[dim]


def _origin(o, hsum):
    if OFFSET is not None:
        keep = [0.0 if k == "0" else -s if k == "N" else -s / 2 for k, s in zip(_plain_origin(o, hsum), hsum)] if isinstance(_plain_origin(o, hsum), str) else _plain_origin(o, hsum)
        return np.asarray(keep) + part(OFFSET, len(hsum))
    return _plain_origin(o, hsum)


def _plain_origin(o, hsum):
    dim = len(hsum)
    if o in ("0", "C"):
        return o * dim
    if o == "N":
        return ("C" * (dim - 1) + "N") if dim > 1 else "N"
    return np.array([-0.37 * s + 1.25 * (i + 1) for i, s in enumerate(hsum)])


def build_mesh(d):
    kind = d["kind"]
    if kind == "tensor":
        hs = [np.array(h, float) for h in d["h"]]
        return TensorMesh(hs, origin=_origin(d["origin"], [h.sum() for h in hs]))
    if kind == "tree":
        hs = [np.full(n, w) for n, w in zip(d["n"], d["h"])]
        mesh = TreeMesh(
            hs,
            origin=_origin(d["origin"], [h.sum() for h in hs]),
            diagonal_balance=bool(d.get("diag", False)),
        )
        org = np.asarray(mesh.origin)
        ext = np.array([h.sum() for h in hs])
        dim = len(hs)
        mesh.refine(d.get("level", 1), finalize=False)
        for p in d["pts"]:
            x = org + np.array(p[:dim]) * ext
            mesh.insert_cells(
                x[None, :], np.array([min(p[dim], mesh.max_level)]), finalize=False
            )
        mesh.finalize()
        return mesh
    if kind == "cyl":
        ht = np.full(d["nt"], 2 * np.pi / d["nt"])
        hr, hz = np.array(d["hr"], float), np.array(d["hz"], float)
        return CylindricalMesh([hr, ht, hz], origin="00C")
    if kind == "curv":
        dim = len(d["n"])
        X = np.meshgrid(
            *[np.linspace(0, 1, n + 1) * n for n in d["n"]], indexing="ij"
        )
        a = d["amp"]
        Y = [
            X[i] + a * np.sin(1.3 * X[(i + 1) % dim] + 0.5 * i) * np.cos(X[i])
            for i in range(dim)
        ]
        return discretize.CurvilinearMesh(Y)
    raise ValueError(kind)


def lims(mesh):
    """bounding box (dim, 2)"""
    n = mesh.nodes if mesh.dim > 1 else np.asarray(mesh.nodes).reshape(-1, 1)
    return np.c_[n.min(axis=0), n.max(axis=0)]


def inside_points(mesh, r, n, margin=0.1):
    """n random points well inside the mesh box."""
    L = lims(mesh)
    w = L[:, 1] - L[:, 0]
    u = margin + (1 - 2 * margin) * r.random((n, mesh.dim))
    return L[:, 0] + u * w


def active_cells(mesh, r, frac=0.7, minimum=2):
    a = r.random(mesh.n_cells) < frac
    if a.sum() < minimum:
        a[:minimum] = True
    return a
