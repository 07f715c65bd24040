"""Generators and builders of potential-field simulations (used by C06 and C16)."""

import numpy as np
import scipy.sparse as sp
from hypothesis import strategies as st
from simpeg import maps
from simpeg.potential_fields import gravity, magnetics

from . import gen

GRAV = ["gx", "gy", "gz", "gxx", "gyy", "gzz", "gxy", "gxz", "gyz", "guv"]
MAG = ["bx", "by", "bz", "bxx", "byy", "bzz", "bxy", "bxz", "byz", "tmi", "tmi_x", "tmi_y", "tmi_z"]


@st.composite
def receivers(draw, comps, min_size=1, max_rx=3):
    out = []
    for _ in range(draw(st.integers(1, max_rx))):
        out.append(
            {
                "n": draw(st.integers(1, 4)),
                "comps": draw(st.lists(st.sampled_from(comps), min_size=1, max_size=3, unique=True)),
                "where": draw(st.sampled_from(["above", "above", "below", "beside"])),
                "snap": draw(st.sampled_from([None, None, 0, 1, 2, 3])),
            }
        )
    return out


def place(mesh_box, nodes, rx, r, gap):
    """receiver locations outside the mesh box by at least `gap`"""
    lo, hi = mesh_box[:, 0], mesh_box[:, 1]
    n = rx["n"]
    x = lo + (hi - lo) * (1.4 * r.random((n, 3)) - 0.2)
    if rx["where"] == "above":
        x[:, 2] = hi[2] + gap * (1 + r.random(n))
    elif rx["where"] == "below":
        x[:, 2] = lo[2] - gap * (1 + r.random(n))
    else:
        side = r.integers(0, 4, n)
        for i in range(n):
            a = side[i] // 2
            x[i, a] = hi[a] + gap * (1 + r.random()) if side[i] % 2 else lo[a] - gap * (1 + r.random())
    if rx["snap"] is not None:
        # exactly in line with nodes of the mesh (edges, faces)
        for i in range(n):
            k = nodes[r.integers(len(nodes))]
            for a in range(3):
                if (rx["snap"] == a or (rx["snap"] == 3 and a < 2)) and lo[a] <= x[i, a] <= hi[a] and a < len(k):
                    x[i, a] = k[a]
    return x


def geometry(c, r):
    """-> mesh, active, extra kwargs, cell bounds (nA, 6), box, nodes, gap"""
    mesh = gen.build_mesh(c["mesh"])
    act = np.ones(mesh.n_cells, bool) if c["active"] == "all" else gen.active_cells(mesh, r)
    kw = {}
    if mesh.dim == 2:
        nA = int(act.sum())
        w = float(np.max(mesh.h_gridded))
        top = -w * r.random(nA)
        bot = top - w * (0.2 + r.random(nA))
        if c["active"] == "flat":
            top, bot = np.zeros(nA), np.full(nA, -w)
            kw.update(cell_z_top=0.0, cell_z_bottom=-w)
        else:
            kw.update(cell_z_top=top, cell_z_bottom=bot)
        cb = mesh.cell_bounds[act]
        bounds = np.c_[cb, bot, top]
    else:
        bounds = mesh.cell_bounds[act]
    box = np.array([[bounds[:, 2 * i].min(), bounds[:, 2 * i + 1].max()] for i in range(3)])
    size = bounds[:, 1::2] - bounds[:, ::2]
    gap = 0.6 * float(size.max())
    nodes = mesh.nodes
    return mesh, act, kw, bounds, box, nodes, gap


def make_map(kind, n, r):
    """-> map to n cells, model"""
    if kind == "id":
        return maps.IdentityMap(nP=n), r.standard_normal(n)
    if kind == "exp":
        return maps.ExpMap(nP=n), 0.5 * r.standard_normal(n)
    if kind == "units":
        k = max(1, n // 2)
        lab = r.permutation(np.arange(n) % k)
        return maps.SurjectUnits([lab == i for i in range(k)]), r.standard_normal(k)
    if kind == "sum":
        mm = maps.SumMap([maps.IdentityMap(nP=n), maps.IdentityMap(nP=n)])
        return mm, r.standard_normal(n)
    if kind == "wires":
        w = maps.Wires(("a", n), ("b", 3))
        return maps.ExpMap(nP=n) * w.a, 0.5 * r.standard_normal(n + 3)
    if kind == "linear":
        A = sp.random(n, max(2, n // 2), density=0.5, random_state=int(r.integers(2**31)), format="csr")
        return maps.LinearMap(A, b=r.standard_normal(n)), r.standard_normal(A.shape[1])
    raise ValueError(kind)


MAPS = ["id", "exp", "units", "sum", "wires", "linear"]


def locations(c, box, nodes, gap, r):
    return [place(box, nodes, rx, r, gap) for rx in c["rx"]]


def survey(c, locs, field="grav", amplitude_data=False):
    if field == "grav":
        rxs = [gravity.Point(x, components=list(rx["comps"])) for x, rx in zip(locs, c["rx"])]
        return gravity.Survey(gravity.SourceField(rxs))
    comps = [["bx", "by", "bz"] if amplitude_data else list(rx["comps"]) for rx in c["rx"]]
    rxs = [magnetics.Point(x, components=k) for x, k in zip(locs, comps)]
    amp, inc, dec = c["field"]
    return magnetics.Survey(magnetics.UniformBackgroundField(rxs, amplitude=amp, inclination=inc, declination=dec))


def blocks(c):
    """one block per (receiver, component)"""
    out, i = [], 0
    for rx in c["rx"]:
        k = len(rx["comps"])
        for j in range(k):
            out.append(np.arange(i + j, i + k * rx["n"], k))
        i += k * rx["n"]
    return out, i


def store_kw(c, tag="G"):
    kw = dict(
        engine=c["engine"],
        store_sensitivities=c["store"],
        sensitivity_dtype={"f32": np.float32, "f64": np.float64}[c["dtype"]],
        numba_parallel=bool(c.get("par", False)),
    )
    if c["store"] == "disk":
        kw["sensitivity_path"] = f"./sens_{tag}"
    return kw


field = st.tuples(
    st.sampled_from([50000.0, 23500.0, 1.0]),
    gen.floats(-90, 90, 1),
    gen.floats(-180, 360, 1),
).map(list)


def mesh3(small=True):
    return st.one_of(
        gen.tensor_mesh(dim=3, nmin=1, nmax=4),
        gen.tree_mesh(dim=3, logn=(1, 2) if small else (2, 3)),
    )


def mesh2():
    return st.one_of(gen.tensor_mesh(dim=2, nmin=1, nmax=5), gen.tree_mesh(dim=2, logn=(1, 3)))
