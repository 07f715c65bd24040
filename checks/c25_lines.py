"""C25: DC survey builders and converters place every electrode where it was asked, keep every datum once and say how they reordered the data."""

import warnings

import numpy as np
from hypothesis import strategies as st

from lib import gen
from lib.oracle import close, require
from lib.pbt import Sub

PROPERTY = "C25"
RULE = (
    "A case is a set of generated electrode positions (2D or 3D, repeated sources, sources equal up to rounding, poles and dipoles mixed, on or below the surface, shuffled), "
    "several straight lines in any direction, or the ends, spacing, topography and type of a line. Non-trivial: several data with several sources (or one source line)."
)
ASSUMPTIONS = ["electrodes are either further apart than 1 mm or equal up to rounding", "lines to convert are straight; their spacing does not divide the length up to rounding unless both are whole numbers on an axis"]


def quiet(f, *a, **k):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f(*a, **k)


def rows_of(survey):
    """(a, b, m, n, kind of source, kind of receiver) of every datum, read from the sources and receivers themselves."""
    out = []
    for src in survey.source_list:
        kind = type(src).__name__
        loc = src.location
        a, b = (loc[0], loc[1]) if kind == "Dipole" else (np.ravel(loc), np.ravel(loc))
        for rx in src.receiver_list:
            rk = type(rx).__name__
            if rk == "Dipole":
                m, n = rx.locations
            else:
                m = n = rx.locations
            for i in range(len(np.atleast_2d(m))):
                out.append((np.r_[np.ravel(a), np.ravel(b), np.atleast_2d(m)[i], np.atleast_2d(n)[i]], kind, rk, rx.data_type))
    return out


def check_rows(survey, index, rows, what, data_type):
    """rows: (n, 4*dim). The survey must hold each of them once, in the order of index."""
    got = rows_of(survey)
    require(len(got) == len(rows), f"{what}: {len(got)} data from {len(rows)} rows")
    require(survey.nD == len(rows), f"{what}: nD is {survey.nD} for {len(rows)} rows")
    index = np.asarray(index)
    require(np.array_equal(np.sort(index), np.arange(len(rows))), f"{what}: the order {index.tolist()} is not a permutation of the data")
    dim = rows.shape[1] // 4
    close(np.array([g[0] for g in got]), rows[index], what + ": electrodes", 1e-9, atol=1e-5)
    for g, row in zip(got, rows[index]):
        a, b, m, n = np.split(row, 4)
        require(g[1] == ("Pole" if np.abs(a - b).max() < 5e-4 else "Dipole"), f"{what}: source {a} {b} is a {g[1]}")
        require(g[2] == ("Pole" if np.abs(m - n).max() < 5e-4 else "Dipole"), f"{what}: receiver {m} {n} is a {g[2]}")
        require(g[3] == data_type, f"{what}: data type {g[3]}, asked for {data_type}")
    return dim


abmn_case = st.fixed_dictionaries({"dim": st.sampled_from([2, 3]), "nsrc": st.integers(1, 5), "nrx": st.integers(1, 5), "type": st.sampled_from(["pp", "pd", "dp", "dd", "mix"]), "order": st.sampled_from(["sorted", "shuffled"]), "noise": st.booleans(), "none": st.booleans(), "data": st.sampled_from(["volt", "apparent_resistivity", "apparent_chargeability"]), "off": st.sampled_from([0.0, 5e5]), "seed": gen.seeds})


def abmn(c):
    from simpeg.electromagnetics.static.utils import generate_survey_from_abmn_locations

    r = gen.rng(c)
    d = c["dim"]
    n = c["nsrc"] + 3 + c["nrx"]
    stations = np.c_[np.round(r.uniform(-500, 500, (n, d - 1)), 1) + c["off"], np.round(r.uniform(-40, 0, n), 1)]
    for i in range(n):  # no two stations at the same place
        stations[i, 0] += 1.01 * i
    rows, src = [], []
    for i in range(c["nsrc"]):
        k = r.integers(n, size=2)
        src_dip = c["type"] in ("dp", "dd") or (c["type"] == "mix" and r.random() < 0.5)
        rx_dip = c["type"] in ("pd", "dd")
        a, b = stations[k[0]], stations[k[1] if src_dip else k[0]]
        if src_dip and k[0] == k[1]:
            b = stations[(k[1] + 1) % n]
        for _ in range(r.integers(1, c["nrx"] + 1)):
            q = r.choice(n, 2, replace=False)
            dip = rx_dip or (c["type"] == "mix" and r.random() < 0.5)
            rows.append(np.r_[a, b, stations[q[0]], stations[q[1] if dip else q[0]]])
            src.append(i)
    rows = np.array(rows)
    if c["order"] == "shuffled":
        rows = rows[r.permutation(len(rows))]
    if c["noise"]:
        rows = rows + r.uniform(-1e-7, 1e-7, rows.shape)
    a, b, m, nn = np.split(rows, 4, axis=1)
    kw = dict(locations_a=a, locations_b=b, locations_m=m, locations_n=nn)
    if c["none"] and c["type"] == "pp":
        kw.pop("locations_b"), kw.pop("locations_n")
    keep = rows.copy()
    survey, index = quiet(generate_survey_from_abmn_locations, data_type=c["data"], output_sorting=True, **kw)
    require(np.array_equal(rows, keep), "the electrode arrays passed in were changed")
    check_rows(survey, index, rows, "survey from A, B, M, N", c["data"])
    close(np.c_[survey.locations_a, survey.locations_b, survey.locations_m, survey.locations_n], rows[np.asarray(index)], "locations_a, b, m, n of the survey", 1e-9, atol=1e-5)
    keys = [tuple(np.round(s.location if not isinstance(s.location, (list, tuple)) else np.r_[s.location[0], s.location[1]], 3).ravel()) for s in survey.source_list]
    require(len(set(keys)) == len(keys), f"a source appears twice: {keys}")
    one = quiet(generate_survey_from_abmn_locations, data_type=c["data"], **kw)
    require(one.nD == survey.nD, "output_sorting changes the survey")
    return [c["type"]] if len(rows) > 1 and len(keys) > 1 else ["trivial"]


line_case = st.fixed_dictionaries({"nl": st.integers(1, 3), "nst": st.integers(4, 9), "type": st.sampled_from(["pp", "pd", "dp", "dd", "mix"]), "order": st.sampled_from(["sorted", "shuffled"]), "depth": st.sampled_from(["flat", "relief", "hole"]), "dir": st.sampled_from(["x", "y", "any"]), "off": st.sampled_from([0.0, 5e5]), "nsrc": st.integers(1, 4), "seed": gen.seeds})


def lines(c):
    from simpeg.electromagnetics.static.resistivity import receivers, sources, Survey
    from simpeg.electromagnetics.static.utils import convert_survey_3d_to_2d_lines, generate_survey_from_abmn_locations

    r = gen.rng(c)
    rows, ids = [], []
    for ln in range(c["nl"]):
        t = {"x": 0.0, "y": np.pi / 2, "any": r.uniform(0, 2 * np.pi)}[c["dir"]]
        u = np.array([np.cos(t), np.sin(t)])
        s = np.cumsum(r.uniform(2, 20, c["nst"]))
        z = {"flat": np.zeros(len(s)), "relief": r.uniform(-5, 5, len(s)), "hole": np.zeros(len(s))}[c["depth"]]
        if c["depth"] == "hole":  # a borehole: electrodes below each other
            s[-1] = s[-2]
            z[-1] = -7.0
            s[1] = s[0]
            z[1] = -3.0
        st_ = np.c_[c["off"] + 100 * ln + s * u[0], 50 * ln + s * u[1], z]
        for _ in range(c["nsrc"]):
            k = r.choice(len(s), 2, replace=False)
            sd = c["type"] in ("dp", "dd") or (c["type"] == "mix" and r.random() < 0.5)
            for _ in range(r.integers(1, 4)):
                q = r.choice(len(s), 2, replace=False)
                rd = c["type"] in ("pd", "dd") or (c["type"] == "mix" and r.random() < 0.5)
                rows.append(np.r_[st_[k[0]], st_[k[1] if sd else k[0]], st_[q[0]], st_[q[1] if rd else q[0]]])
                ids.append(ln)
    rows, ids = np.array(rows), np.array(ids) * 3 + 1
    if c["order"] == "shuffled":
        p = r.permutation(len(rows))
        rows, ids = rows[p], ids[p]
    a, b, m, n = np.split(rows, 4, axis=1)
    survey, index = quiet(generate_survey_from_abmn_locations, locations_a=a, locations_b=b, locations_m=m, locations_n=n, data_type="volt", output_sorting=True)
    rows, ids = rows[index], ids[index]
    del receivers, sources, Survey
    # a line whose electrodes are all above each other has no direction
    for k in np.unique(ids):
        e = rows[ids == k].reshape(-1, 3)[:, :2]
        if np.abs(e - e[0]).max() < 0.1:
            return ["trivial"]
    got, order = quiet(convert_survey_3d_to_2d_lines, survey, ids, data_type="apparent_resistivity", output_indexing=True)
    require(len(got) == len(np.unique(ids)), f"{len(got)} lines from {len(np.unique(ids))}")
    all_ = np.sort(np.concatenate([np.asarray(o) for o in order]))
    require(np.array_equal(all_, np.arange(len(rows))), f"the lines hold the data {all_.tolist()}, should be each of {len(rows)} once")
    for s2, o, k in zip(got, order, np.unique(ids)):
        require(np.all(ids[o] == k), "a datum is on a line that is not its own")
        have = rows_of(s2)
        require(len(have) == len(o) == s2.nD, f"{len(have)} data on a line of {len(o)}")
        x2 = np.array([h[0] for h in have]).reshape(-1, 2)
        x3 = rows[o].reshape(-1, 3)
        close(x2[:, 1], x3[:, 2], "elevations", 1e-9, atol=1e-6)
        d2 = np.abs(x2[:, 0][:, None] - x2[:, 0][None])
        d3 = np.sqrt(((x3[:, None, :2] - x3[None, :, :2]) ** 2).sum(axis=2))
        close(d2, d3, "distances between the electrodes along the line", 1e-7, atol=1e-5)
        for h in have:
            e = h[0].reshape(4, 2)
            require(h[1] == ("Pole" if np.abs(e[0] - e[1]).max() < 5e-4 else "Dipole") and h[2] == ("Pole" if np.abs(e[2] - e[3]).max() < 5e-4 else "Dipole"), f"kind of source and receiver: {h}")
            require(h[3] == "apparent_resistivity", f"data type {h[3]}")
    return [c["type"], c["depth"]] if len(rows) > 1 else ["trivial"]


row_case = st.fixed_dictionaries({"dim": st.sampled_from(["2D", "2d", "2.5D", "3D", "3d"]), "type": st.sampled_from(["pole-pole", "pole-dipole", "dipole-pole", "dipole-dipole", "Dipole-Dipole"]), "n": st.integers(2, 9), "rx": st.integers(1, 9), "spacing": st.sampled_from([1.0, 5.0, 20.0]), "exact": st.booleans(), "rev": st.booleans(), "topo": st.sampled_from(["number", "surface"]), "data": st.sampled_from(["volt", "apparent_chargeability"]), "seed": gen.seeds})


def row(c):
    from simpeg.electromagnetics.static.utils import generate_dcip_sources_line

    r = gen.rng(c)
    h, n = c["spacing"], c["n"]
    x1 = float(r.integers(-50, 50))
    L = h * (n - 1) + (0.0 if c["exact"] else 0.4 * h)
    three = c["dim"].upper() == "3D"
    t = 0.0
    if three:
        t = r.choice([0, 0.5, 1, 1.5]) * np.pi if c["exact"] else r.uniform(0, 2 * np.pi)
    u = np.array([np.cos(t), np.sin(t)])
    if c["exact"]:
        u = np.round(u)
    if not three:
        u = np.array([-1.0 if c["rev"] else 1.0, 0.0])
    y1 = float(r.integers(-50, 50)) if three else 0.0
    p1 = np.array([x1, y1])
    p2 = p1 + L * u
    g = r.standard_normal(2) * 0.1
    z0 = 3.0
    if c["topo"] == "number":
        topo, zf = z0, lambda p: z0 + 0 * p[:, 0]
    elif three:
        xs = np.r_[p1, p2].reshape(2, 2)
        q = np.concatenate([xs.min(axis=0) - 10 + r.uniform(0, 1, (9, 2)) * (np.ptp(xs, axis=0) + 20)] + [np.array([[xs[:, 0].min() - 30, xs[:, 1].min() - 30], [xs[:, 0].min() - 30, xs[:, 1].max() + 30], [xs[:, 0].max() + 30, xs[:, 1].min() - 30], [xs[:, 0].max() + 30, xs[:, 1].max() + 30]])])
        zf = lambda p: z0 + p @ g  # noqa: E731
        topo = np.c_[q, zf(q)]
    else:
        lo, hi = min(p1[0], p2[0]) - 5, max(p1[0], p2[0]) + 5
        xk = np.sort(np.r_[lo, hi, r.uniform(lo, hi, 4)])
        zk = r.uniform(-4, 4, 6)
        topo = np.c_[xk, zk] if r.random() < 0.5 else np.c_[xk, np.zeros(6), zk]
        zf = lambda p: np.interp(p[:, 0], xk, zk)  # noqa: E731
    P = p1 + np.outer(np.arange(n) * h, u)
    P = np.c_[P if three else P[:, :1], zf(P)]
    kind = c["type"].lower()
    src_dip, rx_dip = kind.startswith("dipole"), kind.endswith("-dipole")
    rows = []
    for i in range(n):
        ib = i + 1 if src_dip else i
        # receivers start one station after the source; with a dipole receiver its first electrode is there
        count = 0
        for m in range(ib + 1, n):
            k = m + 1 if rx_dip else m
            if k >= n or count >= c["rx"]:
                break
            rows.append(np.r_[P[i], P[ib], P[m], P[k]])
            count += 1
    ends = np.array([p1[0], p2[0], p1[1], p2[1]]) if three else np.array([p1[0], p2[0]])
    sl = generate_dcip_sources_line(c["type"], c["data"], c["dim"], ends, topo, c["rx"], h)

    class S:
        source_list = sl

    got = rows_of(S)
    require(len(got) == len(rows), f"{len(got)} data on a {kind} line of {n} stations with {c['rx']} receivers, should be {len(rows)}")
    if not rows:
        return ["trivial"]
    close(np.array([x[0] for x in got]), np.array(rows), f"electrodes of the {kind} line", 1e-9, atol=1e-6)
    for x in got:
        require(x[1] == ("Dipole" if src_dip else "Pole") and x[2] == ("Dipole" if rx_dip else "Pole") and x[3] == c["data"], f"kinds of a {kind} line: {x[1:]}")
    return [kind]


grad_case = st.fixed_dictionaries({"type": st.sampled_from(["gradient", "dipole-dipole", "pole-dipole", "dipole-pole", "pole-pole"]), "a": st.sampled_from([5.0, 10.0]), "b": st.sampled_from([5.0, 10.0, 20.0]), "n": st.integers(1, 6), "L": st.integers(50, 150), "seed": gen.seeds})


def older(c):
    from simpeg.electromagnetics.static.utils import generate_dcip_survey

    r = gen.rng(c)
    t = r.uniform(0, 2 * np.pi)
    u = np.array([np.cos(t), np.sin(t)])
    v = np.array([-u[1], u[0]])
    z = float(r.uniform(-5, 5))
    p1 = r.uniform(-50, 50, 2)
    p2 = p1 + c["L"] * u
    endl = np.array([[*p1, z], [*p2, z]])
    keep = endl.copy()
    survey = quiet(generate_dcip_survey, endl, c["type"], c["a"], c["b"], c["n"], dim=3)
    require(np.array_equal(endl, keep), "the end points passed in were changed")
    got = rows_of(survey)
    kind = c["type"]
    for x, sk, rk, _ in got:
        A, B, M, N = x.reshape(4, 3)
        for e in (A, B, M, N):
            close(e[2], z, "elevation", 1e-9, atol=1e-9)
        s = [(e[:2] - p1) @ u for e in (A, B, M, N)]
        w = [(e[:2] - p1) @ v for e in (A, B, M, N)]
        if kind == "gradient":
            close(s[:2], [0, c["L"]], "current electrodes at the ends of the line", 1e-9, atol=1e-6)
            close(w[:2], [0, 0], "current electrodes on the line", 1e-9, atol=1e-6)
            close(s[3] - s[2], c["a"], "length of the receiver dipoles", 1e-9, atol=1e-6)
            require(s[2] > c["b"] - 1e-6 and s[3] < c["L"] - c["b"] + 1e-6, f"receivers {s[2:]} outside the area {c['b']} from the ends of a line of {c['L']}")
            close(w[2], w[3], "receiver dipoles along the line", 1e-9, atol=1e-6)
            continue
        close(w, np.zeros(4), "electrodes on the line", 1e-9, atol=1e-6)
        if kind.startswith("dipole"):
            close(s[1] - s[0], c["a"], "length of the source dipoles", 1e-9, atol=1e-6)
        if kind.endswith("-dipole"):
            close(s[3] - s[2], c["a"], "length of the receiver dipoles", 1e-9, atol=1e-6)
        require(s[2] - s[1] >= c["b"] - 1e-6, f"receiver {s[2]} nearer than {c['b']} to the source {s[1]}")
        k = (s[2] - s[0] - c["a"] - c["b"]) / c["a"]
        require(abs(k - round(k)) < 1e-6 and -1e-6 < k < c["n"] - 1 + 1e-6, f"receiver at {s[2]} is not one of the {c['n']} of the source at {s[0]}")
        require(sk == ("Dipole" if kind.startswith("dipole") else "Pole") and rk == ("Dipole" if kind.endswith("-dipole") else "Pole"), f"{kind}: {sk}, {rk}")
    seen = {tuple(np.round(g[0], 6)) for g in got}
    require(len(seen) == len(got), "a datum appears twice")
    return [kind] if got else ["trivial"]


SUBS = [
    Sub("abmn", abmn_case, abmn, quick=300, thorough=8000, shards=1, cost=1.0),
    Sub("lines", line_case, lines, quick=250, thorough=8000, shards=1, cost=1.0),
    Sub("row", row_case, row, quick=300, thorough=8000, shards=1, cost=1.0),
    Sub("older", grad_case, older, quick=120, thorough=3000, shards=1, cost=1.0),
]
