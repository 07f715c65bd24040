"""C19: what is written to a data file comes back from it."""

import contextlib
import io
import os
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st
from simpeg import data as data_module
from simpeg.electromagnetics import natural_source as nsem
from simpeg.electromagnetics.static import resistivity as dc
from simpeg.potential_fields import gravity, magnetics
from simpeg.utils import io_utils

from lib import gen
from lib.oracle import close_each, require
from lib.pbt import Sub

PROPERTY = "C19"
RULE = (
    "A case is a survey (pole and dipole sources and receivers mixed, several receivers per source, local or map coordinates; potential-field stations and components; "
    "impedances and tippers) with data and uncertainties of at most 7 digits, a file format and its options, and for xyz files an order of columns. "
    "The file is written and read again (or written by the check in the documented format and read), and each reading is compared with the one written. "
    "Non-trivial: more than one datum."
)
ASSUMPTIONS = [
    "Values are representable with the digits of the format (%e).",
    "Records of natural-source data have the receivers of a source at the same stations.",
]


@contextlib.contextmanager
def scratch(name):
    with tempfile.TemporaryDirectory() as d, contextlib.redirect_stdout(io.StringIO()), warnings.catch_warnings():
        warnings.simplefilter("ignore")
        yield os.path.join(d, name)


def digits(x):
    return np.vectorize(lambda v: float(f"{v:e}"))(np.asarray(x, dtype=float))


def values(r, n):
    return digits(r.choice([-1.0, 1.0], n) * 10 ** r.uniform(-6, 3, n)), digits(10 ** r.uniform(-7, 2, n))


# ---------------------------------------------------------------------------------------------- DC and IP
dc_source = st.fixed_dictionaries(
    {
        "pole": st.booleans(),
        "rx": st.lists(st.fixed_dictionaries({"pole": st.booleans(), "n": st.integers(1, 3)}), min_size=1, max_size=3),
    }
)
dc_survey = {
    "dim": st.sampled_from([2, 3]),
    "sources": st.lists(dc_source, min_size=1, max_size=4),
    "where": st.sampled_from(["local", "map"]),
    "a": st.sampled_from([1.0, 5.0, 25.0]),
    "seed": gen.seeds,
}


def electrodes(c, r):
    """electrodes on a line or grid of spacing a, with elevations; exact in 7 digits"""
    k = r.permutation(40)[:12]
    if c["dim"] == 2:
        x = c["a"] * k + (500000.0 if c["where"] == "map" else -20.0)
        e = np.c_[x, np.round(r.uniform(100, 400, 12), 1)]
    else:
        x = c["a"] * (k % 8) + (432100.0 if c["where"] == "map" else -20.0)
        y = c["a"] * (k // 8) + (5432100.0 if c["where"] == "map" else -30.0)
        e = np.c_[x, y, np.round(r.uniform(100, 400, 12), 1)]
    return digits(e)


def build_dc(c, r, surface=False, flat=False):
    e = electrodes(c, r)
    if surface:
        e[:, -1] = 9999.0
    S, rows = [], []
    for s in c["sources"]:
        p = r.permutation(12)
        rxs = []
        for q in s["rx"]:
            m = e[r.permutation(p[2:])[: 2 * q["n"]]]
            m, n = m[: q["n"]], m[q["n"] :]
            if q["pole"]:
                rxs.append(dc.receivers.Pole(m.copy()))
                n = m
            else:
                rxs.append(dc.receivers.Dipole(m.copy(), n.copy()))
            for i in range(q["n"]):
                rows.append((e[p[0]], e[p[0] if s["pole"] else p[1]], m[i], n[i], s["pole"], q["pole"]))
        if s["pole"]:
            S.append(dc.sources.Pole(rxs, e[p[0]].copy()))
        else:
            S.append(dc.sources.Dipole(rxs, e[p[0]].copy(), e[p[1]].copy()))
    return dc.Survey(S), rows


def rows_of(survey):
    out = []
    for s in survey.source_list:
        sp = isinstance(s, dc.sources.Pole)
        A = np.atleast_2d(np.asarray(s.location))
        for rx in s.receiver_list:
            rp = isinstance(rx, dc.receivers.Pole)
            M, N = (rx.locations, rx.locations) if rp else rx.locations
            for m, n in zip(np.atleast_2d(M), np.atleast_2d(N)):
                out.append((A[0], A[0 if sp else 1], m, n, sp, rp))
    return out


def flatten(rows, *columns):
    for q in rows:
        require(len({len(x) for x in q[:4]}) == 1, f"electrodes of one reading have coordinates {[x.tolist() for x in q[:4]]}")
    return [tuple(np.concatenate(q[:4]).tolist()) + q[4:] + tuple(float(col[i]) for col in columns) for i, q in enumerate(rows)]


def same(got, want, what, order=True):
    require(len(got) == len(want), f"{what}: {len(got)} readings of {len(want)} come back")
    if not order:
        got, want = sorted(got, key=repr), sorted(want, key=repr)
    for i, (g, w) in enumerate(zip(got, want)):
        ok = len(g) == len(w) and all(x == y or (x != x and y != y) or abs(x - y) <= 1e-9 * abs(y) for x, y in zip(g, w))
        require(ok, f"{what}: reading {i} comes back as {g}, written {w} (a, b, m, n, pole source, pole receiver, data...)")


def unchanged(data, before, what):
    """writing a file does not change the data"""
    same(flatten(rows_of(data.survey), data.dobs, data.standard_deviation), before, what + " after writing", True)


def check_ubc(c):
    r = gen.rng(c)
    fmt = c["format"]
    if c["dim"] == 3 and fmt == "simple":
        fmt = "surface"
    survey, rows = build_dc(c, r, surface=fmt != "general")
    dobs, std = values(r, len(rows))
    if c["dim"] == 3 and c["file"] == "dpred":
        dobs = np.abs(dobs)
    data = data_module.Data(survey, dobs=dobs.copy(), standard_deviation=std.copy())
    before = flatten(rows, dobs, std)
    what = f"DCIP{c['dim']}D {fmt} {c['file']} {c['type']}"
    with scratch("data.obs") as f:
        if c["dim"] == 2:
            io_utils.write_dcip2d_ubc(f, data, c["type"], c["file"], format_type=fmt, comment_lines=c["comment"])
            back = io_utils.read_dcip2d_ubc(f, c["type"], fmt)
        elif c["octree"]:
            io_utils.write_dcipoctree_ubc(f, data, c["type"], c["file"], format_type=fmt, comment_lines=c["comment"])
            back = io_utils.read_dcipoctree_ubc(f, c["type"])
        else:
            io_utils.write_dcip3d_ubc(f, data, c["type"], c["file"], format_type=fmt, comment_lines=c["comment"])
            back = io_utils.read_dcip3d_ubc(f, c["type"])
    cols, exp = [], []
    if c["file"] != "survey":
        cols.append(back.dobs)
        exp.append(dobs)
    if c["file"] == "dobs":
        cols.append(back.standard_deviation)
        exp.append(std)
    same(flatten(rows_of(back.survey), *cols), flatten(rows, *exp), what, order=fmt != "simple")
    unchanged(data, before, what)
    ty = "apparent_chargeability" if c["type"] == "apparent_chargeability" else "volt"
    for s in back.survey.source_list:
        for rx in s.receiver_list:
            require(rx.data_type == ty, f"{what}: receivers of type {rx.data_type}")
    kinds = {(q[4], q[5]) for q in rows}
    return [fmt, c["file"], f"{c['dim']}D"] + (["mixed"] if len(kinds) > 1 else []) + (["trivial"] if len(rows) < 2 else [])


def check_xyz(c):
    r = gen.rng(c)
    survey, rows = build_dc(c, r, surface=c["surface"])
    dobs, std = values(r, len(rows))
    extra = {"LINE": digits(r.integers(0, 9, len(rows))), "GATE": values(r, len(rows))[0]}
    ax = "XYZ" if c["dim"] == 3 else "XZ"
    full = [q + e for e in "ABMN" for q in ax]
    heads = {e: [q + e for q in (ax[:-1] if c["surface"] else ax)] for e in "ABMN"}
    kw = {f"{e.lower()}_headers": tuple(heads[e]) for e in "ABMN"}
    if c["data"]:
        kw["data_header"] = "VOLT"
    if c["std"]:
        kw["uncertainties_header"] = "UNCERT"
    if c["extra"]:
        kw["dict_headers"] = [k for k in ("GATE", "LINE") if r.random() < 0.7] or ["LINE"]
    what = f"{c['dim']}D xyz{' surface' if c['surface'] else ''} {'own columns' if c['own'] else ''}"
    with scratch("data.xyz") as f:
        if c["own"]:
            # columns in any order, others in between
            table = np.array([np.concatenate(q[:4]) for q in rows])
            cols = {h: table[:, i] for i, h in enumerate(full)}
            cols.update(VOLT=dobs, UNCERT=std, ID=np.arange(1, len(rows) + 1), **extra)
            if c["surface"]:
                cols = {h: v for h, v in cols.items() if h not in ["ZA", "ZB", "ZM", "ZN"]}
            names = [list(cols)[i] for i in r.permutation(len(cols))]
            with open(f, "w") as fid:
                fid.write(" ".join(names) + "\n")
                np.savetxt(fid, np.c_[tuple(cols[h] for h in names)], fmt="%.9e")
        else:
            data = data_module.Data(survey, dobs=dobs.copy(), standard_deviation=std.copy())
            io_utils.write_dcip_xyz(
                f,
                data,
                data_header="VOLT" if c["data"] else None,
                uncertainties_header="UNCERT" if c["std"] else None,
                out_dict=extra if c["extra"] else None,
            )
            unchanged(data, flatten(rows, dobs, std), what)
        back = io_utils.read_dcip_xyz(f, c["type"], is_surface_data=c["surface"], **kw)
    got, exp = [], []
    if c["extra"]:
        back, d = back
        require(sorted(d) == sorted(kw["dict_headers"]), f"{what}: extra columns {sorted(d)}")
        for k in sorted(d):
            got.append(d[k])
            exp.append(extra[k])
    if c["data"]:
        got.append(back.dobs)
        exp.append(dobs)
    if c["std"] and c["data"]:
        got.append(back.standard_deviation)
        exp.append(std)
    same(flatten(rows_of(back.survey), *got), flatten(rows, *exp), what, order=False)
    for s in back.survey.source_list:
        for rx in s.receiver_list:
            require(rx.data_type == c["type"], f"{what}: receivers of type {rx.data_type}")
    return [f"{c['dim']}D", "own" if c["own"] else "written"] + (["trivial"] if len(rows) < 2 else [])


# ---------------------------------------------------------------------------------------------- potential fields
GG = ["gxx", "gxy", "gxz", "gyy", "gyz", "gzz", "guv"]


def check_pf(c):
    r = gen.rng(c)
    n = c["n"]
    X = digits(r.uniform(-500, 500, (n, 3)))
    what = f"{c['kind']} file"
    comps = [GG[i] for i in r.permutation(len(GG))[: c["nc"]]] if c["kind"] == "gg" else None
    nd = n * (len(comps) if comps else 1)
    dobs, std = values(r, nd)
    if c["data"] == "zero":
        dobs[:] = 0.0
    kw = {}
    if c["data"] != "none":
        kw["dobs"] = dobs.copy()
    if c["std"] or c["data"] == "zero":
        kw["standard_deviation"] = std.copy()
    else:
        std = np.zeros(nd)
    if c["data"] == "none":
        dobs = np.full(nd, np.nan)
    if c["kind"] == "mag":
        B = np.round([r.uniform(2e4, 6e4), r.uniform(-90, 90), r.uniform(-180, 180)], 2)
        src = magnetics.sources.UniformBackgroundField([magnetics.receivers.Point(X.copy())], amplitude=B[0], inclination=B[1], declination=B[2])
        data = data_module.Data(magnetics.Survey(src), **kw)
        write, read = io_utils.write_mag3d_ubc, io_utils.read_mag3d_ubc
    else:
        rx = gravity.receivers.Point(X.copy(), components=list(comps) if comps else "gz")
        data = data_module.Data(gravity.Survey(gravity.sources.SourceField([rx])), **kw)
        write, read = (io_utils.write_gg3d_ubc, io_utils.read_gg3d_ubc) if comps else (io_utils.write_grav3d_ubc, io_utils.read_grav3d_ubc)
    with scratch("data.obs") as f:
        write(f, data)
        back = read(f)
    for d, w in ((data, "after writing"), (back, "read again")):
        src = d.survey.source_field
        close_each(src.receiver_list[0].locations, X, f"{what} {w}: stations", 1e-9)
        close_each(d.dobs, dobs, f"{what} {w}: data", 1e-9)
        if c["data"] != "none":
            close_each(d.standard_deviation, std, f"{what} {w}: uncertainties", 1e-9)
        if comps:
            require(list(src.receiver_list[0].components) == comps, f"{what} {w}: components {src.receiver_list[0].components}, not {comps}")
        if c["kind"] == "mag":
            close_each(np.array([src.amplitude, src.inclination, src.declination]), B, f"{what} {w}: inducing field", 1e-9)
            require(list(src.receiver_list[0].components) == ["tmi"], f"{what} {w}: components {src.receiver_list[0].components}")
        if c["kind"] == "grav":
            require(list(src.receiver_list[0].components) == ["gz"], f"{what} {w}: components {src.receiver_list[0].components}")
    return [c["kind"], c["data"]] + (["trivial"] if nd < 2 else [])


# ---------------------------------------------------------------------------------------------- natural source
def check_nsem(c):
    r = gen.rng(c)
    freqs = r.permutation([0.1, 1.0, 10.0, 100.0, 33.0])[: c["nf"]]
    both = c["out"] == "Complex"
    S, table = [], {}
    vals = []
    for f in freqs:
        X = digits(r.uniform(-500, 500, (1 + int(r.integers(c["n"])), 3)))
        X[:, : 3 - c["dim"]] = 0.0
        rxs = []
        for i in r.permutation(6)[: c["nrx"]]:
            o = ["xx", "xy", "yx", "yy", "zx", "zy"][i]
            cls = nsem.receivers.Tipper if o[0] == "z" else nsem.receivers.Impedance
            parts = ["real", "imag"] if both else [["real"], ["imag"], ["real", "imag"], ["imag", "real"]][int(r.integers(4))]
            for p in parts:
                rxs.append(cls(X[:, 3 - c["dim"] :].copy(), orientation=o, component=p))
                v = values(r, len(X))[0]
                vals.append(v)
                for x, q in zip(X, v):
                    table[(float(f), cls.__name__, o, p) + tuple(x.tolist())] = q
        S.append(nsem.sources.PlanewaveXYPrimary(rxs, float(f)))
    data = nsem.Data(nsem.Survey(S), dobs=np.concatenate(vals))
    rec = data.toRecArray(c["out"])
    back = nsem.Data.fromRecArray(rec)
    got = {}
    k = 0
    for s in back.survey.source_list:
        for rx in s.receiver_list:
            for x, v in zip(rx.locations[0], back.dobs[k : k + rx.nD]):
                key = (float(s.frequency), type(rx).__name__, rx.orientation, rx.component) + tuple(x.tolist())
                require(key not in got, f"NSEM records {c['out']}: {key} twice")
                got[key] = v
            k += rx.nD
    require(k == back.nD, f"NSEM records: {back.nD} data for {k} readings")
    lost, new = set(table) - set(got), set(got) - set(table)
    require(not lost and not new, f"NSEM records {c['out']}: lost {sorted(lost)[:3]}, new {sorted(new)[:3]}")
    for q, v in table.items():
        require(got[q] == v, f"NSEM records {c['out']}: {q} is {got[q]}, was {v}")
    return [c["out"]] + (["trivial"] if len(table) < 2 else [])


SUBS = [
    Sub(
        "ubc",
        st.fixed_dictionaries(
            {
                **dc_survey,
                "format": st.sampled_from(["general", "surface", "simple"]),
                "file": st.sampled_from(["survey", "dpred", "dobs", "dobs"]),
                "type": st.sampled_from(["volt", "apparent_chargeability", "secondary_potential"]),
                "comment": st.sampled_from([None, "", "a comment", "! a comment\n"]),
                "octree": st.booleans(),
            }
        ),
        check_ubc,
        quick=700,
        thorough=20000,
    ),
    Sub(
        "xyz",
        st.fixed_dictionaries(
            {
                **dc_survey,
                "surface": st.booleans(),
                "own": st.booleans(),
                "data": st.booleans(),
                "std": st.booleans(),
                "extra": st.booleans(),
                "type": st.sampled_from(["volt", "apparent_resistivity", "apparent_chargeability"]),
            }
        ).map(lambda c: {**c, "own": c["own"] or c["surface"]}),
        check_xyz,
        quick=500,
        thorough=15000,
    ),
    Sub(
        "potential_fields",
        st.fixed_dictionaries(
            {
                "kind": st.sampled_from(["mag", "grav", "gg", "gg"]),
                "n": st.integers(1, 4),
                "nc": st.integers(1, 7),
                "data": st.sampled_from(["some", "some", "some", "zero", "none"]),
                "std": st.booleans(),
                "seed": gen.seeds,
            }
        ),
        check_pf,
        quick=400,
        thorough=10000,
    ),
    Sub(
        "natural_source",
        st.fixed_dictionaries(
            {
                "nf": st.integers(1, 3),
                "n": st.integers(1, 3),
                "nrx": st.integers(1, 6),
                "dim": st.sampled_from([3, 3, 2, 1]),
                "out": st.sampled_from(["RealImag", "Complex"]),
                "seed": gen.seeds,
            }
        ),
        check_nsem,
        quick=200,
        thorough=5000,
    ),
]
