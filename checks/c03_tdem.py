"""C03: time-domain EM (3D / cylindrical) sensitivities."""

import numpy as np
from hypothesis import strategies as st
from scipy.constants import mu_0
from simpeg import maps
from simpeg.electromagnetics import time_domain as tdem

from lib import gen, sens
from lib.pbt import Sub

PROPERTY = "C03"
RULE = (
    "A case is a mesh (tensor, tree, symmetric cylindrical), one of the four formulations, 1-3 sources with a random kind "
    "(magnetic dipole, circular loop, closed wire, grounded wire, raw grounded source), a waveform each, 1-3 receivers per "
    "source (the fields the formulation provides; arbitrary orientations and times, up to the last time step), non-uniform "
    "time steps and a model of sigma or rho. Jvec is compared with Richardson-extrapolated differences of dpred receiver by "
    "receiver and Jtvec by the dot-product identity per receiver. Non-trivial: non-zero sensitivity product with a "
    "conclusive difference."
)
ASSUMPTIONS = [
    "conductivities 1e-3..10 S/m, fewer than about 150 cells, 2-9 time steps that are equal or differ by more than dt_threshold",
    "fields and initial conditions that the formulation documents as not implemented are not generated",
]

SIMS = {
    "e": tdem.Simulation3DElectricField,
    "b": tdem.Simulation3DMagneticFluxDensity,
    "j": tdem.Simulation3DCurrentDensity,
    "h": tdem.Simulation3DMagneticField,
}
RX = {
    "e": tdem.receivers.PointElectricField,
    "b": tdem.receivers.PointMagneticFluxDensity,
    "dbdt": tdem.receivers.PointMagneticFluxTimeDerivative,
    "h": tdem.receivers.PointMagneticField,
    "dhdt": tdem.receivers.PointMagneticFieldTimeDerivative,
    "j": tdem.receivers.PointCurrentDensity,
}
HAS = {
    "e": ["e", "j", "dbdt", "dhdt"],
    "b": ["e", "b", "dbdt", "h", "dhdt", "j"],
    "h": ["e", "b", "dbdt", "h", "dhdt", "j"],
    "j": ["e", "j", "dbdt", "dhdt"],
}
WAVES = ["off", "ramp", "tri", "trap", "vtem", "quarter", "half", "piece", "exp", "raw", "raw_init"]
KINDS = {
    "e": ["dip", "loop", "wire", "line", "raw"],
    "b": ["dip", "loop", "wire", "line0"],
    "h": ["dip", "loop", "wire", "line"],
    "j": ["dip", "wire", "line", "raw"],
}


@st.composite
def case(draw, cyl=False):
    form = draw(st.sampled_from("eb" if cyl else "ebhj"))
    mesh = draw(
        gen.cyl_mesh(4, 6, base=(10.0,))
        if cyl
        else st.one_of(
            gen.tensor_mesh(3, 3, 4, base=(10.0,)),
            gen.tensor_mesh(3, 3, 4, base=(10.0,)),
            gen.tree_mesh(3, (2, 2), base=(10.0,), level=1),
        )
    )
    rx = st.fixed_dictionaries(
        {
            "f": st.sampled_from(HAS[form]),
            "o": st.sampled_from(["x", "y", "z", "v"]),
            "n": st.integers(1, 2),
            "t": st.lists(st.sampled_from([0.05, 0.3, 0.5, 0.77, 0.97, 1.0]), min_size=1, max_size=3, unique=True),
        }
    )
    src = st.fixed_dictionaries(
        {
            "kind": st.sampled_from(["dip", "loop"] if cyl else KINDS[form]),
            "wave": st.sampled_from(["off", "off"] + WAVES),
            "rx": st.lists(rx, min_size=1, max_size=3),
            "amp": st.sampled_from([1.0, 3.0]),
            "v": st.integers(0, 3),
        }
    )
    return {
        "mesh": mesh,
        "form": form,
        "cyl": cyl,
        "prop": draw(st.sampled_from(["sigma", "rho"])),
        "map": draw(st.sampled_from(["exp", "exp", "active", "identity"])),
        "mu": draw(st.sampled_from(["default", "default", "const"])),
        "lsig": draw(st.sampled_from([-2.0, -1.0, 0.0])),
        "steps": draw(st.lists(st.tuples(st.sampled_from([1e-6, 3e-6, 1e-5, 5e-5]), st.integers(1, 2)), min_size=1, max_size=4)),
        "t0": draw(st.sampled_from([0.0, 0.0, 1e-6])),
        "srcs": draw(st.lists(src, min_size=1, max_size=3)),
        "order": draw(st.integers(0, 3)),
        "seed": draw(gen.seeds),
    }


def wave(w, T, t0, k):
    tw = tdem.sources
    a, b = t0 + 0.2 * (T - t0), t0 + (0.4 + 0.15 * k) * (T - t0)
    if w == "off":
        return tw.StepOffWaveform(off_time=t0)
    if w == "ramp":
        return tw.RampOffWaveform(t0, b)
    if w == "tri":
        return tw.TriangularWaveform(start_time=t0, peak_time=a, off_time=b)
    if w == "trap":
        return tw.TrapezoidWaveform(ramp_on=np.r_[t0, a], ramp_off=np.r_[0.5 * (a + b), b])
    if w == "vtem":
        return tw.VTEMWaveform(off_time=b, peak_time=a, ramp_on_rate=3.0)
    if w == "quarter":
        return tw.QuarterSineRampOnWaveform(ramp_on=np.r_[t0, a], ramp_off=np.r_[0.5 * (a + b), b])
    if w == "half":
        return tw.HalfSineWaveform(ramp_on=np.r_[t0, a], ramp_off=np.r_[0.5 * (a + b), b])
    if w == "piece":
        return tw.PiecewiseLinearWaveform(times=np.r_[t0, a, 0.5 * (a + b), b], currents=np.r_[0.0, 1.0, 0.7, 0.0])
    if w == "exp":
        return tw.ExponentialWaveform(off_time=b, peak_time=a, start_time=t0, ramp_on_tau=0.3 * (a - t0))
    if w == "raw":
        return tw.RawWaveform(waveform_function=lambda t: np.sin(3.0 * (t - t0) / (T - t0)), off_time=b)
    return tw.RawWaveform(
        has_initial_fields=True, off_time=b, waveform_function=lambda t: float(np.exp(-3.0 * (t - t0) / (T - t0)))
    )


HAS_INIT = ("off", "ramp", "raw_init")


def build_survey(c, mesh, r, T, flip=False):
    form, cyl, t0 = c["form"], c["cyl"], c["t0"]
    L = gen.lims(mesh)
    if cyl:
        R, zlo, zhi = np.sum(mesh.h[0]), L[-1, 0], L[-1, 1]

        def pts(k):
            rad = R * (0.15 + 0.7 * r.random(k))
            return np.c_[rad, np.zeros(k), zlo + (zhi - zlo) * (0.15 + 0.7 * r.random(k))]

        ctr = np.r_[0.0, 0.0, 0.5 * (zlo + zhi)]
    else:

        def pts(k):
            return gen.inside_points(mesh, r, k, 0.15)

        ctr = pts(1)[0]
    srcs = []
    for s in c["srcs"]:
        rxs = []
        for q in s["rx"]:
            o = q["o"]
            if o == "v":
                o = r.standard_normal(3)
                o /= np.linalg.norm(o)
            if cyl:
                edge = q["f"] in ("e", "j")
                o = "y" if edge else ("z" if (q["o"] in "yz") != flip else "x")
            elif flip:
                # the other directions at the same place: the scale of rounding errors
                o = np.r_[0.6, 0.48, 0.64]
            times = t0 + (T - t0) * np.sort(np.array(q["t"]))
            rxs.append(RX[q["f"]](pts(q["n"]), times, orientation=o))
        k = s["kind"]
        w = s["wave"]
        if k == "line0" and w in HAS_INIT:
            w = "tri"
        wv = wave(w, T, t0, s["v"] / 3.0)
        kw = dict(waveform=wv)
        o = ["x", "y", "z", "z"][s["v"]] if not cyl else "z"
        if k == "dip":
            src = tdem.sources.MagDipole(rxs, location=ctr, moment=s["amp"], orientation=o, **kw)
        elif k == "loop":
            src = tdem.sources.CircularLoop(rxs, location=ctr, current=s["amp"], radius=3.0, n_turns=2, orientation=o, **kw)
        elif form in "hj":
            # faces: axis-aligned wires through cell centres of a tensor mesh
            if mesh._meshType == "TREE":
                src = tdem.sources.MagDipole(rxs, location=ctr, moment=s["amp"], orientation=o, **kw)
            else:
                g = [mesh.cell_centers_x, mesh.cell_centers_y, mesh.cell_centers_z]
                i0 = [int(r.integers(n)) for n in mesh.shape_cells]
                ax, bx = [(0, 1), (1, 2), (2, 0)][s["v"] % 3]

                def nxt(i, a):
                    n = mesh.shape_cells[a]
                    return (i + 1 + int(r.integers(n - 1))) % n

                i1 = list(i0)
                i1[ax] = nxt(i0[ax], ax)
                i2 = list(i1)
                i2[bx] = nxt(i1[bx], bx)
                i3 = list(i0)
                i3[bx] = i2[bx]
                loop = [i0, i1, i2, i3, i0] if k == "wire" else [i0, i1, i2]
                p = np.array([[g[d][q[d]] for d in range(3)] for q in loop])
                if k == "raw":
                    ref = tdem.sources.LineCurrent(location=p)
                    from simpeg.electromagnetics.utils import line_through_faces

                    s_e = line_through_faces(mesh, p, normalize_by_area=True)
                    src = tdem.sources.RawVec_Grounded(rxs, s_e=s["amp"] * s_e, location=p, **kw)
                    del ref
                else:
                    src = tdem.sources.LineCurrent(rxs, location=p, current=s["amp"], **kw)
        else:
            p = pts(3)
            if k == "wire":
                p = np.r_[p, p[:1]]
            if k == "raw":
                from simpeg.electromagnetics.utils import segmented_line_current_source_term

                s_e = segmented_line_current_source_term(mesh, p)
                src = tdem.sources.RawVec_Grounded(rxs, s_e=s["amp"] * s_e, location=p, **kw)
            else:
                src = tdem.sources.LineCurrent(rxs, location=p, current=s["amp"], **kw)
        srcs.append(src)
    return tdem.Survey(srcs)


def run(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    n = mesh.n_cells
    logsig = np.log(10.0) * c["lsig"] + 0.6 * r.standard_normal(n)
    s = 1 if c["prop"] == "sigma" else -1
    kw = {}
    key = c["prop"] + "Map"
    if c["map"] == "exp":
        kw[key], m = maps.ExpMap(nP=n), s * logsig
    elif c["map"] == "active":
        a = r.random(n) < 0.7
        a[:2] = True
        kw[key] = maps.InjectActiveCells(mesh, a, value_inactive=1e-3 if s == 1 else 1e3) * maps.ExpMap(nP=int(a.sum()))
        m = s * logsig[a]
    else:
        kw[key], m = maps.IdentityMap(nP=n), np.exp(s * logsig)
    mur = 1.0 + r.random(n)
    if c["mu"] == "const" and not (
        c["form"] in "hj" and any(q["kind"] in ("dip", "loop") or mesh._meshType == "TREE" for q in c["srcs"])
    ):
        kw["mu"] = mu_0 * mur
    steps = [tuple(q) for q in c["steps"]]
    ts = np.concatenate([np.full(k, dt) for dt, k in steps])
    if ts.size < 2:
        ts = np.r_[ts, ts]
    T = c["t0"] + ts.sum()
    s0 = int(r.integers(1 << 31))

    def make(flip=False):
        survey = build_survey(c, mesh, np.random.default_rng(s0), T, flip)
        return SIMS[c["form"]](mesh, survey=survey, time_steps=ts, t0=c["t0"], **kw)

    v = r.standard_normal(m.size)
    if c["map"] == "identity":
        v *= np.abs(m)
    what = f"TDEM {c['form']} {c['prop']} " + ",".join(
        q["kind"] + "/" + q["wave"] + "(" + " ".join(x["f"] for x in q["rx"]) + ")" for q in c["srcs"]
    )
    lab = sens.judge(
        make,
        m,
        v,
        r,
        what,
        h=5e-2,
        rtol=1e-5,
        adj_rtol=1e-6,
        order=c["order"],
        rep_rtol=1e-7,
        flip=lambda: make(True),
    )
    return lab + [c["form"], c["prop"]] + [q["kind"] for q in c["srcs"]] + [q["wave"] for q in c["srcs"]]


SUBS = [
    Sub("cartesian", case(False), run, quick=280, thorough=5000, shards=6, cost=4),
    Sub("cyl_symmetric", case(True), run, quick=140, thorough=2000, shards=2, cost=2),
]
