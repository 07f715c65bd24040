"""C05: layered-earth EM (1D frequency and time domain) sensitivities."""

import numpy as np
from hypothesis import strategies as st
from scipy.constants import mu_0
from simpeg import maps
from simpeg.electromagnetics import frequency_domain as fdem
from simpeg.electromagnetics import time_domain as tdem

from lib import gen, sens
from lib.pbt import Sub

PROPERTY = "C05"
RULE = (
    "A case is a layered EM simulation in frequency or time domain: 1-5 layers; a model of conductivity or resistivity, "
    "permeability, layer thicknesses and source heights in any combination, through separate or shared parameters; optional "
    "chargeability and magnetic viscosity, scalar or per layer; 1-3 sources (magnetic dipoles of any orientation, circular "
    "loops, closed wires), 1-3 receivers each (total or secondary field, ppm, b, db/dt, h; any orientation and component; "
    "absolute locations or offsets), any waveform. Jvec is compared with Richardson differences per receiver, Jtvec by the "
    "dot-product identity, getJ and getJtJdiag with both. Non-trivial: non-zero sensitivity with a conclusive difference."
)
ASSUMPTIONS = [
    "conductivities 1e-3..1 S/m, relative permeabilities 1..2, at most 5 layers",
    "circular loops with central receivers; closed-wire sources with vertical receivers at one location",
]

O = ["x", "y", "z", [1, 2, 2], [-2, 1, 2], [0.6, -0.8, 0.0]]
FREQS = [1e2, 3e3, 5e4]
WAVES = ["step", "ramp", "tri", "trap", "vtem", "halfsine", "qsine", "pwl"]


def earth():
    return {
        "n": st.integers(1, 5),
        "par": st.sampled_from(["sigma", "rho", "sigma+mu", "rho+t", "sigma+mu+t", "mu", "t", "sigma+t+h", "h", "sigma+mu+t+h", "shared"]),
        "eta": st.sampled_from(["0", "0", "scalar", "layer"]),
        "dchi": st.sampled_from(["0", "0", "scalar", "layer"]),
        "mu0": st.sampled_from(["scalar", "layer"]),
    }


def offset_loc(draw):
    return [draw(gen.floats(-30, 30, 1)), draw(gen.floats(5, 30, 1)), draw(gen.floats(0, 3, 1))]


@st.composite
def source(draw, td=False):
    kind = draw(st.sampled_from(["dip", "dip", "dip", "loop", "wire"]))
    rxs = []
    for _ in range(draw(st.integers(1, 3))):
        rx = {
            "o": draw(st.sampled_from(O)) if kind == "dip" else "z",
            "n": 1 if kind != "dip" else draw(st.integers(1, 2)),
            "off": draw(st.booleans()) if kind == "dip" else False,
            "locs": [offset_loc(draw) for _ in range(2)],
        }
        if td:
            rx["kind"] = draw(st.sampled_from(["b", "dbdt", "h"]))
            rx["times"] = draw(st.sampled_from([[1e-4], [1e-5, 3e-4], [2e-5, 1e-4, 2e-3]]))
        else:
            rx["kind"] = draw(st.sampled_from(["total", "sec", "ppm"]))
            if kind == "wire":
                rx["kind"] = "sec"
            rx["comp"] = draw(st.sampled_from(["real", "imag", "both"]))
        rxs.append(rx)
    s = {
        "kind": kind,
        "o": draw(st.sampled_from(O)) if kind == "dip" else "z",
        "z": draw(gen.floats(0.5, 20, 1)),
        "mom": draw(st.sampled_from([1.0, 2.5])),
        "rad": draw(st.sampled_from([5.0, 12.0])),
        "rx": rxs,
    }
    if td:
        s["wave"] = draw(st.sampled_from(WAVES))
    else:
        s["f"] = draw(st.sampled_from(FREQS))
    return s


def case(td):
    d = earth()
    d["src"] = st.lists(source(td), min_size=1, max_size=3)
    d["topo"] = st.sampled_from([0.0, 25.0])
    d["order"] = st.integers(0, 3)
    d["seed"] = gen.seeds
    return st.fixed_dictionaries(d)


def direction(o):
    if isinstance(o, str):
        return np.eye(3)["xyz".index(o)]
    return np.array(o, float) / np.linalg.norm(o)


def make_wave(k):
    S = tdem.sources
    return {
        "step": lambda: S.StepOffWaveform(),
        "ramp": lambda: S.RampOffWaveform(ramp_start=-1e-4, ramp_end=0.0),
        "tri": lambda: S.TriangularWaveform(start_time=-1e-2, peak_time=-5e-3, off_time=0.0),
        "trap": lambda: S.TrapezoidWaveform(ramp_on=np.r_[-8e-3, -6e-3], ramp_off=np.r_[-1e-3, 0.0]),
        "vtem": lambda: S.VTEMWaveform(off_time=2e-3, peak_time=1.2e-3),
        "halfsine": lambda: S.HalfSineWaveform(ramp_on=np.r_[-8e-3, -6e-3], ramp_off=np.r_[-1e-3, 0.0]),
        "qsine": lambda: S.QuarterSineRampOnWaveform(ramp_on=np.r_[-8e-3, -6e-3], ramp_off=np.r_[-1e-3, 0.0]),
        "pwl": lambda: S.PiecewiseLinearWaveform(times=np.r_[-5e-3, -3e-3, -1e-3, 0.0], currents=np.r_[0.0, 0.7, 1.0, 0.0]),
    }[k]()


def times_of(s, rx):
    """times after the waveform is off"""
    return np.array(rx["times"]) + (2e-3 if s["wave"] == "vtem" else 0.0)


def rx_locs(rx, kind, sloc):
    off = np.array(rx["locs"][: rx["n"]], float)
    if kind == "loop":
        off[:, :2] = 0.0
    return off, off + sloc


def make_survey(srcs, topo, td, flip=False):
    out = []
    for s in srcs:
        sloc = np.r_[3.0, -2.0, topo + s["z"]]
        rxs = []
        for rx in s["rx"]:
            off, absl = rx_locs(rx, s["kind"], sloc)
            kw = dict(orientation=direction(rx["o"]), use_source_receiver_offset=rx["off"])
            L = off if rx["off"] else absl
            if td:
                R = {
                    "b": tdem.receivers.PointMagneticFluxDensity,
                    "dbdt": tdem.receivers.PointMagneticFluxTimeDerivative,
                    "h": tdem.receivers.PointMagneticField,
                }[rx["kind"]]
                rxs.append(R(L, times=times_of(s, rx), **kw))
            else:
                comp = rx["comp"]
                if flip:
                    comp = {"real": "imag", "imag": "real", "both": "both"}[comp]
                if rx["kind"] == "total":
                    rxs.append(fdem.receivers.PointMagneticField(L, component=comp, **kw))
                else:
                    ppm = rx["kind"] == "ppm" and not zero_primary(s, rx)
                    rxs.append(
                        fdem.receivers.PointMagneticFieldSecondary(
                            L, component=comp, data_type="ppm" if ppm else "field", **kw
                        )
                    )
        mod = tdem.sources if td else fdem.sources
        kw = dict(waveform=make_wave(s["wave"])) if td else dict(frequency=s["f"])
        if s["kind"] == "dip":
            out.append(mod.MagDipole(rxs, location=sloc, orientation=direction(s["o"]), moment=s["mom"], **kw))
        elif s["kind"] == "loop":
            out.append(mod.CircularLoop(rxs, location=sloc, radius=s["rad"], current=s["mom"], **kw))
        else:
            a = s["rad"]
            xy = np.array([[-a, -a], [a, -a], [a, 1.5 * a], [-a, a], [-a, -a]])
            path = np.c_[xy + sloc[:2], np.full(5, sloc[2])]
            out.append(mod.LineCurrent(rxs, location=path, current=s["mom"], **kw))
    return (tdem if td else fdem).Survey(out)


def zero_primary(s, rx):
    """is the primary field in the receiver direction (nearly) zero?"""
    if s["kind"] != "dip":
        return False
    m = direction(s["o"])
    for d in np.array(rx["locs"][: rx["n"]], float):
        R = np.linalg.norm(d)
        h = (3 * d * (d @ m) / R**2 - m) @ direction(rx["o"])
        if abs(h) < 1e-2:
            return True
    return False


def earth_kw(c, r):
    """-> simulation kwargs, model"""
    n = c["n"]
    p = c["par"]
    if p == "t" or "+t" in p or p == "shared":
        n = max(n, 2)
    sig = 10 ** r.uniform(-3, 0, n)
    mu = mu_0 * (1 + r.random(n))
    t = r.uniform(3, 40, n - 1)
    nS = len(c["src"])
    # the heights of the model differ from those in the survey
    h = np.array([s["z"] for s in c["src"]]) + r.random(nS)
    kw = {}
    if p == "shared":
        q = 3
        kw["sigmaMap"] = maps.ExpMap(nP=n) * maps.LinearMap(0.5 * r.standard_normal((n, q)), np.log(sig))
        kw["muMap"] = maps.ExpMap(nP=n) * maps.LinearMap(0.2 * r.standard_normal((n, q)), np.log(mu))
        kw["thicknessesMap"] = maps.ExpMap(nP=n - 1) * maps.LinearMap(0.5 * r.standard_normal((n - 1, q)), np.log(t))
        m = 0.3 * r.standard_normal(q)
    else:
        vals = {"sigma": sig, "rho": 1 / sig, "mu": mu, "t": t, "h": h}
        names = p.split("+")
        w = maps.Wires(*[(k, vals[k].size) for k in names])
        for k in names:
            kw[{"t": "thicknesses"}.get(k, k) + "Map"] = maps.ExpMap(nP=vals[k].size) * getattr(w, k)
        m = np.concatenate([np.log(vals[k]) for k in names])
        if "sigma" not in names and "rho" not in names:
            kw["sigma"] = sig
        if "mu" not in names:
            kw["mu"] = mu if c["mu0"] == "layer" else 1.3 * mu_0
        if "t" not in names:
            kw["thicknesses"] = t
    if c["eta"] == "scalar":
        kw.update(eta=0.4, tau=2e-4, c=0.6)
    elif c["eta"] == "layer":
        kw.update(eta=r.uniform(0, 0.7, n), tau=10 ** r.uniform(-5, -2, n), c=r.uniform(0.3, 0.9, n))
    if c["dchi"] == "scalar":
        kw.update(dchi=0.3, tau1=1e-9, tau2=1.0)
    elif c["dchi"] == "layer":
        kw.update(dchi=r.uniform(0, 0.5, n), tau1=10 ** r.uniform(-10, -8, n), tau2=10 ** r.uniform(-1, 1, n))
    return kw, m


def run(c, td):
    r = gen.rng(c)
    kw, m = earth_kw(c, r)
    topo = np.r_[0.0, 0.0, c["topo"]]
    mod = tdem if td else fdem

    def make(flip=False):
        return mod.Simulation1DLayered(survey=make_survey(c["src"], c["topo"], td, flip), topo=topo, **kw)

    v = r.standard_normal(m.size)
    lab = sens.judge(
        make,
        m,
        v,
        r,
        f"layered {'TDEM' if td else 'FDEM'} {c['par']} eta={c['eta']} dchi={c['dchi']}",
        h=1e-2,
        rtol=1e-5,
        order=c["order"],
        J=lambda s, mm: s.getJ(mm),
        JtJ=True,
        flip=None if td else (lambda: make(True)),
        floor=1e-30 if td else None,
    )
    return lab + [c["par"]] + [s["kind"] for s in c["src"]]


SUBS = [
    Sub("frequency", case(False), lambda c: run(c, False), quick=400, thorough=6000, shards=4, cost=2),
    Sub("time", case(True), lambda c: run(c, True), quick=120, thorough=2000, shards=4, cost=3),
]
