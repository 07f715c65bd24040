"""C01: DC resistivity, IP, SIP and SP sensitivities."""

import numpy as np
import scipy.sparse as sps
from hypothesis import strategies as st
from simpeg import maps
from simpeg.electromagnetics.static import induced_polarization as ip
from simpeg.electromagnetics.static import resistivity as dc
from simpeg.electromagnetics.static import self_potential as spot
from simpeg.electromagnetics.static import spectral_induced_polarization as sip

from lib import gen, sens
from lib.oracle import close, nrm
from lib.pbt import Sub

PROPERTY = "C01"
RULE = (
    "A case is a mesh (random tensor or tree), a discretisation (cell centred / nodal, 1D / 2D / 3D), a boundary "
    "condition, random electrodes split over several sources (pole, dipole, multipole, random currents) each with several "
    "receivers (pole, dipole, voltage / apparent resistivity / apparent chargeability), a physical-property map and "
    "a random model. Jvec is compared with Richardson-extrapolated differences of dpred receiver by receiver, "
    "Jtvec with the dot-product identity receiver by receiver, getJ / getJtJdiag with Jvec/Jtvec, storeJ and "
    "miniaturize with the plain simulation. Non-trivial: the sensitivity product is non-zero and at least one "
    "receiver's finite difference is conclusive."
)
ASSUMPTIONS = [
    "electrodes lie in distinct cells inside the mesh; conductivities between 1e-4 and 1e1 S/m",
    "3D Neumann problems are only observed through dipole receivers (potentials are defined up to a constant there)",
    "fewer than about 400 cells; at most 3 sources x 3 receivers",
]

# ------------------------------------------------------------------ pieces


def electrodes(mesh, r, n, flat, centers=False):
    """n electrodes in distinct cells, away from the mesh boundary."""
    cc = mesh.cell_centers
    h = mesh.h_gridded
    L = gen.lims(mesh)
    w = L[:, 1] - L[:, 0]
    ok = np.ones(mesh.n_cells, bool)
    if flat == "surface":
        ok = cc[:, -1] + h[:, -1] > L[-1, 1] - 1e-9 * w[-1]
    idx = np.flatnonzero(ok)
    if idx.size < n:
        idx = np.arange(mesh.n_cells)
    pick = r.choice(idx, n, replace=False)
    if centers:
        return cc[pick]
    x = cc[pick] + (r.random((n, mesh.dim)) - 0.5) * 0.6 * h[pick]
    if flat == "surface":
        x[:, -1] = L[-1, 1]
    return x


src_st = st.sampled_from(["pole", "dipole", "multipole"])
rx_st = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["pole", "dipole"]),
        "n": st.integers(1, 3),
        "type": st.sampled_from(["volt", "volt", "apparent_resistivity"]),
    }
)


def sources_st(max_src=3, max_rx=3, src=src_st, rx=rx_st):
    return st.lists(
        st.fixed_dictionaries(
            {
                "kind": src,
                "cur": st.sampled_from([1.0, 1.0, 2.0, 0.3, -1.5]),
                "rx": st.lists(rx, min_size=1, max_size=max_rx),
            }
        ),
        min_size=1,
        max_size=max_src,
    )


def make_sources(c, mesh, elec, r, force_dipole_rx=False, force_volt=False):
    S = []
    n = len(elec)
    # geometric factors are not defined for surveys with multipole sources
    if any(s["kind"] == "multipole" for s in c["sources"]):
        types = {q["type"] for s in c["sources"] for q in s["rx"]}
        force_volt = force_volt or "apparent_resistivity" in types

    def some(k):
        return elec[r.choice(n, k, replace=False)]

    for s in c["sources"]:
        rxs = []
        for q in s["rx"]:
            t = "volt" if force_volt else q["type"]
            if q["kind"] == "pole" and not force_dipole_rx:
                rxs.append(dc.receivers.Pole(some(q["n"]), data_type=t))
            else:
                k = q["n"]
                p = r.permutation(n)
                a = elec[p[:k]]
                b = elec[p[k : 2 * k]]
                rxs.append(dc.receivers.Dipole(a, b, data_type=t))
        if s["kind"] == "pole":
            S.append(dc.sources.Pole(rxs, some(1)[0], current=s["cur"]))
        elif s["kind"] == "dipole":
            a, b = some(2)
            S.append(dc.sources.Dipole(rxs, location_a=a, location_b=b, current=s["cur"]))
        else:
            k = 3
            S.append(dc.sources.Multipole(rxs, some(k), current=s["cur"] * (0.5 + r.random(k)) * [1, -1, 1]))
    return S


def set_geometry(survey):
    """geometric factors; receivers without a usable one measure voltages"""
    S = survey.source_list
    if not any(rx.data_type == "apparent_resistivity" for s in S for rx in s.receiver_list):
        return
    survey.set_geometric_factor()
    for s in S:
        for rx in s.receiver_list:
            if rx.data_type == "apparent_resistivity":
                g = np.abs(rx.geometric_factor[s])
                if not (np.all(np.isfinite(g)) and g.min() > 1e-4 * max(1e-3, g.max())):
                    rx.data_type = "volt"


def prop_map(c, mesh, r):
    """-> (kwargs name, map, model)"""
    n = mesh.n_cells
    name = c["prop"]
    sign = 1 if name == "sigma" else -1
    base = sign * np.log(10.0) * (-2.0)
    kind = c["map"]
    if kind == "exp":
        return {name + "Map": maps.ExpMap(nP=n)}, base + 0.7 * r.standard_normal(n)
    if kind == "identity":
        return {name + "Map": maps.IdentityMap(nP=n)}, np.exp(base + 0.7 * r.standard_normal(n))
    if kind == "recip":
        return {name + "Map": maps.ReciprocalMap(nP=n)}, np.exp(-base + 0.7 * r.standard_normal(n))
    if kind == "active":
        act = gen.active_cells(mesh, r)
        mp = maps.InjectActiveCells(mesh, act, base) if False else maps.InjectActiveCells(mesh, act, value_inactive=base)
        return {name + "Map": maps.ExpMap(nP=n) * mp}, base + 0.7 * r.standard_normal(int(act.sum()))
    if kind == "units":
        k = r.integers(0, 3, n)
        k[:3] = [0, 1, 2]
        units = [k == i for i in range(3)]
        return (
            {name + "Map": maps.ExpMap(nP=n) * maps.SurjectUnits(units)},
            base + 0.7 * r.standard_normal(3),
        )
    raise ValueError(kind)


def vec(r, m, kind="exp"):
    v = r.standard_normal(m.size)
    if kind in ("identity", "recip"):
        v = v * np.abs(m)
    return v


COMMON = {
    "prop": st.sampled_from(["sigma", "rho"]),
    "map": st.sampled_from(["exp", "identity", "recip", "active", "units"]),
    "form": st.sampled_from(["CC", "N"]),
    "bc": st.sampled_from(["Robin", "Neumann", "Dirichlet"]),
    "flat": st.sampled_from(["surface", "in"]),
    "storeJ": st.booleans(),
    "mini": st.booleans(),
    "order": st.integers(0, 3),
    "seed": gen.seeds,
}

# ------------------------------------------------------------------ 3D DC


def mesh3():
    return st.one_of(
        gen.tensor_mesh(dim=3, nmin=3, nmax=6, base=(5.0, 25.0)),
        gen.tensor_mesh(dim=3, nmin=3, nmax=6, base=(5.0, 25.0)),
        gen.tree_mesh(dim=3, logn=(2, 3), base=(5.0, 25.0), max_pts=2, level=2),
    )


def mesh3_small():
    """small enough for dense solutions"""
    return st.one_of(
        gen.tensor_mesh(dim=3, nmin=3, nmax=5, base=(5.0, 25.0)),
        gen.tree_mesh(dim=3, logn=(2, 2), base=(5.0, 25.0), max_pts=1, level=1),
    )


def mesh2():
    return st.one_of(
        gen.tensor_mesh(dim=2, nmin=4, nmax=9, base=(5.0, 25.0)),
        gen.tree_mesh(dim=2, logn=(2, 3), base=(5.0, 25.0), level=2),
    )


def dc3_strategy():
    return st.fixed_dictionaries(
        {
            "mesh": mesh3(),
            "sources": sources_st(),
            "field": st.sampled_from(["phi", "phi", "phi", "e", "j"]),
            **COMMON,
        }
    )


def can_mini(c):
    """miniaturize is documented for pole / dipole voltages"""
    return all(s["kind"] != "multipole" for s in c["sources"])


def check_dc3(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    bc = c["bc"]
    if c["form"] == "N" and bc == "Dirichlet":
        bc = "Robin"
    if bc == "Neumann" and c["form"] == "CC" and c["mesh"]["kind"] == "tree":
        bc = "Robin"  # declared unsupported (NotImplementedError)
    neu = bc == "Neumann"
    mini = c["mini"] and can_mini(c) and not neu
    # reciprocity (miniaturize) is exact at cell centres in the cell centred discretisation
    elec = electrodes(mesh, r, 8, c["flat"], centers=mini and c["form"] == "CC")
    kw, m = prop_map(c, mesh, r)
    S = make_sources(c, mesh, elec, r, force_dipole_rx=neu)
    if c["form"] == "CC" and c["field"] != "phi" and not mini:
        for s in S:
            rx = dc.receivers.Pole(gen.inside_points(mesh, r, 2), orientation="xyz"[r.integers(3)], projField=c["field"])
            s.receiver_list = list(s.receiver_list) + [rx]
    survey = dc.Survey(S)
    set_geometry(survey)
    cls = dc.Simulation3DCellCentered if c["form"] == "CC" else dc.Simulation3DNodal

    def make(plain=False):
        return cls(
            mesh,
            survey=survey,
            bc_type=bc,
            storeJ=c["storeJ"] and not plain,
            miniaturize=mini and not plain,
            **kw,
        )

    v = vec(r, m, c["map"])
    lab = sens.judge(
        make,
        m,
        v,
        r,
        f"3D DC {c['form']} {bc} {c['prop']}/{c['map']}",
        order=c["order"],
        J=lambda s, m: s.getJ(m),
        JtJ=True,
        rtol=1e-5,
        adj_rtol=1e-7,
        rep_rtol=1e-8,
    )
    if mini:
        p = make(plain=True)
        q = make()
        close(q.dpred(m), p.dpred(m), "miniaturize changes the predicted data", 1e-6)
        close(q.Jvec(m, v), p.Jvec(m, v), "miniaturize changes Jvec", 1e-6)
        lab.append("mini")
    return lab + [c["form"], bc]


# ------------------------------------------------------------------ 2D DC


def dc2_strategy():
    return st.fixed_dictionaries(
        {
            "mesh": mesh2(),
            "sources": sources_st(),
            "nky": st.integers(3, 5),
            "trap": st.sampled_from([True, True, False]),
            **COMMON,
        }
    )


def check_dc2(c):
    mesh = gen.build_mesh(c["mesh"])
    r = gen.rng(c)
    bc = c["bc"]
    if c["form"] == "N" and bc == "Dirichlet":
        bc = "Robin"
    mini = c["mini"] and can_mini(c)
    elec = electrodes(mesh, r, 8, c["flat"], centers=mini and c["form"] == "CC")
    kw, m = prop_map(c, mesh, r)
    S = make_sources(c, mesh, elec, r)
    survey = dc.Survey(S)
    set_geometry(survey)
    cls = dc.Simulation2DCellCentered if c["form"] == "CC" else dc.Simulation2DNodal

    def make(plain=False):
        return cls(
            mesh,
            survey=survey,
            bc_type=bc,
            nky=c["nky"],
            do_trap=c["trap"],
            storeJ=c["storeJ"] and not plain,
            miniaturize=mini and not plain,
            **kw,
        )

    v = vec(r, m, c["map"])
    lab = sens.judge(
        make,
        m,
        v,
        r,
        f"2D DC {c['form']} {bc} {c['prop']}/{c['map']}",
        order=c["order"],
        J=lambda s, m: s.getJ(m),
        adj_rtol=1e-7,
        rep_rtol=1e-8,
    )
    if mini:
        p = make(plain=True)
        q = make()
        close(q.dpred(m), p.dpred(m), "miniaturize changes the predicted data", 1e-6)
        close(q.Jvec(m, v), p.Jvec(m, v), "miniaturize changes Jvec", 1e-6)
        lab.append("mini")
    return lab + [c["form"], bc]


# ------------------------------------------------------------------ 1D DC


def dc1_strategy():
    return st.fixed_dictionaries(
        {
            "nl": st.integers(1, 5),
            "sources": sources_st(src=st.sampled_from(["pole", "dipole"])),
            "prop": st.sampled_from(["sigma", "rho"]),
            "map": st.sampled_from(["exp", "identity"]),
            "thick": st.sampled_from(["fixed", "model", "only"]),
            "filter": st.sampled_from(["key_201_2012", "key_101_2012", "anderson_801_1982"]),
            "order": st.integers(0, 3),
            "seed": gen.seeds,
        }
    )


def check_dc1(c):
    r = gen.rng(c)
    nl = c["nl"]
    k = 10
    elec = np.c_[np.cumsum(5 + 20 * r.random(k)), np.zeros(k), np.zeros(k)]
    if r.random() < 0.5:
        elec[:, 1] = 10 * r.random(k)
    S = make_dc1_sources(c, elec, r)
    survey = dc.Survey(S)
    set_geometry(survey)
    base = np.log(0.01) if c["prop"] == "sigma" else np.log(100.0)
    lp = base + 0.8 * r.standard_normal(nl)
    th = 3 + 20 * r.random(nl - 1)
    ident = c["map"] == "identity"
    mode = c["thick"] if nl > 1 else "fixed"
    kw = {}
    if mode == "only":
        kw[c["prop"]] = np.exp(lp)
        kw["thicknessesMap"] = maps.IdentityMap(nP=nl - 1) if ident else maps.ExpMap(nP=nl - 1)
        m = th if ident else np.log(th)
    elif mode == "fixed":
        kw["thicknesses"] = th
        kw[c["prop"] + "Map"] = maps.IdentityMap(nP=nl) if ident else maps.ExpMap(nP=nl)
        m = np.exp(lp) if ident else lp
    else:
        w = maps.Wires(("a", nl), ("t", nl - 1))
        kw[c["prop"] + "Map"] = w.a if ident else maps.ExpMap(nP=nl) * w.a
        kw["thicknessesMap"] = w.t if ident else maps.ExpMap(nP=nl - 1) * w.t
        m = np.r_[np.exp(lp), th] if ident else np.r_[lp, np.log(th)]

    def make():
        return dc.Simulation1DLayers(survey=survey, hankel_filter=c["filter"], **kw)

    v = vec(r, m, c["map"])
    return sens.judge(
        make, m, v, r, f"1D DC {c['prop']}/{c['map']} {mode}", order=c["order"], J=lambda s, m: s.getJ(m), h=2e-2
    ) + [mode]


def make_dc1_sources(c, elec, r):
    """no receiver electrode at a source electrode"""
    S = []
    n = len(elec)
    for s in c["sources"]:
        k = {"pole": 1, "dipole": 2, "multipole": 3}[s["kind"]]
        p = r.permutation(n)
        a, rest = elec[p[:k]], elec[p[k:]]
        rxs = []
        for q in s["rx"]:
            o = r.permutation(len(rest))
            t = "volt" if s["kind"] == "multipole" else q["type"]
            if q["kind"] == "pole":
                rxs.append(dc.receivers.Pole(rest[o[: q["n"]]], data_type=t))
            else:
                rxs.append(dc.receivers.Dipole(rest[o[: q["n"]]], rest[o[q["n"] : 2 * q["n"]]], data_type=t))
        if s["kind"] == "pole":
            S.append(dc.sources.Pole(rxs, a[0], current=s["cur"]))
        elif s["kind"] == "dipole":
            S.append(dc.sources.Dipole(rxs, location_a=a[0], location_b=a[1], current=s["cur"]))
        else:
            S.append(dc.sources.Multipole(rxs, a, current=s["cur"] * (0.5 + r.random(k))))
    return S


# ------------------------------------------------------------------ IP

ip_rx = st.fixed_dictionaries(
    {
        "kind": st.sampled_from(["pole", "dipole"]),
        "n": st.integers(1, 3),
        "type": st.sampled_from(["volt", "apparent_chargeability"]),
    }
)


def ip_strategy():
    return st.fixed_dictionaries(
        {
            "dim": st.sampled_from([2, 3]),
            "mesh2": mesh2(),
            "mesh3": mesh3(),
            "sources": sources_st(rx=ip_rx),
            "prop": st.sampled_from(["sigma", "rho"]),
            "etamap": st.sampled_from(["identity", "active", "units"]),
            "form": st.sampled_from(["CC", "N"]),
            "bc": st.sampled_from(["Robin", "Dirichlet"]),
            "flat": st.sampled_from(["surface", "in"]),
            "storeJ": st.booleans(),
            "order": st.integers(0, 3),
            "seed": gen.seeds,
        }
    )


def no_ratio_to_nothing(mesh, S, sig, dim, form, bc, kw):
    """Receivers that see no primary voltage have no apparent chargeability: they measure the voltage."""
    cls = {
        (2, "CC"): dc.Simulation2DCellCentered,
        (2, "N"): dc.Simulation2DNodal,
        (3, "CC"): dc.Simulation3DCellCentered,
        (3, "N"): dc.Simulation3DNodal,
    }[dim, form]
    types = [[rx.data_type for rx in src.receiver_list] for src in S]
    if all(t == "volt" for ty in types for t in ty):
        return
    for src in S:
        for rx in src.receiver_list:
            rx.data_type = "volt"
    V = np.abs(cls(mesh, survey=dc.Survey(S), sigmaMap=maps.IdentityMap(nP=len(sig)), bc_type=bc, **kw).dpred(sig))
    i, top = 0, V.max()
    for src, ty in zip(S, types):
        for rx, t in zip(src.receiver_list, ty):
            if V[i : i + rx.nD].min() > 1e-9 * top:
                rx.data_type = t
            i += rx.nD


def electrode_cells(mesh, elec):
    return lambda x: int(np.argmin(((mesh.cell_centers - np.asarray(x).ravel()) ** 2).sum(axis=1)))


def check_ip(c):
    mesh = gen.build_mesh(c["mesh%d" % c["dim"]])
    r = gen.rng(c)
    n = mesh.n_cells
    bc = c["bc"]
    if c["form"] == "N" and bc == "Dirichlet":
        bc = "Robin"
    elec = electrodes(mesh, r, 8, c["flat"])
    S = make_sources(c, mesh, elec, r)
    survey = dc.Survey(S)
    p = np.exp(-4.6 + 0.5 * r.standard_normal(n))
    if c["prop"] == "rho":
        p = 1 / p
    if c["etamap"] == "identity":
        em, k = maps.IdentityMap(nP=n), n
    elif c["etamap"] == "active":
        act = gen.active_cells(mesh, r)
        em, k = maps.InjectActiveCells(mesh, act, value_inactive=0.0), int(act.sum())
    else:
        u = r.integers(0, 3, n)
        u[:3] = [0, 1, 2]
        em, k = maps.SurjectUnits([u == i for i in range(3)]), 3
    m = 0.2 * r.random(k)
    cls = {
        (2, "CC"): ip.Simulation2DCellCentered,
        (2, "N"): ip.Simulation2DNodal,
        (3, "CC"): ip.Simulation3DCellCentered,
        (3, "N"): ip.Simulation3DNodal,
    }[c["dim"], c["form"]]
    kw = {"nky": 4, "do_trap": True} if c["dim"] == 2 else {}
    no_ratio_to_nothing(mesh, S, p if c["prop"] == "sigma" else 1 / p, c["dim"], c["form"], bc, kw)

    def make():
        return cls(mesh, survey=survey, etaMap=em, storeJ=c["storeJ"], bc_type=bc, **{c["prop"]: p}, **kw)

    v = 0.1 * r.standard_normal(k)
    what = f"{c['dim']}D IP {c['form']} {c['prop']}"
    # IP data are linear in the chargeability
    lab = sens.judge(make, m, v, r, what, order=c["order"], h=0.1, adj_rtol=1e-7, rep_rtol=1e-8)
    s = make()
    close(s.dpred(m), s.Jvec(m, m), what + ": data are not J m", 1e-9)
    # ... and are the first-order change of the DC data under sigma -> sigma (1 - eta)
    dcls = {
        (2, "CC"): dc.Simulation2DCellCentered,
        (2, "N"): dc.Simulation2DNodal,
        (3, "CC"): dc.Simulation3DCellCentered,
        (3, "N"): dc.Simulation3DNodal,
    }[c["dim"], c["form"]]
    types = [[rx.data_type for rx in src.receiver_list] for src in S]
    for src in S:
        for rx in src.receiver_list:
            rx.data_type = "volt"
    sig = p if c["prop"] == "sigma" else 1 / p
    d = dcls(mesh, survey=survey, sigmaMap=maps.ExpMap(nP=n), bc_type=bc, **kw)
    eta = em * m
    ref = d.Jvec(np.log(sig), -eta)
    V = d.dpred(np.log(sig))
    i = 0
    for src, ty in zip(S, types):
        for rx, t in zip(src.receiver_list, ty):
            if t == "apparent_chargeability":
                ref[i : i + rx.nD] /= V[i : i + rx.nD]
            rx.data_type = t
            i += rx.nD
    blocks, _ = sens.rx_blocks(survey)
    d0 = make().dpred(m)
    for b in blocks:
        close(d0[b], ref[b], what + ": data differ from the linearised DC response", 1e-6)
    if c["dim"] == 3 and c["storeJ"]:
        s = make()
        Jm = np.array([make_col(s, m, k, i) for i in range(k)]).T
        for W in (sps.diags(0.5 + r.random(i)), sps.diags(0.5 + r.random(i)), None):
            w = np.ones(i) if W is None else W.diagonal()
            close(s.getJtJdiag(m, W=W), ((w[:, None] * Jm) ** 2).sum(axis=0), what + " getJtJdiag", 1e-7)
    return lab + [f"{c['dim']}{c['form']}"]


def make_col(s, m, k, i):
    e = np.zeros(k)
    e[i] = 1
    return s.Jvec(m, e)


# ------------------------------------------------------------------ SIP


def sip_strategy():
    return st.fixed_dictionaries(
        {
            "dim": st.sampled_from([3, 3, 2]),
            "mesh2": mesh2(),
            "mesh3": mesh3(),
            "type": st.sampled_from(["volt", "volt", "apparent_chargeability"]),
            "cur": st.sampled_from([1.0, 2.5, -0.5]),
            "from_dc": st.booleans(),
            "nsrc": st.integers(1, 2),
            "nrx": st.integers(1, 2),
            "n": st.integers(1, 3),
            "nt": st.integers(1, 3),
            "src": st.sampled_from(["pole", "dipole"]),
            "rx": st.sampled_from(["pole", "dipole"]),
            "form": st.sampled_from(["CC", "N"]),
            "prop": st.sampled_from(["sigma", "rho"]),
            "wires": st.sampled_from(["eta", "eta-taui", "eta-tau", "eta-taui-c", "taui-c"]),
            "storeJ": st.booleans(),
            "order": st.integers(0, 3),
            "seed": gen.seeds,
        }
    )


def check_sip(c):
    mesh = gen.build_mesh(c["mesh%d" % c["dim"]])
    r = gen.rng(c)
    n = mesh.n_cells
    elec = electrodes(mesh, r, 8, "in")
    times = np.sort(10 ** (-3 + 2.5 * r.random(c["nt"])))
    ty = c["type"]
    R = dc.receivers if c["from_dc"] else sip.receivers
    Q = dc.sources if c["from_dc"] else sip.sources
    kr = {} if c["from_dc"] else {"times": times, "data_type": ty}
    S = []
    for _ in range(c["nsrc"]):
        p = r.permutation(8)
        rxs = []
        for _ in range(c["nrx"]):
            q = p[2:][r.permutation(6)]
            if c["rx"] == "pole":
                rxs.append(R.Pole(elec[q[: c["n"]]], **kr))
            else:
                rxs.append(R.Dipole(elec[q[: c["n"]]], elec[q[c["n"] : 2 * c["n"]]], **kr))
        if c["src"] == "pole":
            S.append(Q.Pole(rxs, elec[p[0]], current=c["cur"]))
        else:
            S.append(Q.Dipole(rxs, elec[p[0]], elec[p[1]], current=c["cur"]))
    if c["from_dc"]:
        survey = sip.from_dc_to_sip_survey(dc.Survey(S), times)
    else:
        survey = sip.Survey(S)
    pick = electrode_cells(mesh, elec)
    if ty != "volt" and c["src"] == "dipole" and any(
        pick(s.location[0]) == pick(s.location[1]) for s in survey.source_list
    ):
        return ["trivial"]  # no current, no voltage to normalize by
    parts = c["wires"].split("-")
    if len(parts) > 1:
        W = maps.Wires(*[(q, n) for q in parts])
    else:
        W = type("W", (), {"eta": maps.IdentityMap(nP=n)})
    vals = {
        "eta": 0.05 + 0.2 * r.random(n),
        "taui": 10 ** (0.5 + r.random(n)),
        "tau": 10 ** (-0.5 - r.random(n)),
        "c": 0.4 + 0.4 * r.random(n),
    }
    kw = {q + "Map": getattr(W, q) for q in parts}
    for q in ("eta", "c"):
        if q not in parts:
            kw[q] = vals[q]
    if "taui" not in parts and "tau" not in parts:
        kw["tau"] = vals["tau"]
    m = np.concatenate([vals[q] for q in parts])
    p = np.exp(-4.6 + 0.5 * r.standard_normal(n))
    kw[c["prop"]] = p if c["prop"] == "sigma" else 1 / p
    cls = {
        (2, "CC"): sip.Simulation2DCellCentered,
        (2, "N"): sip.Simulation2DNodal,
        (3, "CC"): sip.Simulation3DCellCentered,
        (3, "N"): sip.Simulation3DNodal,
    }[c["dim"], c["form"]]
    storeJ = c["storeJ"] or c["dim"] == 2
    if c["dim"] == 2:
        kw.update(nky=4, do_trap=True)

    def make():
        return cls(mesh, survey=survey, storeJ=storeJ, **kw)

    v = 0.3 * np.abs(m) * r.standard_normal(m.size)
    nd = make().dpred(m).size
    what = f"SIP {c['dim']}D {c['form']} {c['prop']} {c['wires']} {ty}"
    lab = sens.judge(
        make,
        m,
        v,
        r,
        what,
        order=c["order"],
        blocks=[np.array([i]) for i in range(nd)] if nd < 8 else np.array_split(np.arange(nd), 8),
        h=2e-2,
        adj_rtol=1e-7,
        rep_rtol=1e-8,
    )
    # the data of a spectral IP survey: the IP response of the chargeability that remains at each time
    ipc = {
        (2, "CC"): ip.Simulation2DCellCentered,
        (2, "N"): ip.Simulation2DNodal,
        (3, "CC"): ip.Simulation3DCellCentered,
        (3, "N"): ip.Simulation3DNodal,
    }[c["dim"], c["form"]]
    P = {q: kw[q + "Map"] * m if q + "Map" in kw else kw.get(q) for q in ("eta", "tau", "taui", "c")}
    tau = P["tau"] if P["tau"] is not None else 1 / P["taui"]
    i2 = ipc(
        mesh,
        survey=dc.Survey(ip_sources(survey, ty)),
        etaMap=maps.IdentityMap(nP=n),
        **{c["prop"]: kw[c["prop"]]},
        **({"nky": 4, "do_trap": True} if c["dim"] == 2 else {}),
    )
    ref = np.concatenate([i2.dpred(peta(t, P["eta"], tau, P["c"], survey)) for t in times])
    close(make().dpred(m), ref, what + ": data differ from the IP response of the decayed chargeability", 1e-6)
    if storeJ and c["dim"] == 3 and m.size < 400:
        s = make()
        Jm = np.array([s.Jvec(m, e) for e in np.eye(m.size)]).T
        W = sps.diags(0.5 + r.random(nd))
        close(s.getJtJdiag(m, W), ((W @ Jm) ** 2).sum(axis=0), what + " getJtJdiag", 1e-7)
    return lab + [f"{c['dim']}{c['form']}", ty]


def peta(t, eta, tau, cc, survey):
    """pseudo chargeability left at time t after the pulses of the survey"""
    T, npulse = survey.T, survey.n_pulse

    def off(t):
        return eta * np.exp(-((t / tau) ** cc))

    out = 0.0
    for k in range(npulse):
        tk = t + T / 2 * k
        out = out + (-1) ** k * (npulse - k) * (off(tk) - off(tk + T / 4))
    return out / npulse


def ip_sources(survey, ty):
    out = []
    for s in survey.source_list:
        rxs = []
        for q in s.receiver_list:
            if isinstance(q, sip.receivers.Dipole):
                rxs.append(dc.receivers.Dipole(q.locations_m, q.locations_n, data_type=q.data_type))
            else:
                rxs.append(dc.receivers.Pole(q.locations, data_type=q.data_type))
        if isinstance(s, sip.sources.Dipole):
            out.append(dc.sources.Dipole(rxs, location_a=s.location_a, location_b=s.location_b, current=s.current))
        else:
            out.append(dc.sources.Pole(rxs, s.location, current=s.current))
    return out


# ------------------------------------------------------------------ SP


def sp_strategy():
    return st.fixed_dictionaries(
        {
            "mesh": mesh3(),
            "rx": st.lists(rx_st, min_size=1, max_size=3),
            "bc": st.sampled_from(["Robin", "Dirichlet"]),
            "prop": st.sampled_from(["sigma", "rho"]),
            "map": st.sampled_from(["identity", "exp", "current", "current_active", "head"]),
            "storeJ": st.booleans(),
            "order": st.integers(0, 3),
            "seed": gen.seeds,
        }
    )


def check_sp(c):
    mesh = gen.build_mesh(c["mesh"])
    if c["map"] in ("current", "current_active") and c["mesh"]["kind"] == "tree":
        return ["trivial"]
    r = gen.rng(c)
    n = mesh.n_cells
    elec = electrodes(mesh, r, 8, "in")
    rxs = []
    for q in c["rx"]:
        o = r.permutation(8)
        if q["kind"] == "pole":
            rxs.append(dc.receivers.Pole(elec[o[: q["n"]]]))
        else:
            rxs.append(dc.receivers.Dipole(elec[o[: q["n"]]], elec[o[q["n"] : 2 * q["n"]]]))
    survey = spot.Survey([spot.sources.StreamingCurrents(rxs)])
    k = c["map"]
    if k == "identity":
        mp, nm = maps.IdentityMap(nP=n), n
    elif k == "exp":
        mp, nm = maps.ExpMap(nP=n), n
    elif k == "current":
        mp = spot.CurrentDensityMap(mesh)
        nm = mp.nP
    elif k == "current_active":
        act = gen.active_cells(mesh, r, 0.9)
        mp = spot.CurrentDensityMap(mesh, active_cells=act)
        nm = mp.nP
    else:
        mp = spot.HydraulicHeadMap(mesh, L=np.exp(r.standard_normal(n)))
        nm = mp.nP
    p = np.exp(-4.6 + 0.5 * r.standard_normal(n))
    kw = {c["prop"]: p if c["prop"] == "sigma" else 1 / p}
    m = r.standard_normal(nm)

    def make():
        return spot.Simulation3DCellCentered(mesh, survey=survey, qMap=mp, storeJ=c["storeJ"], bc_type=c["bc"], **kw)

    return sens.judge(
        make,
        m,
        r.standard_normal(nm),
        r,
        f"SP {c['prop']} {k}",
        order=c["order"],
        J=lambda s, m: s.getJ(m),
        JtJ=True,
        adj_rtol=1e-7,
        rep_rtol=1e-8,
    )


SUBS = [
    Sub("dc3d", dc3_strategy(), check_dc3, quick=480, shards=4, cost=8),
    Sub("dc2d", dc2_strategy(), check_dc2, quick=360, shards=4, cost=8),
    Sub("dc1d", dc1_strategy(), check_dc1, quick=200, shards=1, cost=1),
    Sub("ip", ip_strategy(), check_ip, quick=300, shards=3, cost=6),
    Sub("sip", sip_strategy(), check_sip, quick=150, shards=3, cost=10),
    Sub("sp", sp_strategy(), check_sp, quick=200, shards=2, cost=3),
]
