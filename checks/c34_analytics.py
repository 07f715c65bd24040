"""C34: closed-form solutions are the fields of their sources"""
import numpy as np
from hypothesis import strategies as st
from scipy.constants import G as NEWTON, epsilon_0, mu_0
from scipy.special import erf, eval_legendre

from lib import gen
from lib.oracle import close, require
from lib.pbt import Sub

PROPERTY = "C34"
RULE = """A case is a closed-form solution (dipoles in a whole space in the frequency and time domain, poles and dipoles and a sphere
in a direct current, spheres in gravity and magnetics, dipole and loop on a half-space, the plane wave on layers, a dipole in a casing)
with random positions, properties, frequencies or times. It is non-trivial unless the field vanishes."""
ASSUMPTIONS = [
    "points at least a tenth of a metre from the source",
    "half-space transients and frequency responses are judged against each other (Laplace transform), the loop against the dipole",
]

pos = gen.floats(-60.0, 60.0, 1)
point = st.lists(pos, min_size=3, max_size=3)
points = st.lists(point, min_size=1, max_size=4)


def vec3(F, n):
    return np.stack([np.broadcast_to(np.asarray(f), n) for f in F])


def curl(g1, d, r, m):
    """curl of m g(r)"""
    return g1 / r * np.cross(d, m).T


def curlcurl(g1, g2, d, r, m):
    """curl curl of m g(r) = grad div (m g) - m laplace(g)"""
    rm = d @ m / r
    return (g2 - g1 / r) * rm * d.T / r + (g1 / r - g2 - 2 * g1 / r) * m[:, None]


def geometry(c):
    XYZ = np.array(c["xyz"], float)
    src = np.array(c["src"], float)
    d = XYZ - src
    r = np.linalg.norm(d, axis=1)
    letter = c["moment"] if isinstance(c["moment"], str) else None
    m = np.eye(3)["XYZ".index(letter)] if letter else np.array(c["moment"], float)
    return XYZ, src, d, r, m, letter or m


def compare(got, want, what, tol=1e-9):
    want = np.asarray(want)
    got = vec3(got, want.shape[1:]) if isinstance(got, tuple) else np.asarray(got)
    require(got.shape == want.shape, f"{what}: shape {got.shape}, expected {want.shape}")
    s = np.abs(want).max()
    e = np.abs(got - want).max()
    require(e <= tol * s, f"{what}: {got.tolist()} instead of {want.tolist()}")
    return s > 0


dipole = dict(
    xyz=points,
    src=point,
    moment=st.one_of(st.sampled_from("XYZ"), st.lists(gen.floats(-3, 3, 1), min_size=3, max_size=3)),
    lsig=gen.floats(-3, 1, 2),
    mu_r=st.sampled_from([1.0, 2.0, 1.3]),
    eps_r=st.sampled_from([1.0, 10.0, 80.0]),
)
fd_cases = st.fixed_dictionaries(dict(dipole, lf=st.lists(gen.floats(-1, 7.5, 2), min_size=1, max_size=3), field=st.sampled_from("ehb")))


def greens(k, r):
    e = np.exp(-1j * k * r) / (4 * np.pi)
    return e / r, -(1 + 1j * k * r) * e / r**2, (2 + 2j * k * r - (k * r) ** 2) * e / r**3


def waves(c, sig):
    f = 10 ** np.array(c["lf"])
    w = 2 * np.pi * f
    mu, eps = mu_0 * c["mu_r"], epsilon_0 * c["eps_r"]
    return f, w, mu, sig + 1j * w * eps, np.sqrt(-1j * w * mu * sig + w**2 * mu * eps)


def check_fd(c):
    from simpeg.electromagnetics.analytics import FDEM

    XYZ, src, d, r, m, moment = geometry(c)
    if r.min() < 0.1 or not np.any(m):
        return ["trivial"]
    if len(r) > 1:
        c = dict(c, lf=c["lf"][:1])  # several points: one frequency; one point: any
    sig = 10 ** c["lsig"]
    f, w, mu, y, k = waves(c, sig)
    if np.abs(k[:, None] * r).max() > 100:
        return ["trivial"]
    F = f if len(f) > 1 else f[0]
    g, g1, g2 = greens(k, r)
    if len(f) > 1:
        d, r = np.repeat(d, len(f), 0), np.repeat(r, len(f))
    name, fac = c["field"], mu if c["field"] == "b" else 1.0
    kw = dict(fieldType=name, mu_r=c["mu_r"], eps_r=c["eps_r"])
    cc, c1 = curlcurl(g1, g2, d, r, m), curl(g1, d, r, m)
    want = -1j * w * mu * c1 if name == "e" else fac * cc
    ok = compare(FDEM.MagneticDipoleWholeSpace(XYZ, src, sig, F, moment, **kw), want, f"{name} of the magnetic dipole {moment} at {src}, seen at {XYZ.tolist()}, f = {F}")
    want = cc / y if name == "e" else fac * c1
    ok |= compare(FDEM.ElectricDipoleWholeSpace(XYZ, src, sig, F, moment, **kw), want, f"{name} of the electric dipole {moment} at {src}, seen at {XYZ.tolist()}, f = {F}")
    return [name, "several frequencies" if len(f) > 1 else "one frequency"] if ok else ["trivial"]


parts_cases = st.fixed_dictionaries(dict(dipole, moment=st.sampled_from(["X", "Y", "Z", "x", "z"]), lf=st.lists(gen.floats(-1, 7, 2), min_size=1, max_size=3), current=gen.floats(0.5, 3, 1), length=gen.floats(0.5, 3, 1), default=st.booleans()))


def check_parts(c):
    from simpeg.electromagnetics import analytics as an

    letter = c["moment"]
    c = dict(c, moment=letter.upper())
    XYZ, src, d, r, m, _ = geometry(c)
    if r.min() < 0.1:
        return ["trivial"]
    if len(r) > 1:
        c = dict(c, lf=c["lf"][:1])
    if c["default"]:
        c = dict(c, mu_r=1.0, eps_r=1.0, current=1.0, length=1.0)
    sig = 10 ** c["lsig"]
    f, w, mu, y, k = waves(c, sig)
    if np.abs(k[:, None] * r).max() > 100:
        return ["trivial"]
    g, g1, g2 = greens(k, r)
    if len(f) > 1:
        d, r = np.repeat(d, len(f), 0), np.repeat(r, len(f))
    p = c["current"] * c["length"]
    kw = {} if c["default"] else dict(current=c["current"], length=c["length"], kappa=c["mu_r"] - 1, epsr=c["eps_r"])
    E, H, A = p * curlcurl(g1, g2, d, r, m) / y, p * curl(g1, d, r, m), p * g * m[:, None]
    ind = p * k**2 * g * m[:, None] / y  # -i w mu A
    what = f"of the electric dipole {letter} at {src}, seen at {XYZ.tolist()}, f = {f}, {kw}"
    got = {}
    for name, want in [("E", E), ("E_galvanic", E - ind), ("E_inductive", ind), ("J", sig * E), ("J_galvanic", sig * (E - ind)), ("J_inductive", sig * ind), ("H", H), ("B", mu * H), ("A", A)]:
        fun = getattr(an, name + "_from_ElectricDipoleWholeSpace")
        got = fun(XYZ, src, sig, f, orientation=letter, **kw)
        ref = E - ind if "galvanic" in name else want
        tol = 1e-8 * max(1.0, np.abs(E).max() / max(np.abs(E - ind).max(), 1e-300)) if "galvanic" in name else 1e-9
        compare(got, want, f"{name} {what}", tol)
    return ["default arguments" if c["default"] else "arguments"]


td_cases = st.fixed_dictionaries(dict(dipole, lt=st.lists(gen.floats(-6, -1, 2), min_size=1, max_size=3), field=st.sampled_from(["h", "e", "dhdt"])))


def check_td(c):
    from simpeg.electromagnetics.analytics import TDEM

    XYZ, src, d, r, m, moment = geometry(c)
    if r.min() < 0.1 or not np.any(m):
        return ["trivial"]
    t = 10 ** np.array(c["lt"])
    if len(r) > 1:
        t = t[:1]
    sig, mu = 10 ** c["lsig"], mu_0 * c["mu_r"]
    th = np.sqrt(mu * sig / (4 * t))
    x = th * r
    if x.max() > 6:
        return ["trivial"]
    e = np.exp(-(x**2))
    q = 2 * th / np.sqrt(np.pi) * e / (4 * np.pi)
    G1 = q / r - erf(x) / (4 * np.pi * r**2)
    G2 = -2 * th**2 * q - 2 * q / r**2 + 2 * erf(x) / (4 * np.pi * r**3)
    Gt = -th * e / (4 * np.pi**1.5 * t)
    Gt1, Gt2 = -2 * th**2 * r * Gt, (4 * th**4 * r**2 - 2 * th**2) * Gt
    if len(t) > 1:
        d, r = np.repeat(d, len(t), 0), np.repeat(r, len(t))
    T = t if len(t) > 1 else t[0]
    name = c["field"]
    small = (th * np.linalg.norm(d, axis=1)).min()
    tol = 1e-7 + 1e-13 / small**3  # (mu_0 is 4 pi 1e-7; differences of nearly equal terms at late times)
    mag = {"h": curlcurl(G1, G2, d, r, m), "dhdt": curlcurl(Gt1, Gt2, d, r, m), "e": -mu * curl(Gt1, d, r, m)}[name]
    ele = {"h": curl(G1, d, r, m), "dhdt": curl(Gt1, d, r, m), "e": curlcurl(G1, G2, d, r, m) / sig}[name]
    if tol > 1e-4:
        return ["trivial"]
    kw = dict(fieldType=name, mu_r=c["mu_r"])
    ok = compare(TDEM.TransientMagneticDipoleWholeSpace(XYZ, src, sig, T, moment, **kw), mag, f"{name} after the magnetic dipole {moment} at {src} is off, seen at {XYZ.tolist()}, t = {T}", tol)
    ok |= compare(TDEM.TransientElectricDipoleWholeSpace(XYZ, src, sig, T, moment, **kw), ele, f"{name} after the electric dipole {moment} at {src} is off, seen at {XYZ.tolist()}, t = {T}", tol)
    return [name] if ok else ["trivial"]


half_cases = st.fixed_dictionaries(dict(r=gen.floats(1, 200, 1), lsig=gen.floats(-3, 1, 2), ls=gen.floats(-1.5, 1.5, 2), lt=gen.floats(-1.0, 1.0, 2)))


def check_half(c):
    from scipy.integrate import quad
    from simpeg.electromagnetics import analytics as an

    r, sig = c["r"], 10 ** c["lsig"]
    t0 = mu_0 * sig * r**2  # diffusion time
    s = 10 ** c["ls"] / t0
    # total field; iw -> s
    Hs = np.ravel(an.hzAnalyticDipoleF(np.r_[r], s / (2j * np.pi), sig, secondary=False))[0]
    stat = -1 / (4 * np.pi * r**3)
    sec = np.ravel(an.hzAnalyticDipoleF(np.r_[r], s / (2j * np.pi), sig))[0]
    close(sec, Hs - stat, "secondary = total - free space", 1e-10, atol=1e-12 * abs(stat))
    I = quad(lambda u: float(an.hzAnalyticDipoleT(r, np.exp(u) * t0, sig)) * np.exp(-s * np.exp(u) * t0 + u) * t0, -18, np.log(45 / (s * t0)), limit=300, epsrel=1e-9, epsabs=0)[0]
    close(I, (stat - Hs.real) / s, f"transient of the dipole at {r} m against its frequency response", 1e-4, atol=1e-6 * abs(stat) / s)
    close(float(an.hzAnalyticDipoleT(r, t0 * 1e-5, sig)), stat, "early field of the dipole is that in free space", 1e-3)
    a, t = r, 10 ** c["lt"] * t0
    h = 1e-4 * a
    d = lambda h: (an.hzAnalyticCentLoopT(a + h, t, sig) - an.hzAnalyticCentLoopT(a - h, t, sig)) / (2 * h)  # noqa: E731
    close((4 * d(h) - d(2 * h)) / 3, 2 * np.pi * a * an.hzAnalyticDipoleT(a, t, sig), "the loop is a sheet of dipoles", 1e-5, atol=1e-7 / a**2)
    close(an.hzAnalyticCentLoopT(a, t0 * 1e-5, sig), 1 / (2 * a), "early field of the loop is that in free space", 1e-3)
    f = np.array([1.0, 10.0]) / t0
    both = np.ravel(an.hzAnalyticDipoleF(np.r_[r], f, sig, mu=2 * mu_0))
    close(both, [np.ravel(an.hzAnalyticDipoleF(np.r_[r], x, 2 * sig))[0] for x in f], "permeability and conductivity act by their product", 1e-10)
    return ["half-space"]


dc_cases = st.fixed_dictionaries(dict(A=point, B=point, M=points, seed=gen.seeds, lsig=gen.floats(-3, 1, 2), I=gen.floats(0.1, 5, 1), half=st.booleans()))


def check_dc(c):
    from simpeg.electromagnetics import analytics as an

    A, B, M = (np.array(c[k], float) for k in "ABM")
    N = M + gen.rng(c).uniform(-20, 20, M.shape)
    sig, I = 10 ** c["lsig"], c["I"]
    dist = lambda P, Q: np.linalg.norm(P - Q, axis=1)  # noqa: E731
    if min(dist(P, Q).min() for P in (M, N) for Q in (A, B)) < 0.1:
        return ["trivial"]
    u = lambda P, Q: I / (4 * np.pi * sig) / dist(P, Q) * (2 if c["half"] else 1)  # noqa: E731
    kw = dict(current=I, earth_type="halfspace" if c["half"] else "wholespace")
    tol = 1e-9 * np.abs(u(M, A)).max()
    close(an.DCAnalytic_Pole_Pole(A, M, sig, **kw), u(M, A), "pole-pole", 1e-11)
    close(an.DCAnalytic_Pole_Dipole(A, [M, N], sig, **kw), u(M, A) - u(N, A), "pole-dipole", 1e-9, atol=tol)
    close(an.DCAnalytic_Dipole_Pole([A, B], M, sig, **kw), u(M, A) - u(M, B), "dipole-pole", 1e-9, atol=tol)
    close(an.DCAnalytic_Dipole_Dipole([A, B], [M, N], sig, **kw), u(M, A) - u(M, B) - u(N, A) + u(N, B), "dipole-dipole", 1e-9, atol=tol)
    return [kw["earth_type"]]


sphere_cases = st.fixed_dictionaries(dict(xyz=points, xc=pos, y=pos, dist=gen.floats(1.3, 6, 1), side=st.sampled_from([-1, 1]), R=gen.floats(1, 20, 1), lsig=gen.floats(-3, 0, 1), lsig1=gen.floats(-3, 1, 1), half=st.booleans(), order=st.sampled_from([12, 8, 20])))


def check_dc_sphere(c):
    from simpeg.electromagnetics import analytics as an

    R, s0, s1 = c["R"], 10 ** c["lsig"], 10 ** c["lsig1"]
    x0 = R * c["dist"]
    tx = np.r_[c["xc"] + c["side"] * x0, c["y"], 0.0]
    rx = np.array(c["xyz"], float) * R / 20
    rx[:, 0] += c["xc"]
    rx[:, 1] += c["y"]
    d = rx - np.r_[c["xc"], c["y"], 0.0]
    r = np.linalg.norm(d, axis=1)
    far = np.linalg.norm(rx - tx, axis=1)
    if r.min() < 0.01 * R or far.min() < 0.1 * R or np.abs(r - R).min() < 1e-9 * R:
        return ["trivial"]
    cos = c["side"] * d[:, 0] / r
    q = 1 / (4 * np.pi * s0)
    sec, inside = np.zeros(len(r)), r < R
    for n in range(c["order"]):
        # q R^n/x0^(n+1) + a/R^(n+1) = b R^n ; s0 (n q R^(n-1)/x0^(n+1) - (n+1) a/R^(n+2)) = s1 n b R^(n-1)
        a, b = np.linalg.solve([[1.0, -1.0], [-s0 * (n + 1), -s1 * n]], [-q / x0 * (R / x0) ** n, -s0 * n * q / x0 * (R / x0) ** n])
        P = eval_legendre(n, cos)
        sec += np.where(inside, b * (r / R) ** n, a * (R / r) ** (n + 1)) * P
    prim = q / far
    total = np.where(inside, sec, prim + sec)
    scale = 2 if c["half"] else 1
    kw = dict(order=c["order"], halfspace=c["half"])
    atol = 1e-9 * np.abs(scale * prim).max()
    what = f"sphere at {c['xc']} of radius {R}, source at {tx}, points {rx.tolist()}"
    close(an.DCAnalyticSphere(tx, rx, c["xc"], R, s0, s1, field_type="total", **kw), scale * total, "total potential, " + what, 1e-8, atol=atol)
    close(an.DCAnalyticSphere(tx, rx, c["xc"], R, s0, s1, field_type="primary", **kw), scale * prim, "primary potential, " + what, 1e-8, atol=atol)
    close(an.DCAnalyticSphere(tx, rx, c["xc"], R, s0, s1, **kw), scale * (total - prim), "secondary potential, " + what, 1e-8, atol=atol)
    return ["inside" if inside.any() else "outside"]


pf_cases = st.fixed_dictionaries(dict(xyz=points, c=point, R=gen.floats(2, 40, 1), v=gen.floats(-2, 2, 2), B=st.lists(gen.floats(-50, 50, 1), min_size=3, max_size=3), chi=gen.floats(0.01, 20, 2), mu1=st.sampled_from([1.0, 1.5])))


def check_pf(c):
    from simpeg.potential_fields.gravity import analytics as ga
    from simpeg.potential_fields.magnetics import analytics as ma

    X, c0, R = np.array(c["xyz"], float), np.array(c["c"], float), c["R"]
    d = X - c0
    r = np.linalg.norm(d, axis=1)
    if r.min() < 0.1 or np.abs(r - R).min() < 1e-6 * R:
        return ["trivial"]
    inside = r < R
    V = 4 / 3 * np.pi * R**3
    T = 3 * np.einsum("ni,nj->nij", d, d) / r[:, None, None] ** 5 - np.eye(3) / r[:, None, None] ** 3  # dipole tensor
    args = (*X.T, R, *c0)
    what = f"sphere {c0} of radius {R}, points {X.tolist()}"
    rho = c["v"]
    gwant = -NEWTON * 1e8 * rho * 4 / 3 * np.pi * d * np.where(inside, 1.0, (R / r) ** 3)[:, None]
    close(np.stack(ga.GravSphereFreeSpace(*args, rho)).T, gwant, "gravity of the " + what, 1e-9, atol=1e-12 * np.abs(gwant).max())
    H = NEWTON * 1e12 * rho * np.where(inside[:, None, None], -4 / 3 * np.pi * np.eye(3), V * T)
    got = np.stack(ga.GravityGradientSphereFreeSpace(*args, rho)).T
    want = np.stack([H[:, 0, 0], H[:, 0, 1], H[:, 0, 2], H[:, 1, 1], H[:, 1, 2], H[:, 2, 2]]).T
    close(got, want, "gravity gradient of the " + what, 1e-9, atol=1e-12 * np.abs(want).max())
    B, chi = np.array(c["B"], float), c["chi"]
    if not np.any(B):
        return ["trivial"]
    # magnetization chi B / mu_0, no demagnetization
    want = np.where(inside[:, None], 2 / 3 * chi * B, chi * V / (4 * np.pi) * T @ B)
    bx, by, bz, tmi = ma.MagSphereFreeSpace(*args, chi, B)
    atol = 1e-11 * np.abs(want).max()
    close(np.stack([bx, by, bz]).T, want, "field of the magnetized " + what, 1e-9, atol=atol)
    close(tmi, want @ B / np.linalg.norm(B), "total field anomaly of the " + what, 1e-9, atol=10 * atol)
    # permeable sphere in a uniform field
    for flag in ("total", "secondary"):
        want = np.where(inside[:, None], 3 * (1 + chi) / (3 + chi) * B - B, R**3 * chi / (3 + chi) * T @ B) + (B if flag == "total" else 0)
        got = np.stack(ma.MagSphereAnaFunA(*args, chi, B, flag)).T
        close(got, want, f"{flag} field of the permeable " + what, 1e-9, atol=1e-11 * np.abs(B).max())
        mu1, h0 = c["mu1"] * mu_0, B[0]
        mu2 = mu1 * (1 + chi)
        b0 = np.r_[mu1 * h0, 0, 0]
        want = np.where(inside[:, None], 3 * (1 + chi) / (3 + chi) * b0 - b0, R**3 * chi / (3 + chi) * T @ b0) + (b0 if flag == "total" else 0)
        got = np.stack(ma.MagSphereAnaFun(*args, mu1, mu2, h0, flag)).T
        close(got, want, f"{flag} field of the permeable " + what, 1e-9, atol=1e-11 * abs(mu1 * h0) + 1e-300)
    return ["inside" if inside.any() else "outside"]


mt_cases = st.fixed_dictionaries(dict(lf=st.lists(gen.floats(-3, 3, 2), min_size=1, max_size=3), lsig=st.lists(gen.floats(-3, 0, 2), min_size=1, max_size=4), h=st.lists(gen.floats(20, 500, 0), min_size=3, max_size=3), mu=st.sampled_from(["one", "layers"]), ip=st.booleans(), seed=gen.seeds, scalar=st.booleans()))


def check_mt(c):
    from discretize import TensorMesh
    from simpeg.electromagnetics import analytics as an
    from simpeg.electromagnetics.natural_source.utils.analytic_1d import getEHfields, getImpedance

    r = gen.rng(c)
    f = 10 ** np.array(c["lf"])
    sig = 10 ** np.array(c["lsig"])
    n = len(sig)
    h = np.array(c["h"], float)[: n - 1]
    mu_r = r.uniform(1, 2, n) if c["mu"] == "layers" else np.ones(n)
    kw = dict(mu_r=mu_r) if c["mu"] == "layers" else {}
    w = 2 * np.pi * f
    s = np.repeat(sig[:, None], len(f), 1).astype(complex)
    if c["ip"]:
        eta, tau, cc = r.uniform(0.05, 0.5, n), 10 ** r.uniform(-2, 1, n), r.uniform(0.3, 1, n)
        kw.update(chg=eta, tau=tau, c=cc)
        s *= 1 - eta[:, None] / (1 + (1j * w * tau[:, None]) ** cc[:, None])

    def impedance(s, mu, h):
        k = np.sqrt(w**2 * mu[:, None] * epsilon_0 - 1j * w * mu[:, None] * s)
        z = w * mu[:, None] / k
        Z = z[-1]
        for i in range(len(h) - 1, -1, -1):
            x = np.tanh(1j * k[i] * h[i])
            Z = z[i] * (Z + z[i] * x) / (z[i] + Z * x)
        return Z

    k = np.sqrt(-1j * w * mu_0 * mu_r[:, None] * s)
    if n > 1 and np.abs(k.imag[:-1] * h[:, None]).sum(0).max() > 200:
        return ["trivial"]
    Z = impedance(s, mu_0 * mu_r, h)
    what = f"layers {sig}, {h}, f {f}, {kw}"
    F = f if len(f) > 1 or not c["scalar"] else float(f[0])
    S = sig if n > 1 or not c["scalar"] or c["ip"] or kw else float(sig[0])
    thick = (None if c["scalar"] else np.empty(0)) if n == 1 else h
    before = [np.copy(x) for x in (sig, h, f)]
    close(an.MT_LayeredEarth(F, thick, S, return_type="Impedance", **kw), Z, "impedance of " + what, 1e-7)
    rho, ph = an.MT_LayeredEarth(F, thick, S, **kw)
    close(rho, np.abs(Z) ** 2 / (w * mu_0), "apparent resistivity of " + what, 1e-7)
    close(ph, np.angle(Z, deg=True), "phase of " + what, 1e-7)
    require(all(np.array_equal(a, b) for a, b in zip(before, (sig, h, f))), "arguments were changed")
    # the same on a mesh, cells counted from below
    if n > 1:
        mesh = TensorMesh([np.r_[h[-1], h[::-1]]], origin=[-float(h.sum() + h[-1])])
        Z0 = impedance(sig[:, None] * np.ones(len(f)), mu_0 * np.ones(n), h)
        close(getImpedance(mesh, sig[::-1], f), Z0, "impedance of the mesh, " + what, 1e-7)
        z = np.sort(np.r_[r.uniform(mesh.nodes_x[0] - 10, 0, 4), 0.0])
        for i, fr in enumerate(f):
            Ed, Eu, Hd, Hu = getEHfields(mesh, sig[::-1], fr, z)
            close((Ed + Eu)[-1] / (Hd + Hu)[-1], Z0[i], "ratio of the fields at the surface, " + what, 1e-7)
            top = h.sum() * 1e-9
            x = np.r_[mesh.nodes_x[1:-1] - top, mesh.nodes_x[1:-1] + top]
            Ed, Eu, Hd, Hu = getEHfields(mesh, sig[::-1], fr, x)
            E, Hh = (Ed + Eu).reshape(2, -1), (Hd + Hu).reshape(2, -1)
            close(E[0], E[1], "electric field on both sides of interfaces, " + what, 1e-5)
            close(Hh[0], Hh[1], "magnetic field on both sides of interfaces, " + what, 1e-5)
    return ["chargeable" if c["ip"] else "plain", f"{n} layers"]


casing_cases = st.fixed_dictionaries(dict(xyz=points, src=point, f=gen.floats(0.1, 50, 1), lsig=st.lists(gen.floats(-3, 1, 1), min_size=3, max_size=3), a=gen.floats(0.05, 0.2, 2), w=gen.floats(0.01, 0.05, 2), mu=st.lists(st.sampled_from([1.0, 2.0, 5.0]), min_size=3, max_size=3), moment=gen.floats(0.5, 4, 1)))


def check_casing(c):
    from simpeg.electromagnetics import analytics as an

    X, src = np.array(c["xyz"], float), np.array(c["src"], float)
    d = X - src
    r = np.linalg.norm(d, axis=1)
    hor = np.hypot(d[:, 0], d[:, 1])
    if r.min() < 0.5 or hor.min() < 1e-3 * r.max():
        return ["trivial"]
    f, sig, mu = c["f"], 10 ** np.array(c["lsig"]), mu_0 * np.array(c["mu"])
    a, b = c["a"], c["a"] + c["w"]
    w = 2 * np.pi * f
    kk = lambda i: np.sqrt(w**2 * mu[i] * epsilon_0 - 1j * w * mu[i] * sig[i])  # noqa: E731
    Kc = np.sqrt(b / a) * np.exp(-1j * kk(1) * (b - a))
    close(an.getKc(f, sig[1], a, b, mu[1]), Kc, "attenuation of the casing", 1e-11)
    g, g1, g2 = greens(kk(2), r)
    m = np.r_[0, 0, 1.0] * c["moment"]
    H = Kc * curlcurl(g1, g2, d, r, m)
    Hr = (H[0] * d[:, 0] + H[1] * d[:, 1]) / hor
    E = -1j * w * mu[2] * Kc * curl(g1, d, r, m)
    Ephi = (E[1] * d[:, 0] - E[0] * d[:, 1]) / hor
    args = (src, X, f, sig, a, b)
    s = np.abs(H).max()
    what = f"dipole in a casing at {src}, seen at {X.tolist()}"
    for name, want, atol in [("Hr", Hr, 1e-10 * s), ("Hz", H[2], 1e-10 * s), ("Br", mu[2] * Hr, 1e-10 * s * mu[2]), ("Bz", mu[2] * H[2], 1e-10 * s * mu[2]), ("Ephi", Ephi, 1e-10 * np.abs(Ephi).max())]:
        got = getattr(an, f"getCasing{name}MagDipole")(*args, mu=mu, moment=c["moment"])
        require(np.shape(got) == want.shape, f"{name}: shape {np.shape(got)}, expected {want.shape}")
        close(got, want, f"{name} of the {what}", 1e-9, atol=atol)
    return ["casing"]


SUBS = [
    Sub("fd_dipoles", fd_cases, check_fd, quick=500, shards=2),
    Sub("parts", parts_cases, check_parts, quick=300, shards=1),
    Sub("td_dipoles", td_cases, check_td, quick=500, shards=2),
    Sub("halfspace", half_cases, check_half, quick=100, shards=1),
    Sub("dc", dc_cases, check_dc, quick=200, shards=1),
    Sub("dc_sphere", sphere_cases, check_dc_sphere, quick=200, shards=1),
    Sub("spheres", pf_cases, check_pf, quick=300, shards=1),
    Sub("mt", mt_cases, check_mt, quick=200, shards=1),
    Sub("casing", casing_cases, check_casing, quick=200, shards=1),
]
