"""C22: petrophysically guided inversion: the Gaussian mixtures and the regularization made from them."""

import warnings

import numpy as np
import scipy.sparse as sp
from discretize import TensorMesh
from hypothesis import strategies as st
from scipy.linalg import block_diag
from scipy.special import logsumexp
from simpeg import data_misfit, directives, inverse_problem, inversion, maps, optimization, regularization, simulation
from simpeg import data as data_module
from simpeg.regularization.pgi import PGIsmallness
from simpeg.survey import BaseRx, BaseSrc, BaseSurvey
from simpeg.utils import (
    GaussianMixtureWithNonlinearRelationships,
    GaussianMixtureWithNonlinearRelationshipsWithPrior,
    GaussianMixtureWithPrior,
    WeightedGaussianMixture,
)
from sklearn.mixture import GaussianMixture

from lib import gen
from lib.oracle import check_directional, close, require
from lib.pbt import Sub

warnings.filterwarnings("ignore")

PROPERTY = "C22"
RULE = (
    "A case is a mesh with active cells, 1-3 physical properties with element-wise maps, a Gaussian mixture of 1-4 units (full, tied, diagonal or spherical covariances; "
    "optionally polynomial relationships), weights, reference models, and a history of settings; or samples to which mixtures with or without priors are fitted. "
    "Non-trivial: more than one unit or property."
)
ASSUMPTIONS = [
    "With reference models in the smoothness, the maps are identities.",
    "Mixtures updated with priors start at, and stay near, well separated reference units, so that units are matched without ambiguity.",
]
COV = ["full", "tied", "diag", "spherical"]


def spd(r, d, lo=0.05, hi=0.5):
    A = r.standard_normal((d, d))
    q, _ = np.linalg.qr(A)
    return q @ np.diag(r.uniform(lo, hi, d)) @ q.T


def covariances(r, ct, k, d):
    if ct == "full":
        return np.array([spd(r, d) for _ in range(k)])
    if ct == "tied":
        return spd(r, d)
    if ct == "diag":
        return r.uniform(0.05, 0.5, (k, d))
    return r.uniform(0.05, 0.5, k)


def as_full(cov, ct, k, d):
    if ct == "full":
        return cov
    if ct == "tied":
        return np.array([cov] * k)
    if ct == "diag":
        return np.array([np.diag(c) for c in cov])
    return np.array([c * np.eye(d) for c in cov])


def set_gmm(g, means, cov, weights):
    g.means_ = means.copy()
    g.covariances_ = cov.copy()
    g.weights_ = weights.copy()
    g.compute_clusters_precisions()
    return g


def mixture(r, mesh, act, ct, k, d, local=False, cls=WeightedGaussianMixture, **kw):
    if cls is WeightedGaussianMixture:
        kw["actv"] = act
    n = int(act.sum())
    w = r.uniform(0.2, 1.0, (n, k) if local else k)
    w = (w.T / w.T.sum(axis=0)).T
    g = cls(mesh=mesh, n_components=k, covariance_type=ct, **kw)
    return set_gmm(g, 3 * r.standard_normal((k, d)), covariances(r, ct, k, d), w)


MAPS = ["identity", "identity", "exp", "linear"]


def make_map(kind, n, r):
    if kind == "identity":
        return maps.IdentityMap(nP=n), lambda x: x, lambda x: np.ones_like(x)
    if kind == "exp":
        return maps.ExpMap(nP=n), np.exp, np.exp
    s = r.uniform(0.5, 2.0, n)
    return maps.LinearMap(sp.diags(s).tocsr(), np.arange(n) * 0.1), lambda x: s * x + np.arange(n) * 0.1, lambda x: s


class Poly:
    """x -> (pxx(x) + pxy(y), pyx(x) + pyy(y))"""

    def __init__(self, c):
        self.c = c

    def map(self):
        return maps.PolynomialPetroClusterMap(coeffxx=self.c[0], coeffxy=self.c[1], coeffyx=self.c[2], coeffyy=self.c[3])

    def __call__(self, X):
        p = [np.polynomial.polynomial.polyval(X[:, i % 2], self.c[i]) for i in range(4)]
        return np.c_[p[0] + p[1], p[2] + p[3]]


def polys(r, k):
    out = []
    for _ in range(k):
        out.append(
            Poly(
                [
                    np.r_[r.normal(), 1.0, 0.2 * r.normal()],
                    np.r_[0.0, 0.3 * r.normal(), 0.2 * r.normal()],
                    np.r_[0.0, 0.3 * r.normal(), 0.2 * r.normal()],
                    np.r_[r.normal(), 1.0, 0.2 * r.normal()],
                ]
            )
        )
    return out


class Reference:
    """the smallness, from its definition"""

    def __init__(self, c, r):
        self.mesh = gen.build_mesh(c["mesh"])
        self.act = gen.active_cells(self.mesh, r)
        self.n = n = int(self.act.sum())
        self.nl = c["nonlinear"]
        self.ct = c["cov"] if not self.nl else "full"
        self.d = d = 2 if self.nl else c["d"]
        self.k = k = c["k"]
        if self.nl:
            self.act[:] = True
            self.n = n = self.mesh.n_cells
            self.polys = polys(r, k)
            self.gmm = mixture(
                r, self.mesh, self.act, self.ct, k, d, cls=GaussianMixtureWithNonlinearRelationships, cluster_mapping=[p.map() for p in self.polys]
            )
            self.gmm.weights_ = np.sort(self.gmm.weights_)[::-1].copy()  # units keep their relationship
        else:
            self.gmm = mixture(r, self.mesh, self.act, self.ct, k, d)
        mp = [make_map(x, n, r) for x in c["maps"][:d]]
        self.maplist, self.f, self.df = [q[0] for q in mp], [q[1] for q in mp], [q[2] for q in mp]
        self.wires = maps.Wires(*[(f"m{i}", n) for i in range(d)])
        self.rmesh = regularization.RegularizationMesh(self.mesh, active_cells=self.act)
        self.kw = dict(wiresmap=self.wires, maplist=self.maplist, mesh=self.rmesh, non_linear_relationships=self.nl)

    def props(self, m):
        return np.c_[tuple(f(x) for f, x in zip(self.f, m.reshape(self.d, -1)))]

    def units(self, gmm):
        return gmm.means_, as_full(gmm.covariances_, self.ct, self.k, self.d), gmm.weights_

    def membership(self, gmm, m):
        mu, S, w = self.units(gmm)
        X = self.props(m)
        L = np.array([self.logpdf(X, mu[k], S[k], k) + np.log(w[k]) for k in range(self.k)])
        return L.argmax(axis=0), np.partition(L, -2, axis=0)[-1] - np.partition(L, -2, axis=0)[-2] if self.k > 1 else np.ones(self.n)

    def logpdf(self, X, mu, S, k, sw=None):
        Y = self.polys[k](X) if self.nl else X
        D = Y - mu
        if sw is not None:
            D = D * sw
        P = np.linalg.inv(S)
        return -0.5 * (self.d * np.log(2 * np.pi) + np.einsum("ij,jk,ik->i", D, P, D)) - 0.5 * np.linalg.slogdet(S)[1]

    def approx(self, gmm, mref, w, m):
        mu, S, _ = self.units(gmm)
        R = mref.reshape(self.d, -1).T
        z = ((R[:, None, :] - mu[None]) ** 2).sum(axis=2).argmin(axis=1)
        X = self.props(m)
        if self.nl:
            X = np.array([self.polys[q](x[None])[0] for q, x in zip(z, X)])
        D = np.sqrt(w.reshape(self.d, -1).T) * (X - R)
        return sum(D[i] @ np.linalg.solve(S[z[i]], D[i]) for i in range(self.n)), z

    def full(self, gmm, w, m):
        mu, S, g = self.units(gmm)
        X = self.props(m)
        sw = np.sqrt(w.reshape(self.d, -1).T)
        if self.nl:
            L = np.array([self.logpdf(X, mu[k], S[k], k) + np.log(g[k]) for k in range(self.k)])
            sc = logsumexp(L, axis=0)
            return -2 * np.sum(w * np.tile(sc, self.d)) / self.d
        L = np.array([self.logpdf(X, mu[k], S[k], k, sw) + np.log(g[k]) for k in range(self.k)])
        return -2 * logsumexp(L, axis=0).sum()

    def hessian(self, gmm, z, w, m):
        """Gauss-Newton: 2 J' W P W J"""
        mu, S, _ = self.units(gmm)
        X = m.reshape(self.d, -1)
        H = np.zeros((self.n * self.d,) * 2)
        sw = np.sqrt(w.reshape(self.d, -1))
        XP = self.props(m)
        for i in range(self.n):
            J = np.diag([np.broadcast_to(df(x), x.shape)[i] for df, x in zip(self.df, X)])
            if self.nl:
                h = 1e-5
                p = self.polys[z[i]]
                Jp = np.array([(p(XP[i : i + 1] + h * e) - p(XP[i : i + 1] - h * e))[0] / (2 * h) for e in np.eye(2)]).T
            else:
                Jp = np.eye(self.d)
            ix = i + self.n * np.arange(self.d)
            s = np.diag(sw[:, i])
            H[np.ix_(ix, ix)] = 2 * J.T @ Jp.T @ s @ np.linalg.inv(S[z[i]]) @ s @ Jp @ J
        return H


mesh_st = st.one_of(gen.tensor_mesh(dim=1, nmax=6), gen.tensor_mesh(dim=2, nmax=3), gen.tensor_mesh(dim=3, nmax=2))


def volumes(ref):
    return np.tile(ref.mesh.cell_volumes[ref.act], ref.d)


def check_smallness(c):
    r = gen.rng(c)
    q = Reference(c, r)
    n, d = q.n, q.d
    nP = n * d

    def fresh():
        return PGIsmallness(q.gmm, **q.kw)

    reg = fresh()
    W = {"volume": volumes(q)}
    mref, gmm = None, None
    what = f"PGI smallness {q.ct} {q.k} units {d} properties" + (" polynomial" if q.nl else "")
    labels = [q.ct, "nl" if q.nl else "linear"]
    for op in c["ops"]:
        m = r.normal(0, 1.0, nP)
        if op == "gmm":
            gmm = mixture(r, q.mesh, q.act, q.ct, q.k, d, cls=type(q.gmm), **({"cluster_mapping": [p.map() for p in q.polys]} if q.nl else {}))
            reg.gmm = gmm
        elif op == "mref":
            mref = r.normal(0, 2.0, nP)
            reg.reference_model = mref
        elif op == "weights":
            w = r.uniform(0.3, 2.0, n if q.nl or r.random() < 0.5 else nP)
            reg.set_weights(mine=w)
            W["mine"] = np.tile(w, d) if len(w) == n else w
        elif op == "remove":
            if "mine" in W:
                reg.remove_weights("mine")
                del W["mine"]
        else:
            g = reg.gmm
            if gmm is not None:
                close(g.means_, gmm.means_, what + ": means of the mixture that was set")
            if mref is None:
                z, gap = q.membership(g, m)
                if gap.min() < 1e-6:
                    continue
                require(np.array_equal(np.asarray(reg.membership(m)), z), f"{what}: membership {reg.membership(m)}, expected {z}")
                reg(m)
                mref = g.means_[z].T.ravel()
                close(reg.reference_model, mref, what + ": default reference model", 1e-12)
            w = np.prod(list(W.values()), axis=0)
            reg.approx_eval = reg.approx_gradient = reg.approx_hessian = True
            val, z = q.approx(g, mref, w, m)
            close(np.r_[reg(m)], np.r_[val], what + ": approximate value", 1e-9, atol=1e-12)
            require(np.array_equal(np.asarray(reg.compute_quasi_geology_model()), z), what + ": quasi-geology model")
            v = r.standard_normal(nP)
            check_directional(lambda x: np.r_[reg(x)], np.r_[reg.deriv(m) @ v], m, v, 1e-3, what + " derivative", rtol=1e-6, floor=np.r_[1e-9 * (1 + abs(val))])
            H = q.hessian(g, z, w, m)
            tol = 1e-6 if q.nl else 1e-9
            close(np.asarray(reg.deriv2(m, v)).ravel(), H @ v, what + ": second derivative times a vector", tol)
            H2 = reg.deriv2(m)
            close(H2 @ v, H @ v, what + ": second derivative", tol)
            if not q.nl:
                val1, _ = q.approx(g, mref, np.ones(nP), m)
                close(np.r_[reg(m, external_weights=False)], np.r_[val1], what + ": value without weights", 1e-9, atol=1e-12)
            # the whole mixture
            reg.approx_eval = False
            full = q.full(g, w, m)
            close(np.r_[reg(m)], np.r_[full], what + ": value", 1e-9, atol=1e-9)
            if not q.nl:
                reg.approx_gradient = reg.approx_hessian = False
                check_directional(lambda x: np.r_[reg(x)], np.r_[reg.deriv(m) @ v], m, v, 1e-3, what + " full derivative", rtol=1e-5, floor=np.r_[1e-8 * (1 + abs(full))])
                mu, S, gw = q.units(g)
                sw = np.sqrt(w.reshape(d, -1).T)
                X = q.props(m)
                L = np.array([q.logpdf(X, mu[k], S[k], k, sw) + np.log(gw[k]) for k in range(q.k)])
                G = np.exp(L - logsumexp(L, axis=0))
                H = sum(gk.repeat(1)[:, None, None] * np.linalg.inv(S[k]) for k, gk in enumerate(G))
                Jd = np.c_[tuple(np.broadcast_to(df(x), x.shape) for df, x in zip(q.df, m.reshape(d, -1)))] * sw
                want = 2 * np.einsum("ij,ijk,ik,ik->ij", Jd, H, Jd, v.reshape(d, -1).T).T.ravel()
                close(np.asarray(reg.deriv2(m, v)).ravel(), want, what + ": full second derivative times a vector", 1e-8)
                close(reg.deriv2(m) @ v, want, what + ": full second derivative", 1e-8)
            reg.approx_eval = reg.approx_gradient = reg.approx_hessian = True
            labels.append("eval")
    return labels + ([] if "eval" in labels and q.k * d > 1 else ["trivial"])


def check_pgi(c):
    """the regularization is the smallness and a smoothness of each property"""
    r = gen.rng(c)
    q = Reference(c, r)
    n, d = q.n, q.d
    nP = n * d
    ident = all(x == "identity" for x in c["maps"][:d])
    dim = q.mesh.dim
    al = {f"alpha_{x}": float(r.uniform(0.1, 3)) for x in "xyz"[:dim]}
    if c["second"]:
        al.update({f"alpha_{x}{x}": float(r.uniform(0.1, 3)) for x in "xyz"[:dim]})
    a = float(r.uniform(0.2, 4))
    w = None
    if c["weights"] == "each" and not q.nl:
        w = [r.uniform(0.5, 2.0, n) for _ in range(d)]
    elif c["weights"] != "none":
        w = r.uniform(0.5, 2.0, n)
    insmooth = bool(c["insmooth"] and ident)
    reg = regularization.PGI(
        q.rmesh, q.gmm, wiresmap=q.wires, maplist=q.maplist, alpha_pgi=a, weights_list=w, non_linear_relationships=q.nl, reference_model_in_smooth=insmooth, **al
    )
    mref = r.normal(0, 2.0, nP)
    reg.reference_model = mref if c["ref"] == "vector" else 0.7
    if c["ref"] != "vector":
        mref = np.full(nP, 0.7)
    what = f"PGI regularization {q.ct} {d} properties"
    close(np.asarray(reg.reference_model), mref, what + ": reference model")
    if c["alpha2"]:
        a = float(r.uniform(0.2, 4))
        reg.alpha_pgi = a
    W = volumes(q)
    if w is not None:
        W = W * (np.concatenate(w) if isinstance(w, list) else np.tile(w, d))
    m = r.normal(0, 1, nP)

    def want(m):
        out = a * q.approx(reg.gmm, mref, W, m)[0]
        for i in range(d):
            wi = None if w is None else {"u": w[i] if isinstance(w, list) else w}
            s = regularization.WeightedLeastSquares(q.rmesh, alpha_s=0.0, weights=wi, reference_model_in_smooth=insmooth, **al)
            if insmooth:
                s.reference_model = mref.reshape(d, -1)[i]
            out = out + s(q.props(m)[:, i])
        return np.r_[out]

    close(np.r_[reg(m)], want(m), what + ": value", 1e-9, atol=1e-12)
    v = r.standard_normal(nP)
    check_directional(want, np.r_[reg.deriv(m) @ v], m, v, 1e-3, what + ": derivative", rtol=1e-6, floor=1e-9 * np.abs(want(m)))
    close(np.asarray(reg.deriv2(m, v)).ravel(), reg.deriv2(m) @ v, what + ": second derivative", 1e-9)
    u = r.standard_normal(nP)
    x, y = u @ np.asarray(reg.deriv2(m, v)).ravel(), v @ np.asarray(reg.deriv2(m, u)).ravel()
    close(np.r_[x], np.r_[y], what + ": symmetry of the second derivative", 1e-9, scale=abs(x) + abs(y) + 1e-9 * np.abs(reg.deriv2(m, v)).max())
    return [q.ct, c["weights"]] + ([] if q.k * d > 1 else ["trivial"])


# ---------------------------------------------------------------------------------------------- mixtures
def cells_and_samples(c, r, mu, S, w):
    """1D cells of integer sizes and samples of the units"""
    n = c["n"]
    h = r.integers(1, 4, n).astype(float)
    mesh = TensorMesh([c["size"] * h])
    act = np.ones(n, dtype=bool)
    if c["inactive"]:
        act[r.permutation(n)[: n // 5]] = False
    na = int(act.sum())
    z = np.r_[np.arange(len(mu)), np.arange(len(mu)), r.choice(len(mu), na - 2 * len(mu), p=w)]
    d = mu.shape[1]
    X = np.array([mu[k] + np.linalg.cholesky(S[k]) @ r.standard_normal(d) for k in z])
    return mesh, act, X, h[act].astype(int)


def separated(r, k, d):
    mu = np.zeros((k, d))
    mu[:, 0] = 8.0 * r.permutation(k)
    return mu + r.uniform(-0.5, 0.5, (k, d))


def prec_init(cov, ct):
    if ct == "full":
        return np.linalg.inv(cov)
    if ct == "tied":
        return np.linalg.inv(cov)
    return 1 / cov


def check_fit(c):
    """weighted by the volumes: as many samples as volume"""
    r = gen.rng(c)
    k, d, ct = c["k"], c["d"], c["cov"]
    mu = 2.0 * r.standard_normal((k, d))
    w = r.uniform(0.3, 1, k)
    w /= w.sum()
    cov = covariances(r, ct, k, d)
    mesh, act, X, cnt = cells_and_samples(c, r, mu, as_full(cov, ct, k, d), w)
    kw = dict(
        n_components=k, covariance_type=ct, max_iter=c["iters"], tol=0.0, n_init=1, random_state=0, reg_covar=1e-3,
        means_init=mu + 0.3 * r.standard_normal((k, d)), weights_init=w, precisions_init=prec_init(cov, ct),
    )
    g = WeightedGaussianMixture(mesh=mesh, actv=act if c["inactive"] else None, **kw)
    g.fit(X)
    s = GaussianMixture(**kw).fit(np.repeat(X, cnt, axis=0))
    what = f"mixture of {k} units, {ct}, {c['iters']} iterations, volumes"
    for nm in ("weights_", "means_", "covariances_", "precisions_", "precisions_cholesky_"):
        close(getattr(g, nm), getattr(s, nm), f"{what}: {nm}", 1e-7)
    close(np.r_[g.score(X), g.lower_bound_], np.r_[s.score(np.repeat(X, cnt, axis=0)), s.lower_bound_], what + ": score", 1e-7, atol=1e-7)
    require(np.array_equal(g.predict(X), s.predict(X)), what + ": prediction")
    # order by weight: the same mixture
    sc = g.score_samples(X)
    old = [g.weights_.copy(), g.means_.copy()]
    ix = g.order_clusters_GM_weight(outputindex=True)
    require(np.all(np.diff(g.weights_) <= 0), what + f": weights {g.weights_} are not in decreasing order")
    close(g.means_, old[1][ix], what + ": means in the new order")
    close(g.score_samples(X), sc, what + ": the ordered mixture is another one", 1e-9)
    g.compute_clusters_precisions()
    close(g.score_samples(X), sc, what + ": the mixture after compute_clusters_precisions is another one", 1e-7)
    g.precisions_ = g.precisions_.copy()
    g.covariances_ = None
    g.compute_clusters_covariances()
    close(g.score_samples(X), sc, what + ": the mixture after compute_clusters_covariances is another one", 1e-6)
    sw = r.uniform(0.5, 2.0, X.shape)
    S = as_full(g.covariances_, ct, k, d)
    L = []
    for i in range(k):
        D = (X - g.means_[i]) * sw
        L.append(np.log(g.weights_[i]) - 0.5 * (d * np.log(2 * np.pi) + np.einsum("ij,jk,ik->i", D, np.linalg.inv(S[i]), D)) - 0.5 * np.linalg.slogdet(S[i])[1])
    close(g.score_samples_with_sensW(X, sw), logsumexp(L, axis=0), what + ": weighted score", 1e-8)
    return [ct] + ([] if k > 1 else ["trivial"])


def moments(Y, R, v, ct, reg):
    nk = (v[:, None] * R).sum(axis=0)
    mu = np.array([((v * R[:, k]) @ Y[k]) / nk[k] for k in range(R.shape[1])])
    d = mu.shape[1]
    S = []
    for k in range(R.shape[1]):
        D = Y[k] - mu[k]
        S.append((v * R[:, k] * D.T) @ D / nk[k] + reg * np.eye(d))
    S = np.array(S)
    if ct == "tied":
        S = np.tensordot(nk, S, axes=1) / nk.sum()
    elif ct == "diag":
        S = np.array([np.diag(s) for s in S])
    elif ct == "spherical":
        S = np.array([np.diag(s).mean() for s in S])
    return nk / nk.sum(), mu, S


def check_prior(c):
    """each iteration: the volume weighted moments, then the priors of each unit"""
    r = gen.rng(c)
    k, d, ct = c["k"], c["d"], c["cov"]
    nl = c["nonlinear"] and d == 2 and k == 1 and ct != "tied"
    mu = separated(r, k, d)
    w = r.uniform(0.5, 1, k)
    w /= w.sum()
    cov = covariances(r, ct, k, d)
    mesh, act, X, cnt = cells_and_samples(c, r, mu, as_full(cov, ct, k, d), w)
    ps = None
    if nl:
        mesh = TensorMesh([mesh.h[0][act]])
        act = np.ones(mesh.n_cells, dtype=bool)
        ps = []
        for _ in range(k):
            ps.append(Poly([np.r_[0.3 * r.normal(), 1.0], np.r_[0.0, 0.1 * r.normal()], np.r_[0.0, 0.02 * r.normal(), 0.01 * r.normal()], np.r_[0.2 * r.normal(), 1.0]]))
        ref = GaussianMixtureWithNonlinearRelationships(mesh=mesh, n_components=k, covariance_type=ct, cluster_mapping=[p.map() for p in ps])
        mu = np.array([ps[i](mu[i : i + 1])[0] for i in range(k)])
    else:
        ref = WeightedGaussianMixture(k, mesh, actv=act, covariance_type=ct)
    n = len(X)
    v = c["size"] * cnt.astype(float)
    set_gmm(ref, mu, cov, w)
    hyper = {}
    for h in ("kappa", "nu", "zeta"):
        u = c[h]
        hyper[h] = {"none": 0.0, "some": float(r.uniform(0.2, 3)), "all": 1e8, "each": r.uniform(0.2, 3, (k, d) if h == "kappa" else k)}[u]
    fixed = None
    if c["fixed"]:
        i = r.permutation(n)[: max(1, n // 6)]
        fixed = np.c_[i, r.integers(0, k, len(i))]
    cls = GaussianMixtureWithNonlinearRelationshipsWithPrior if nl else GaussianMixtureWithPrior
    g = cls(
        ref, max_iter=c["iters"], tol=0.0, n_init=1, random_state=0, reg_covar=1e-3, means_init=mu.copy(), weights_init=w.copy(),
        precisions_init=prec_init(cov, ct), update_covariances=c["upcov"], fixed_membership=fixed, **hyper,
    )
    before = [ref.means_.copy(), ref.covariances_.copy(), ref.weights_.copy()]
    g.fit(X)
    what = f"mixture of {k} units with priors, {ct}{', polynomial' if nl else ''}, {c['iters']} iterations"
    for a, b in zip([ref.means_, ref.covariances_, ref.weights_], before):
        close(a, b, what + ": the reference mixture has changed")
    ka, nu, ze = hyper["kappa"] * np.ones((k, d)), hyper["nu"] * np.ones(k), hyper["zeta"] * np.ones(k)
    W, M, S = w.copy(), mu.copy(), cov.copy()
    Y = [p(X) for p in ps] if nl else [X] * k
    for _ in range(c["iters"]):
        F = as_full(S, ct, k, d)
        L = []
        for i in range(k):
            D = Y[i] - M[i]
            L.append(np.log(W[i]) - 0.5 * np.einsum("ij,jk,ik->i", D, np.linalg.inv(F[i]), D) - 0.5 * np.linalg.slogdet(F[i])[1])
        R = np.exp(L - logsumexp(L, axis=0)).T
        if fixed is not None:
            R[fixed[:, 0]] = 0.0
            R[fixed[:, 0], fixed[:, 1]] = 1.0
        W, M, S = moments(Y, R, v, ct, 1e-3)
        # unambiguous: each unit is nearest to its own reference, by far
        F = as_full(S, ct, k, d)
        dist = np.array([[(mu[j] - M[i]) @ np.linalg.solve(F[i], mu[j] - M[i]) for j in range(k)] for i in range(k)])
        if k > 1 and any(np.delete(dist[i], i).min() < dist[i, i] + 4 for i in range(k)):
            return ["trivial"]
        if ct != "tied":
            a = (W / (W + w * nu)).reshape((k,) + (1,) * (np.ndim(S) - 1))
            if c["upcov"]:
                S = a * S + (1 - a) * cov
            else:
                inv = np.linalg.inv if ct == "full" else (lambda x: 1 / x)
                S = inv(a * inv(S) + (1 - a) * inv(cov))
        else:
            a = 1 / (1 + (w * nu).sum())
            if c["upcov"]:
                S = a * S + (1 - a) * cov
            else:
                S = np.linalg.inv(a * np.linalg.inv(S) + (1 - a) * np.linalg.inv(cov))
        b = W[:, None] / (W[:, None] + w[:, None] * ka)
        M = b * M + (1 - b) * mu
        W = (W + ze * w) / (1 + (ze * w).sum())
        if np.min(W) < 1e-3:
            return ["trivial"]
    close(g.means_, M, what + ": means", 1e-6)
    close(g.covariances_, S, what + ": covariances", 1e-5)
    close(g.weights_, W, what + ": weights", 1e-6)
    close(np.r_[g.weights_.sum()], np.r_[1.0], what + ": sum of the weights", 1e-9)
    return [ct, "nl" if nl else "linear"] + (["fixed"] if c["fixed"] else []) + ([] if k > 1 else ["trivial"])


def check_directive(c):
    """PGI_UpdateParameters: after each iteration the reference model holds the means of the units of the model"""
    r = gen.rng(c)
    q = Reference({**c, "nonlinear": False, "maps": ["identity"] * 3}, r)
    n, d = q.n, q.d
    nP = n * d
    nd = max(3, nP // 2)
    G = r.standard_normal((nd, nP))
    survey = BaseSurvey([BaseSrc([BaseRx(np.arange(nd, dtype=float)[:, None])])])
    sim = simulation.LinearSimulation(G=G, model_map=maps.IdentityMap(nP=nP), survey=survey)
    mtrue = r.normal(0, 2, nP)
    data = data_module.Data(survey, dobs=G @ mtrue, standard_deviation=0.1 * np.ones(nd))
    dm = data_misfit.L2DataMisfit(data=data, simulation=sim)
    reg = regularization.PGI(q.rmesh, q.gmm, wiresmap=q.wires, maplist=q.maplist)
    opt = optimization.ProjectedGNCG(maxIter=c["its"], tolX=1e-12, tolF=1e-12, tolG=1e-12)
    opt.remember("xc")
    prob = inverse_problem.BaseInvProblem(dm, reg, opt, beta=1.0)
    fixed = None
    if c["fixed"]:
        i = r.permutation(n)[: max(1, n // 4)]
        fixed = np.c_[i, r.integers(0, q.k, len(i))]
    log = []
    small = reg.objfcts[0]

    class Watch(directives.InversionDirective):
        def endIter(self):
            m = self.invProb.model
            g = small.gmm
            H = q.hessian(g, q.approx(g, np.asarray(small.reference_model), volumes(q), m)[1], volumes(q), m)
            x = np.cos(np.arange(nP))
            log.append((m.copy(), np.asarray(small.reference_model).copy(), g.means_.copy(), np.asarray(g.predict(q.props(m))), small.deriv2(m, x), H @ x))

    # without updates of the mixture: it is the reference mixture
    up = directives.PGI_UpdateParameters(update_gmm=False, fixed_membership=fixed, update_rate=c["rate"])
    inversion.BaseInversion(prob, directiveList=[up, Watch()]).run(np.zeros(nP))
    what = f"PGI_UpdateParameters {q.ct} every {c['rate']} iterations"
    require(len(log) > 0, what + ": no iteration")
    for it, (m, mref, mu, z, Hv, want) in enumerate(log, 1):
        close(np.asarray(Hv).ravel(), want, f"{what}: second derivative at iteration {it}", 1e-9)
        if it % c["rate"]:
            continue
        z2, gap = q.membership(reg.gmmref, m)
        z = np.asarray(z).copy()
        require(np.array_equal(z[gap > 1e-6], z2[gap > 1e-6]), f"{what}: membership at iteration {it}")
        if fixed is not None:
            z[fixed[:, 0]] = fixed[:, 1]
        close(mref, mu[z].T.ravel(), f"{what}: reference model at iteration {it}")
        close(mu, reg.gmmref.means_, f"{what}: mixture at iteration {it}")
    return [q.ct, "fixed" if c["fixed"] else "free"] + ([] if q.k > 1 else ["trivial"])


base = {
    "mesh": mesh_st,
    "cov": st.sampled_from(COV),
    "d": st.integers(1, 3),
    "k": st.integers(1, 4),
    "maps": st.lists(st.sampled_from(MAPS), min_size=3, max_size=3),
    "nonlinear": st.sampled_from([False, False, False, True]),
    "seed": gen.seeds,
}
fits = {
    "k": st.integers(1, 4),
    "d": st.integers(1, 3),
    "cov": st.sampled_from(COV),
    "n": st.integers(20, 60),
    "size": st.sampled_from([1.0, 0.1, 25.0]),
    "inactive": st.booleans(),
    "iters": st.integers(1, 4),
    "seed": gen.seeds,
}
SUBS = [
    Sub(
        "smallness",
        st.fixed_dictionaries({**base, "ops": st.lists(st.sampled_from(["eval", "eval", "gmm", "mref", "weights", "remove"]), min_size=1, max_size=6).map(lambda o: o + ["eval"])}),
        check_smallness,
        quick=300,
        thorough=6000,
    ),
    Sub(
        "regularization",
        st.fixed_dictionaries(
            {
                **base,
                "weights": st.sampled_from(["none", "one", "each"]),
                "second": st.booleans(),
                "insmooth": st.booleans(),
                "alpha2": st.booleans(),
                "ref": st.sampled_from(["vector", "vector", "float"]),
            }
        ),
        check_pgi,
        quick=150,
        thorough=3000,
    ),
    Sub("fit", st.fixed_dictionaries(fits), check_fit, quick=200, thorough=4000),
    Sub(
        "prior",
        st.fixed_dictionaries(
            {
                **fits,
                "kappa": st.sampled_from(["none", "some", "all", "each"]),
                "nu": st.sampled_from(["none", "some", "all", "each"]),
                "zeta": st.sampled_from(["none", "some", "all", "each"]),
                "upcov": st.booleans(),
                "fixed": st.booleans(),
                "nonlinear": st.booleans(),
            }
        ),
        check_prior,
        quick=300,
        thorough=6000,
    ),
    Sub(
        "update",
        st.fixed_dictionaries({**base, "its": st.integers(2, 5), "rate": st.sampled_from([1, 1, 2]), "fixed": st.booleans()}),
        check_directive,
        quick=25,
        thorough=1000,
    ),
]
