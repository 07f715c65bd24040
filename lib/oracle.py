"""Oracles shared by the checks."""

from __future__ import annotations

import numpy as np

from .pbt import Violation


def fail(msg, *args):
    raise Violation(msg % args if args else msg)


def require(cond, msg, *args):
    if not bool(cond):
        fail(msg, *args)


def nrm(x):
    x = np.asarray(x)
    return float(np.linalg.norm(x.ravel())) if x.size else 0.0


def close(a, b, what, rtol=1e-9, atol=0.0, scale=None):
    """norm-wise agreement; shapes must agree too."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        fail(f"{what}: shapes differ {a.shape} vs {b.shape}")
    if a.size == 0:
        return
    if not np.all(np.isfinite(a) == np.isfinite(b)):
        fail(f"{what}: non finite entries differ")
    m = np.isfinite(b)
    s = max(nrm(a[m]), nrm(b[m])) if scale is None else scale
    e = nrm((a - b)[m])
    if e > rtol * s + atol:
        i = int(np.argmax(np.abs(np.where(m, a - b, 0)).ravel()))
        fail(
            f"{what}: |difference| {e:.3e} > {rtol:.1e} * {s:.3e}; worst entry {i}: "
            f"{a.ravel()[i]!r} vs {b.ravel()[i]!r}"
        )


def close_each(a, b, what, rtol=1e-9, atol=0.0):
    """entry-wise agreement."""
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        fail(f"{what}: shapes differ {a.shape} vs {b.shape}")
    if a.size == 0:
        return
    bad = ~(np.abs(a - b) <= rtol * np.maximum(np.abs(a), np.abs(b)) + atol)
    bad &= ~((a == b) | (np.isnan(a) & np.isnan(b)))
    if bad.any():
        i = int(np.flatnonzero(bad.ravel())[0])
        fail(
            f"{what}: {int(bad.sum())} of {a.size} entries differ; entry {i}: "
            f"{a.ravel()[i]!r} vs {b.ravel()[i]!r} (rtol {rtol:.1e})"
        )


def blocks_of(n, blocks=None):
    return [np.arange(n)] if blocks is None else [np.asarray(b) for b in blocks]


def directional_derivative(fun, m, v, h, levels=3):
    """Central differences at h, h/2, h/4... with Richardson extrapolation.

    Returns (estimate, uncertainty) arrays: the uncertainty is the difference of
    the two last extrapolations, an honest measure of truncation + round-off.
    """
    D = []
    for k in range(levels):
        hk = h / 2**k
        D.append((np.asarray(fun(m + hk * v)) - np.asarray(fun(m - hk * v))) / (2 * hk))
    R = [(4 * D[i + 1] - D[i]) / 3 for i in range(levels - 1)]
    return R[-1], np.abs(R[-1] - R[-2])


def check_directional(
    fun, Jv, m, v, h, what, blocks=None, rtol=1e-6, floor=None, max_rel_unc=2e-2
):
    """Is Jv the directional derivative of ``fun`` at m along v?

    Compared block by block (one block per receiver, so that a small-amplitude
    receiver cannot hide behind a large one).  The tolerance of a block is
    10 x (measured uncertainty) + rtol x scale; blocks whose measured
    uncertainty exceeds ``max_rel_unc`` x scale are inconclusive and skipped.
    Returns the number of conclusive blocks.
    """
    fd, unc = directional_derivative(fun, m, v, h)
    Jv = np.asarray(Jv)
    if Jv.shape != fd.shape:
        fail(f"{what}: derivative product has shape {Jv.shape}, data {fd.shape}")
    if not np.all(np.isfinite(Jv)):
        if np.all(np.isfinite(fd)):
            fail(f"{what}: derivative product is not finite")
        return 0
    ok = 0
    f0 = np.asarray(fun(m)) if floor is None else None
    fine = None
    for ib, b in enumerate(blocks_of(fd.size, blocks)):
        a, d, u = Jv.ravel()[b], fd.ravel()[b], unc.ravel()[b]
        s = max(nrm(a), nrm(d))
        fl = (
            1e-11 * nrm(np.ravel(f0)[b]) / max(h, 1e-300)
            if floor is None
            else (floor if np.ndim(floor) == 0 else floor[ib])
        )
        un = nrm(u) + fl
        if s == 0.0:
            continue
        if nrm(u) > max_rel_unc * nrm(d):
            # strongly non-linear within the step: look closer before judging
            if fine is None:
                fine = directional_derivative(fun, m, v, h / 16)
            d, u = fine[0].ravel()[b], fine[1].ravel()[b]
            s = max(nrm(a), nrm(d))
            un = nrm(u) + 16 * fl
            if nrm(u) > max_rel_unc * nrm(d) and nrm(d) > 0:
                if nrm(a - d) > 1e3 * un + 0.3 * s:
                    fail(f"{what}: |Jv - FD| {nrm(a-d):.3e}, |FD| {nrm(d):.3e}, unc {un:.1e}")
                continue
        if un > max_rel_unc * s:
            # cannot resolve relative to this block; still catch gross errors
            if nrm(a - d) > 30 * un + 0.3 * s and nrm(a - d) > 1e3 * un:
                fail(f"{what}: |Jv - FD| {nrm(a-d):.3e}, |FD| {nrm(d):.3e}, unc {un:.1e}")
            continue
        e = nrm(a - d)
        if e > 10 * un + rtol * s:
            i = int(np.argmax(np.abs(a - d)))
            fail(
                f"{what}: derivative product differs from the finite difference: "
                f"|Jv-FD|={e:.3e} |FD|={nrm(d):.3e} |Jv|={nrm(a):.3e} "
                f"uncertainty={un:.1e} (e.g. {a[i]:.8g} vs {d[i]:.8g})"
            )
        ok += 1
    return ok


def check_adjoint(Jvec, Jtvec, v, w, what, rtol=1e-8, blocks=None, amp=None):
    """w.(J v) == v.(J^T w), for the whole w and for every single block of it."""
    Jv = np.asarray(Jvec(v))
    if Jv.shape != np.asarray(w).shape:
        fail(f"{what}: Jvec has shape {Jv.shape}, expected {np.asarray(w).shape}")
    sel = [np.arange(Jv.size)]
    if blocks is not None and len(blocks) > 1:
        sel += [np.asarray(b) for b in blocks]
    for b in sel:
        wb = np.zeros_like(w)
        wb[b] = w[b]
        # scale so that blocks of very different amplitude are comparable
        Jtw = np.asarray(Jtvec(wb))
        if Jtw.shape != np.asarray(v).shape:
            fail(f"{what}: Jtvec has shape {Jtw.shape}, expected {np.asarray(v).shape}")
        # no conjugation: in SimPEG J^T is the plain transpose (real models)
        lhs = np.sum(wb * Jv)
        rhs = np.sum(Jtw * v)
        s = nrm(wb) * (nrm(Jv[b]) if amp is None else nrm(amp[b])) + nrm(Jtw) * nrm(v)
        if not (np.isfinite(lhs) and np.isfinite(rhs)):
            fail(f"{what}: adjoint products are not finite")
        if abs(lhs - rhs) > rtol * s:
            fail(
                f"{what}: w.Jv = {lhs!r} but v.JTw = {rhs!r} "
                f"(|diff|/scale {abs(lhs-rhs)/max(s,1e-300):.2e})"
            )


def check_no_mutation(before, after, what):
    if not (
        before.shape == after.shape
        and np.array_equal(before, after, equal_nan=before.dtype.kind in "fc")
    ):
        fail(f"{what}: an input array was modified in place")
