"""The sensitivity oracle: Jvec / Jtvec / getJ / getJtJdiag against dpred."""

import numpy as np
import scipy.sparse as sp

from .oracle import (
    check_adjoint,
    check_directional,
    check_no_mutation,
    close,
    fail,
    nrm,
    require,
)


def rx_blocks(survey):
    """one index block per (source, receiver)"""
    out, i = [], 0
    for src in survey.source_list:
        for rx in src.receiver_list:
            n = int(rx.nD)
            if n:
                out.append(np.arange(i, i + n))
            i += n
    return out, i


def judge(
    make,
    m,
    v,
    r,
    what,
    h=1e-2,
    rtol=1e-5,
    adj_rtol=1e-8,
    blocks=None,
    J=None,
    JtJ=False,
    fields_arg=True,
    order=0,
    rep_rtol=1e-9,
    fd=True,
    max_blocks=6,
    floor=None,
    flip=None,
):
    """make() -> a fresh simulation.  Returns labels."""
    sim = make()
    ref = make()
    mc, vc = m.copy(), v.copy()
    d0 = np.array(ref.dpred(m), copy=True)
    check_no_mutation(mc, m, what + ": dpred(m)")
    nD = d0.size
    require(d0.ndim == 1, f"{what}: dpred has shape {d0.shape}")
    require(np.all(np.isfinite(d0)), f"{what}: predicted data are not finite")
    w = r.standard_normal(nD)
    wc = w.copy()
    if blocks is None:
        blocks, n = rx_blocks(sim.survey)
        require(n == nD, f"{what}: survey has {n} data, dpred returned {nD}")
    # the calls on `sim` come in several orders: no order may change the answer
    if order == 1:
        sim.dpred(m)
    elif order == 2:
        sim.Jtvec(m, w)
    elif order == 3:
        m_other = m + 0.3 * v
        sim.dpred(m_other)
        sim.Jvec(m_other, v)
    Jv = np.array(sim.Jvec(m, v), copy=True)
    check_no_mutation(vc, v, what + ": Jvec(m, v)")
    require(Jv.shape == (nD,), f"{what}: Jvec has shape {Jv.shape}, dpred {d0.shape}")
    ok = 1
    comp = None
    if flip is not None:
        # the same receivers measuring the other component (real <-> imaginary):
        # rounding errors of a component are relative to the complex amplitude
        sf = flip()
        dF, JF = np.asarray(sf.dpred(m)), np.asarray(sf.Jvec(m, v))
        comp = [nrm(JF[b]) for b in blocks]
        floor = np.array([1e-10 * np.hypot(nrm(d0[b]), nrm(dF[b])) / h + 1e-7 * nrm(JF[b]) for b in blocks])
    if fd:
        ok = check_directional(
            lambda x: ref.dpred(x), Jv, m, v, h, what + " Jvec", blocks=blocks, rtol=rtol, floor=floor
        )
    # weigh the data so that each receiver counts in the adjoint test
    sc = np.ones(nD)
    for i, b in enumerate(blocks):
        s = nrm(Jv[b]) if comp is None else np.hypot(nrm(Jv[b]), comp[i])
        if s > 0:
            sc[b] = 1.0 / s
    big = 1.0 / max(1e-300, np.max(sc))
    ws = w * sc * big
    bl = blocks
    amp = None
    if comp is not None:
        amp = np.zeros(nD)
        for i, b in enumerate(blocks):
            amp[b] = np.hypot(nrm(Jv[b]), comp[i]) / np.sqrt(b.size)
    if len(bl) > max_blocks:
        pick = sorted(r.choice(len(bl), max_blocks, replace=False))
        bl = [bl[i] for i in pick]
    check_adjoint(
        lambda x: Jv, lambda x: sim.Jtvec(m, x), v, ws, what + " adjoint", adj_rtol, blocks=bl, amp=amp
    )
    sim.Jtvec(m, w)
    check_no_mutation(wc, w, what + ": Jtvec(m, w)")
    check_no_mutation(mc, m, what + ": Jtvec(m, w)")
    # linear in v
    v2 = r.standard_normal(m.size) * np.abs(v).mean()
    J2 = np.asarray(sim.Jvec(m, v2))
    close(
        np.asarray(sim.Jvec(m, 2.0 * v - 3.0 * v2)),
        2.0 * Jv - 3.0 * J2,
        what + ": Jvec is not linear in v",
        max(1e-8, 100 * adj_rtol),
        scale=2 * np.hypot(nrm(Jv), nrm(comp or 0)) + 3 * nrm(J2),
    )
    if fields_arg:
        s3 = make()
        f = s3.fields(m)
        close(np.asarray(s3.dpred(m, f=f)), d0, what + ": dpred(m, f) != dpred(m)", rep_rtol)
        close(np.asarray(s3.Jvec(m, v, f=f)), Jv, what + ": Jvec(m, v, f) != Jvec(m, v)", rep_rtol)
        close(
            np.asarray(s3.Jtvec(m, w, f=f)),
            np.asarray(sim.Jtvec(m, w)),
            what + ": Jtvec(m, w, f) != Jtvec(m, w)",
            rep_rtol,
        )
    if J:
        s4 = make()
        Jm = J(s4, m)
        if sp.issparse(Jm):
            Jm = Jm.toarray()
        Jm = np.asarray(Jm)
        require(Jm.shape == (nD, m.size), f"{what}: J has shape {Jm.shape}, expected {(nD, m.size)}")
        for i, b in enumerate(blocks):
            at = 1e-9 * nrm(Jm[b]) * nrm(v) + (1e-7 * comp[i] if comp else 0.0)
            close(Jm[b] @ v, Jv[b], what + ": J @ v != Jvec(v)", 1e-7, atol=at)
        close(Jm.T @ w, np.asarray(sim.Jtvec(m, w)), what + ": J.T @ w != Jtvec(w)", 1e-7)
        if JtJ:
            W1 = sp.diags(0.5 + r.random(nD))
            W2 = sp.diags(0.5 + r.random(nD))
            for W in (None, W1, W2):
                wd = np.ones(nD) if W is None else W.diagonal()
                got = np.asarray(s4.getJtJdiag(m, W=W))
                close(
                    got,
                    ((wd[:, None] * Jm) ** 2).sum(axis=0),
                    what + ": getJtJdiag is not the diagonal of J^T W^T W J",
                    1e-7,
                )
    # nothing above changed what the simulation answers
    close(np.asarray(sim.dpred(m)), d0, what + ": dpred changed after sensitivity calls", rep_rtol)
    labels = []
    if nrm(Jv) == 0 or ok == 0:
        labels.append("trivial")
    return labels
