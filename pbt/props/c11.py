"""Fixed-point methods on whitened data: FastICA, FastIVA, FasterIVA."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.gen import H
from pbt.harness import Violation, facet
from ssspy.bss import ica

P = "C11"


def polar(W):
    u, _, vh = np.linalg.svd(W)
    return u @ vh


def fast_step(cfg, W, Z):
    """One step of FastIVA / FasterIVA on whitened data Z (N, I, J)."""
    _, dg, ddg = M.G[cfg["contrast"]]
    Y = refs.apply_w(W, Z)
    N, I, J = Y.shape
    r = np.linalg.norm(Y, axis=1)
    new = np.zeros_like(W)
    for i in range(I):
        for n in range(N):
            z, y, rn = Z[:, i], Y[n, i], r[n]
            f = dg(rn) / (2 * rn)
            if cfg["cls"] == "FastIVA":
                w = np.conj(W[i, n])
                h = np.abs(y) ** 2 / (4 * rn**2) * (dg(rn) / rn - ddg(rn))
                v = np.mean(f) * w - (z * (f * np.conj(y))).mean(axis=1) - np.mean(h) * w
            else:
                lam, V = np.linalg.eigh(refs.wcov_fast(z, f))
                if lam[1] - lam[0] < 1e-6 * lam[1]:
                    return None
                v = V[:, 0]
            new[i, n] = np.conj(v)
    if np.max(np.linalg.cond(new)) > 1e4:
        return None
    return polar(new)


def cases():
    return M.case_for(["FastIVA", "FasterIVA"], N=(2, 4), I=(1, 4), J=(20, 40), short=2, level=True, n_iter=gen.iters(1, 4),
                      init=st.booleans())


@facet(P, "iva", cases, quick=1500, thorough=25000, shards=3,
       rule="random mixtures, unitary initial filters, contrasts; each iteration recomputed from the previous "
            "public filter and independently whitened data; orthonormality and decorrelation of the outputs")
def iva(case):
    cfg = case["cfg"]
    X = gen.mixture(case)
    N, I, J = X.shape
    tr = M.Trace()
    m = M.build(cfg, callbacks=tr, scale_restoration=False)
    W0 = np.tile(np.eye(N, dtype=complex), (I, 1, 1))
    call = {}
    if case["init"]:
        W0 = gen.unitary(gen.rng_of(case, 9), I, N)
        call["demix_filter"] = W0.copy()
    out = m(X, n_iter=case["n_iter"], **call)
    S = tr.states
    if len(S) != case["n_iter"] + 1 or len(m.loss) != case["n_iter"] + 1:
        raise Violation("%d callbacks, %d losses for %d iterations" % (len(S), len(m.loss), case["n_iter"]))
    Z = m.whitened_input
    C = np.einsum("mij,nij->imn", Z, np.conj(Z)) / J
    if not np.max(np.abs(C - np.eye(N))) < 1e-8:
        raise Violation("whitened input is not white")
    for i in range(I):
        B = np.linalg.lstsq(X[:, i].T, Z[:, i].T, rcond=None)[0]
        if not gen.rel_err(X[:, i].T @ B, Z[:, i].T) < 1e-8:
            raise Violation("whitened input is not a linear function of the input")
    g = M.G[cfg["contrast"]][0]
    tags = []
    for k, s in enumerate(S):
        W = s["demix_filter"]
        if k and not np.max(np.abs(W @ H(W) - np.eye(N))) < 1e-8:
            raise Violation("filter for whitened input is not unitary after iteration %d" % k)
        Y = refs.apply_w(W, Z)
        L = np.sum(np.mean(g(np.linalg.norm(Y, axis=1)), axis=1))
        if not abs(L - m.loss[k]) < 1e-9 * max(1, abs(L)):
            raise Violation("loss %g recorded at step %d, objective is %g" % (m.loss[k], k, L))
        if k == 0:
            if not gen.rel_err(W, W0) < 1e-12:
                raise Violation("initial filter is not the given one")
            continue
        ref = refs.stable(lambda w: fast_step(cfg, w, Z), S[k - 1]["demix_filter"], cfg["cls"] == "FasterIVA")
        if ref is None:
            tags.append("ill-conditioned step not compared")
            continue
        if cfg["cls"] == "FasterIVA":
            W = refs.align_phase(W, ref)
        e = gen.rel_err(W, ref)
        if not e < 1e-6:
            raise Violation("iteration %d differs from the documented fixed-point step (%.3g)" % (k, e))
    if not gen.rel_err(out, refs.apply_w(S[-1]["demix_filter"], Z)) < 1e-10:
        raise Violation("final output differs from the filtered whitened input")
    R = np.einsum("mij,nij->imn", out, np.conj(out)) / J
    if not np.max(np.abs(R - np.eye(N))) < 1e-7:
        raise Violation("outputs are not uncorrelated with unit power")
    return tags + [cfg["cls"], cfg["contrast"], "N=%d" % N]


ICA = {
    "logcosh": (lambda y: np.logaddexp(y, -y) - np.log(2), np.tanh, lambda y: 1 - np.tanh(y) ** 2),
    "quartic": (lambda y: y**4 / 4, lambda y: y**3, lambda y: 3 * y**2),
    "gauss": (lambda y: -np.exp(-(y**2) / 2), lambda y: y * np.exp(-(y**2) / 2), lambda y: (1 - y**2) * np.exp(-(y**2) / 2)),
}


def ica_cases():
    return st.fixed_dictionaries({
        "seed": gen.SEED, "N": st.integers(2, 4), "T": st.integers(30, 80), "contrast": st.sampled_from(list(ICA)),
        "init": st.booleans(), "n_iter": gen.iters(1, 4), "record": st.booleans(),
    })


@facet(P, "ica", ica_cases, quick=800, thorough=12000, shards=1,
       rule="real time-domain mixtures, orthogonal initial filters; each deflation sweep recomputed, rows orthonormal")
def ica_facet(case):
    rng = gen.rng_of(case)
    N, T = case["N"], case["T"]
    X = (np.eye(N) + 0.3 * rng.standard_normal((N, N))) @ rng.laplace(size=(N, T))
    g, s, ds = ICA[case["contrast"]]
    tr = M.Trace()
    m = ica.FastICA(contrast_fn=g, score_fn=s, d_score_fn=ds, callbacks=tr, record_loss=case["record"])
    W0, call = np.eye(N), {}
    if case["init"]:
        W0 = np.linalg.qr(rng.standard_normal((N, N)))[0]
        call["demix_filter"] = W0.copy()
    keep = X.copy()
    out = m(X, n_iter=case["n_iter"], **call)
    if not np.array_equal(X, keep):
        raise Violation("input modified")
    if case["init"] and not np.array_equal(call["demix_filter"], W0):
        raise Violation("given initial filter modified")
    S = tr.states
    if len(S) != case["n_iter"] + 1:
        raise Violation("%d callbacks for %d iterations" % (len(S), case["n_iter"]))
    Z = m.whitened_input
    if not np.max(np.abs(Z @ Z.T / T - np.eye(N))) < 1e-8:
        raise Violation("whitened input is not white")

    def step(W):
        W = W.copy()
        for n in range(N):
            y = W[n] @ Z
            w = np.mean(ds(y)) * W[n] - (s(y) * Z).mean(axis=1)
            for q in range(n):
                w = w - (W[q] @ w) * W[q]
            W[n] = w / np.linalg.norm(w)
        return W

    tags = []
    for k, st_ in enumerate(S):
        W = st_["demix_filter"]
        if not gen.rel_err(st_["output"], W @ Z) < 1e-10:
            raise Violation("current output is not the filtered whitened input")
        if case["record"]:
            L = np.sum(np.mean(g(W @ Z), axis=1))
            if not abs(L - m.loss[k]) < 1e-9 * max(1, abs(L)):
                raise Violation("loss %g recorded at step %d, objective is %g" % (m.loss[k], k, L))
        if k == 0:
            if not gen.rel_err(W, W0) < 1e-12:
                raise Violation("initial filter is not the given one")
            continue
        ref = refs.stable(step, S[k - 1]["demix_filter"])
        if ref is None:
            tags.append("ill-conditioned step not compared")
            continue
        if not np.max(np.abs(W @ W.T - np.eye(N))) < 1e-7:
            raise Violation("rows are not orthonormal after iteration %d" % k)
        e = gen.rel_err(W, ref)
        if not e < 1e-7:
            raise Violation("iteration %d differs from the documented deflation sweep (%.3g)" % (k, e))
    if not gen.rel_err(out, S[-1]["demix_filter"] @ Z) < 1e-10:
        raise Violation("final output differs from the filtered whitened input")
    return tags + [case["contrast"], "N=%d" % N]
