"""Harmonic vector analysis: cosine-shrinkage masks."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.harness import Violation, facet
from pbt.props import c12
from ssspy.bss import hva

P = "C27"


def irdft(x, n_bins):
    """Real cepstrum-like transform over a half spectrum of n_bins real values (unnormalised cosine sum)."""
    L = 2 * (n_bins - 1)
    w = np.full(n_bins, 2.0)
    w[0] = w[-1] = 1.0
    k, q = np.arange(n_bins), np.arange(n_bins)
    C = np.cos(2 * np.pi * np.outer(q, k) / L) * w
    return np.einsum("qk,nkj->nqj", C, x), L


def mask_ref(y, gamma, iters, floor):
    N, I, J = y.shape
    z = np.log(np.maximum(np.abs(y), floor))
    mean = z.mean(axis=1, keepdims=True)
    nu, L = irdft(z - mean, I)
    nu = nu / L
    s = np.minimum(1, nu)
    for _ in range(iters):
        s = (1 - np.cos(np.pi * s)) / 2
    xi, _ = irdft(s * nu, I)
    v = 2 * (xi + mean)
    v = v - v.max(axis=0, keepdims=True)
    v = np.exp(v)
    return (v / v.sum(axis=0)) ** gamma


def cases():
    d = gen.base_case(N=(2, 4), I=(2, 9), J=(3, 12))
    d.update({
        "I": gen.mostly(2, 9, 40),
        "cls": st.sampled_from(["MaskingPDSHVA", "MaskingADMMHVA", "HVA"]), "att": st.sampled_from([None, 0.3, 1, 2, 0]),
        "iter": st.sampled_from([None, 1, 2, 3, 4, 7, 12]), "floor": st.sampled_from(["default", "big", None]), "zeros": st.booleans(),
    })
    return st.fixed_dictionaries(d)


def make(case, **kw):
    if case["att"] is not None:
        kw["attenuation"] = case["att"]
    if case["iter"] is not None:
        kw["mask_iter"] = case["iter"]
    if case["floor"] == "big":
        kw["flooring_fn"] = lambda x: np.maximum(x, 0.05)
    elif case["floor"] is None:
        kw["flooring_fn"] = None
    return getattr(hva, case["cls"])(**kw)


@facet(P, "mask", cases, quick=4000, thorough=60000, shards=4,
       rule="spectrograms incl. exact zeros (when floored), all attenuations, mask iterations, floors; mask recomputed with an "
            "explicit cosine transform; range, per-source powers, scale invariance; all evaluated")
def mask_facet(case):
    rng = gen.rng_of(case)
    N, I, J = case["N"], case["I"], case["J"]
    y = gen.sources(rng, N, I, J, case["kind"]) * case["scale"]
    if case["zeros"] and case["floor"] != None:  # noqa: E711
        y = y * (rng.random(y.shape) < 0.8)
    m = make(case)
    gamma = 1 / N if case["att"] is None else case["att"]
    keep = y.copy()
    got = m.mask_fn(y)
    if not np.array_equal(y, keep):
        raise Violation("masking modified its argument")
    if got.shape != y.shape or np.iscomplexobj(got):
        raise Violation("mask has shape %s, dtype %s" % (got.shape, got.dtype))
    if not (np.all(got >= 0) and np.all(got <= 1 + 1e-12)):
        raise Violation("mask leaves [0, 1]")
    if gamma and not np.max(np.abs(np.sum(got ** (1 / gamma), axis=0) - 1)) < 1e-8:
        raise Violation("masks do not share every time-frequency point (powers do not sum to one)")
    floor = {"default": 1e-10, "big": 0.05, None: 0}[case["floor"]]
    want = mask_ref(y, gamma, case["iter"] or 1, floor)
    if not np.max(np.abs(got - want)) < 1e-8:
        raise Violation("mask differs from the documented cosine shrinkage by %.3g" % np.max(np.abs(got - want)))
    if case["floor"] is None:
        # phases are irrelevant and a common gain cancels
        g = m.mask_fn(y * 7.5 * np.exp(2j * np.pi * rng.random(y.shape)))
        if not np.max(np.abs(g - got)) < 1e-8:
            raise Violation("mask depends on phase or on a common gain")
    p = rng.permutation(N)
    if not np.max(np.abs(m.mask_fn(y[p]) - got[p])) < 1e-10:
        raise Violation("mask is not equivariant to the order of the sources")
    return [case["cls"], "att=%s" % case["att"], "iter=%s" % case["iter"], "floor=%s" % case["floor"]]


def run_cases():
    d = gen.base_case(N=(2, 3), I=(2, 6), J=(8, 20))
    d.update({
        "cls": st.sampled_from(["MaskingPDSHVA", "MaskingADMMHVA", "HVA"]), "att": st.sampled_from([None, 0.3, 1]),
        "iter": st.sampled_from([None, 1, 2, 4]), "floor": st.just("default"), "n_iter": gen.iters(1, 4),
        "relax": st.sampled_from([1, 0.7, 1.6]), "step": st.sampled_from([1, 0.5]),
    })
    return st.fixed_dictionaries(d)


@facet(P, "iterations", run_cases, quick=800, thorough=10000, shards=2,
       rule="every iteration of the three classes equals the masking PDS/ADMM iteration with the reference mask")
def iterations(case):
    X = gen.mixture(case)
    X = X / np.max(np.linalg.norm(X.transpose(1, 0, 2), ord=2, axis=(1, 2)))
    N, I, J = X.shape
    tr = M.Trace()
    admm = case["cls"] == "MaskingADMMHVA"
    kw = {"callbacks": tr, "relaxation": case["relax"], "scale_restoration": False}
    if admm:
        kw["rho"] = case["step"]
    else:
        kw["mu1"] = case["step"]
    m = make(case, **kw)
    if m.record_loss or m.loss is not None:
        raise Violation("a loss is recorded although none is defined")
    out = m(X, n_iter=case["n_iter"])
    S = tr.states
    if len(S) != case["n_iter"] + 1:
        raise Violation("%d callbacks for %d iterations" % (len(S), case["n_iter"]))
    gamma = 1 / N if case["att"] is None else case["att"]
    f = lambda z: mask_ref(z, gamma, case["iter"] or 1, 1e-10) * z  # noqa: E731
    tags = []
    for k in range(case["n_iter"]):
        a, b = S[k], S[k + 1]
        if admm:
            s0 = (a["auxiliary1"], a["auxiliary2"][None], a["dual1"], a["dual2"][None])
            step = lambda s: c12.admm_step(*s, X, [f], case["step"], case["relax"])  # noqa: E731
            got = (b["auxiliary1"], b["auxiliary2"][None], b["dual1"], b["dual2"][None], b["demix_filter"])
        else:
            s0 = (a["demix_filter"], a["dual"][None])
            step = lambda s: c12.pds_step(s[0], s[1], X, [f], case["step"], 1, case["relax"])  # noqa: E731
            got = (b["demix_filter"], b["dual"][None])
        want = refs.stable(step, s0)
        if want is None:
            tags.append("ill-conditioned step not compared")
            continue
        for g, w in zip(got, want):
            d = np.max(np.abs(g - w)) / max(np.max(np.abs(w)), 1e-8)
            if not d < 1e-6:
                raise Violation("iteration %d differs from the documented update (%.3g)" % (k + 1, d))
    if not gen.rel_err(out, refs.apply_w(S[-1]["demix_filter"], X)) < 1e-10:
        raise Violation("final output differs from the separated input")
    return tags + [case["cls"]]
