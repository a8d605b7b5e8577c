"""Scale restoration: projection back and minimal distortion principle."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.harness import Skip, Violation, facet
from pbt.props.c13 import NFILT
from ssspy.algorithm import minimal_distortion_principle, projection_back

P = "C14"
PB = ["projection_back", "projection-back", "PB"]
MDP = ["minimal_distortion_principle", "minimal-distortion-principle", "MDP"]


def fn_cases():
    d = gen.base_case(N=(1, 5), I=(1, 5), J=(12, 40))
    d.update({"M_extra": st.integers(0, 2), "ref": st.integers(-2, 6), "every": st.booleans(), "lead": st.lists(st.integers(1, 3), max_size=3),
              "gain": st.sampled_from([1.0, 1e-4, 1e4]), "default_ref": st.booleans(), "rows": st.sampled_from([0, 0, 0, 6])})
    return st.fixed_dictionaries(d)


def gains(rng, *shape):
    return np.exp(rng.uniform(-2, 2, shape) + 2j * np.pi * rng.random(shape))


def estimates(case, M_):
    """Mixture X (M, I, J) and separated signals Y (N, I, J) unrelated enough to be informative."""
    rng = gen.rng_of(case, 2)
    N, I, J = case["N"], case["I"], case["J"]
    X = gen.mixture(case, n_channels=M_)
    W = gen.well_conditioned(rng, (I,), N, M_)
    Y = refs.apply_w(W, X) * case["gain"]
    Y = Y + 0.1 * np.std(Y) * gen.cnormal(rng, N, I, J)
    return X, Y, rng


def check_same(keep, now, what):
    if not np.array_equal(keep, now):
        raise Violation("%s was modified" % what)


@facet(P, "projection_back_signals", fn_cases, quick=1500, thorough=20000,
       rule="spectrograms of any number of channels, one reference or all of them; equality with per-bin least squares of the reference "
            "channel on the sources, invariance to per-source, per-bin gains of the estimates; all evaluated")
def projection_back_signals(case):
    Mch = case["N"] + case["M_extra"]
    X, Y, rng = estimates(case, Mch)
    kx, ky = X.copy(), Y.copy()
    refsl = list(range(Mch)) if case["every"] else [case["ref"] % Mch]
    if case["every"]:
        out = projection_back(Y, reference=X, reference_id=None)
        if out.shape != (Mch,) + Y.shape:
            raise Violation("shape %s for reference_id=None" % (out.shape,))
    elif case["default_ref"]:
        out, refsl = projection_back(Y, reference=X)[None], [0]
    else:
        r = refsl[0]
        r = r - Mch if case["ref"] < 0 else r  # negative indices count from the end
        out = projection_back(Y, reference=X, reference_id=r)[None]
    check_same(kx, X, "reference")
    check_same(ky, Y, "estimate")
    for o, r in zip(out, refsl):
        d = refs.projection_back_scale(Y, X, r)
        if not gen.rel_err(o, d[:, :, None] * Y) < 1e-7:
            raise Violation("projection back to channel %d is not the least-squares solution (%.3g)" % (r, gen.rel_err(o, d[:, :, None] * Y)))
        res = X[r] - o.sum(axis=0)
        c = np.abs(np.einsum("ij,nij->ni", res, np.conj(Y)))
        s = np.sqrt(np.einsum("ij,ij->i", np.abs(X[r]) ** 2, np.ones_like(X[r], dtype=float)) * np.sum(np.abs(Y) ** 2, axis=2))
        if not np.all(c <= 1e-7 * s):
            raise Violation("the residual of the reference is not orthogonal to the sources")
    Y2 = Y * gains(rng, Y.shape[0], Y.shape[1], 1)
    o2 = projection_back(Y2, reference=X, reference_id=None if case["every"] else refsl[0])
    o2 = o2 if case["every"] else o2[None]
    if not gen.rel_err(o2, out) < 1e-7:
        raise Violation("the result depends on the gains of the estimates")
    return ["every reference" if case["every"] else "one reference", "M>N" if case["M_extra"] else "M=N", "N=%d" % case["N"]]


@facet(P, "projection_back_filters", fn_cases, quick=1500, thorough=20000,
       rule="square filters with any leading axes; scaled rows are multiples of the given rows and sum to the selector of the reference "
            "channel; agrees with the spectrogram form; all evaluated")
def projection_back_filters(case):
    rng = gen.rng_of(case, 3)
    N = case["N"]
    lead = tuple(case["lead"])
    W = gen.well_conditioned(rng, lead, N) * case["gain"]
    if case["seed"] % 3 == 0:
        W = W.real + 0.5 * np.eye(N) * case["gain"]
        if not np.all(np.linalg.cond(W) < 1e6):
            raise Skip
    if case.get("rows", 0):
        # rows of very different levels (no bearing on the result)
        W = W * 10.0 ** rng.uniform(-case["rows"], case["rows"], lead + (N, 1))
    keep = W.copy()
    refsl = list(range(N)) if case["every"] else [case["ref"] % N]
    if case["every"]:
        out = projection_back(W, reference_id=None)
        if out.shape != (N,) + W.shape:
            raise Violation("shape %s for reference_id=None" % (out.shape,))
    elif case["default_ref"]:
        out, refsl = projection_back(W)[None], [0]
    else:
        out = projection_back(W, reference_id=refsl[0] - N if case["ref"] < 0 else refsl[0])[None]
    check_same(keep, W, "filter")
    for o, r in zip(out, refsl):
        A = np.linalg.inv(W)
        want = A[..., r, :, None] * W
        if o.shape != W.shape or not gen.rel_err(o, want) < 1e-7:
            raise Violation("projection back of filters to channel %d is wrong" % r)
        e = np.zeros(N)
        e[r] = 1
        if not np.max(np.abs(o.sum(axis=-2) - e)) < 1e-6:
            raise Violation("scaled filters do not sum to the reference channel %d" % r)
    D = gains(rng, *lead, N, 1) if np.iscomplexobj(W) else rng.uniform(0.5, 2, (*lead, N, 1))
    o2 = projection_back(D * W, reference_id=None if case["every"] else refsl[0])
    o2 = o2 if case["every"] else o2[None]
    if not gen.rel_err(o2, out) < 1e-7:
        raise Violation("the result depends on the gains of the filters")
    if len(lead) == 1 and np.iscomplexobj(W):
        X = gen.cnormal(rng, N, lead[0], 30)
        Y = refs.apply_w(W, X)
        s = projection_back(Y, reference=X, reference_id=refsl[0])
        if not gen.rel_err(s, refs.apply_w(out[0], X)) < 1e-6:
            raise Violation("filters and spectrograms are scaled differently")
    return ["leading axes=%d" % len(lead), "every reference" if case["every"] else "one reference"]


@facet(P, "minimal_distortion", fn_cases, quick=1500, thorough=20000,
       rule="spectrograms, one reference or all; each source is scaled by its own least-squares factor to the reference channel, "
            "gain invariance and idempotence; all evaluated")
def minimal_distortion(case):
    Mch = case["N"] + case["M_extra"]
    X, Y, rng = estimates(case, Mch)
    kx, ky = X.copy(), Y.copy()
    refsl = list(range(Mch)) if case["every"] else [case["ref"] % Mch]
    if case["every"]:
        out = minimal_distortion_principle(Y, reference=X, reference_id=None)
        if out.shape != (Mch,) + Y.shape:
            raise Violation("shape %s for reference_id=None" % (out.shape,))
    elif case["default_ref"]:
        out, refsl = minimal_distortion_principle(Y, reference=X)[None], [0]
    else:
        out = minimal_distortion_principle(Y, reference=X, reference_id=refsl[0] - Mch if case["ref"] < 0 else refsl[0])[None]
    check_same(kx, X, "reference")
    check_same(ky, Y, "estimate")
    for o, r in zip(out, refsl):
        want = refs.mdp_scale(Y, X, r)[:, :, None] * Y
        if not gen.rel_err(o, want) < 1e-8:
            raise Violation("scaling is not the minimal distortion one for channel %d (%.3g)" % (r, gen.rel_err(o, want)))
        again = minimal_distortion_principle(o, reference=X, reference_id=r)
        if not gen.rel_err(again, o) < 1e-7:
            raise Violation("scaling twice differs from scaling once")
    Y2 = Y * gains(rng, Y.shape[0], Y.shape[1], 1)
    o2 = minimal_distortion_principle(Y2, reference=X, reference_id=None if case["every"] else refsl[0])
    o2 = o2 if case["every"] else o2[None]
    if not gen.rel_err(o2, out) < 1e-8:
        raise Violation("the result depends on the gains of the estimates")
    return ["every reference" if case["every"] else "one reference", "N=%d" % case["N"]]


def run_cases():
    return M.case_for(M.DETERMINED + M.PROXFAM, N=(2, 3), I=(2, 5), J=(25, 45), short=2, level=True, n_iter=gen.iters(0, 4), ref=st.integers(-2, 2),
                      mode=st.sampled_from([True, "default"] + PB + MDP + MDP), align=st.booleans(), given=st.booleans())


@facet(P, "methods", run_cases, quick=2500, thorough=40000, shards=4,
       rule="every class and every keyword; output and filter equal the reference scaling of the run without restoration, the iterations "
            "themselves are unaffected; runs whose filters become near singular are skipped")
def methods(case):
    cfg = case["cfg"]
    X = M.mixture_for(case)
    N, I, J = X.shape
    n_iter = 2 if cfg["cls"] in NFILT and case["n_iter"] == 1 else case["n_iter"]
    ref = case["ref"] % N
    base = {}
    if "FDICA" in cfg["cls"]:
        base["permutation_alignment"] = case["align"]
    init = {}
    if case["given"]:
        rng = gen.rng_of(case, 4)
        init["demix_filter"] = gen.unitary(rng, I, N) if cfg["cls"] in M.WHITE else gen.demix_init(case, I, N)
    if case["ref"] != 0:  # also used by normalisation inside ILRMA
        base["reference_id"] = case["ref"] if case["ref"] < 0 and -case["ref"] <= N else ref
    t0, t1 = M.Trace(["demix_filter", "output"]), M.Trace(["demix_filter", "output"])
    m0 = M.build(cfg, case["seed"] % 1000, scale_restoration=False, callbacks=t0, **base)
    Y = m0(X, n_iter=n_iter, **init)
    kw = dict(base)
    mode = case["mode"]
    if mode == "default":
        mode = True  # documented default: restoration by projection back
    else:
        kw["scale_restoration"] = mode
    m1 = M.build(cfg, case["seed"] % 1000, callbacks=t1, **kw)
    out = m1(X, n_iter=n_iter, **init)
    if not all(np.linalg.cond(w) < 1e6 for w in refs.fit_w(Y, X)):
        raise Skip
    if mode is True or mode in PB:
        d = refs.projection_back_scale(Y, X, ref)
    else:
        d = refs.mdp_scale(Y, X, ref)
    want = d[:, :, None] * Y
    if not gen.rel_err(out, want) < 1e-6:
        raise Violation("restored output differs from the %s scaling of the unrestored one by %.3g" % (mode, gen.rel_err(out, want)))
    if mode is True or mode in PB:
        if not gen.rel_err(out.sum(axis=0), X[ref]) < 1e-6:
            raise Violation("restored sources do not sum to the reference channel")
    if M.has_filter(cfg):
        W = d.T[:, :, None] * m0.demix_filter
        if not gen.rel_err(m1.demix_filter, W) < 1e-6:
            raise Violation("the restored filter does not match the restored output")
    if len(t0.states) != len(t1.states):
        raise Violation("restoration changes the number of iterations")
    for a, b in zip(t0.states, t1.states):
        for k in a:
            if isinstance(a[k], np.ndarray) and not gen.rel_err(b[k], a[k]) < 1e-9:
                raise Violation("scale restoration interferes with the iterations (%s)" % k)
    if not (m0.loss == m1.loss or np.allclose(m0.loss, m1.loss, rtol=1e-9, atol=1e-9)):
        raise Violation("scale restoration changes the recorded losses")
    return [cfg["cls"], "mode=%s" % case["mode"]]


def bad_cases():
    return M.case_for(M.DETERMINED + M.PROXFAM, N=(2, 2), I=(2, 3), J=(20, 20), bad=st.sampled_from(["pb", "mdp2", "back", "none_ref"]))


@facet(P, "rejections", bad_cases, quick=200, thorough=1000,
       rule="an unknown keyword or a missing reference is refused with ValueError, never silently ignored; all evaluated")
def rejections(case):
    X = M.mixture_for(case)
    try:
        if case["bad"] == "none_ref":
            m = M.build(case["cfg"], 1, reference_id=None)
        else:
            m = M.build(case["cfg"], 1, scale_restoration=case["bad"])
        m(X, n_iter=0)
    except ValueError:
        return [case["cfg"]["cls"], case["bad"]]
    raise Violation("scale_restoration/reference_id %r was accepted" % case["bad"])
