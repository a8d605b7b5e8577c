"""Gradient methods: every iteration is the documented (natural) gradient step of the objective."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.gen import H
from pbt.harness import Skip, Violation, facet
from ssspy.bss import ica

P = "C10"


def step_matrix(W, PhiY, natural, holonomic, mu):
    """W (..., N, N)."""
    N = W.shape[-1]
    E = PhiY - np.eye(N) if holonomic else PhiY * (1 - np.eye(N))
    right = W if natural else H(np.linalg.inv(W))
    return W - mu * E @ right


def is_holonomic(cfg):
    if cfg["hol"] is not None:
        return cfg["hol"]
    return "IVA" in cfg["cls"]  # documented defaults: FDICA False, IVA True


def score_and_loss(cfg, Y, variance):
    """score Phi (N, I, J), contrast sum per frame averaged."""
    c = cfg["cls"]
    if "Gauss" in c:
        I = Y.shape[1]
        v = variance
        return Y / v[:, None, :], np.sum(np.mean(I * np.log(v) + np.sum(np.abs(Y) ** 2, axis=1) / v, axis=1))
    g, dg, _ = M.G[cfg.get("contrast", "laplace")]
    r = np.abs(Y) if "FDICA" in c else np.linalg.norm(Y, axis=1, keepdims=True)
    return dg(r) * Y / (2 * r), np.sum(np.mean(g(r), axis=-1))


def cases(fams):
    def mk():
        return M.case_for(fams, N=(2, 4), I=(1, 4), J=(20, 40), short=2, level=True, n_iter=gen.iters(1, 3), init=st.booleans(),
                          small=st.booleans())
    return mk


def run(case):
    cfg = case["cfg"]
    X = gen.mixture(case)
    N, I, J = X.shape
    tr = M.Trace()
    kw = {"callbacks": tr, "scale_restoration": False, "record_loss": True}
    if "FDICA" in cfg["cls"]:
        kw["permutation_alignment"] = False
    cfg = dict(cfg)
    if case["small"]:
        cfg["step"] = cfg["step"] * 1e-4
    m = M.build(cfg, **kw)
    call = {}
    W0 = np.tile(np.eye(N, dtype=complex), (I, 1, 1))
    if case["init"]:
        W0 = gen.demix_init(case, I, N)
        call["demix_filter"] = W0.copy()
    out = m(X, n_iter=case["n_iter"], **call)
    S = tr.states
    if len(S) != case["n_iter"] + 1 or len(m.loss) != case["n_iter"] + 1:
        raise Violation("%d callbacks, %d losses for %d iterations" % (len(S), len(m.loss), case["n_iter"]))
    if not gen.rel_err(S[0]["demix_filter"], W0) < 1e-12:
        raise Violation("initial filter is not the given one")
    natural = cfg["cls"].startswith("Natural")
    hol = is_holonomic(cfg)
    tags = []
    for k in range(case["n_iter"]):
        W = S[k]["demix_filter"]
        Y = refs.apply_w(W, X)
        r = np.abs(Y) if "FDICA" in cfg["cls"] else np.linalg.norm(Y, axis=1)
        if not np.all(np.abs(W) < 1e100) or np.min(r) < 1e-6 or "Gauss" in cfg["cls"] and np.min(r) < 1e-3 or np.max(np.linalg.cond(W)) > 1e4:
            tags.append("degenerate step not compared")
            continue
        var = np.mean(np.abs(Y) ** 2, axis=1)
        Phi, L = score_and_loss(cfg, Y, var)
        PhiY = np.einsum("nij,mij->inm", Phi, np.conj(Y)) / J
        want = step_matrix(W, PhiY, natural, hol, cfg["step"])
        got = S[k + 1]["demix_filter"]
        if not np.all(np.abs(want) < 1e100):
            tags.append("diverging step not compared")
            continue
        e = np.max(np.abs(got - want)) / max(np.max(np.abs(want - W)), 1e-9 * np.max(np.abs(W)))
        if not e < 1e-5:
            raise Violation("iteration %d: filter change differs from the documented step (relative to the change: %.3g)" % (k + 1, e))
        # independent of the formula: a tiny holonomic step descends the objective at the rate of its gradient
        if hol and case["small"] and cfg.get("contrast") != "pow":
            W2 = got
            L0 = L - 2 * refs.logdet_sum(W)
            L1 = score_and_loss(cfg, refs.apply_w(W2, X), var)[1] - 2 * refs.logdet_sum(W2)
            grad = (PhiY - np.eye(N)) @ H(np.linalg.inv(W))
            slope = 2 * np.real(np.sum(np.conj(grad) * (W2 - W)))
            if slope < -1e-7 * max(abs(L0), 1.0):
                if not 0.5 < (L1 - L0) / slope < 1.5:
                    raise Violation("objective changes by %g along a step of slope %g" % (L1 - L0, slope))
                tags.append("descent rate")
    if not np.all(np.abs(S[-1]["demix_filter"]) < 1e100):
        raise Skip  # diverged
    e = gen.rel_err(out, refs.apply_w(S[-1]["demix_filter"], X))
    if not e < 1e-10:
        raise Violation("final output differs from the separated input: %.3g" % e)
    return tags + [cfg["cls"], "hol=%s" % cfg["hol"]]


RULE = "random mixtures, filters, contrasts, step sizes (1e-6..0.1); each iteration recomputed from the previous public filter"


@facet(P, "fdica", cases(["GradFDICA", "GradLaplaceFDICA"]), quick=1200, thorough=20000, shards=2, rule=RULE)
def fdica(case):
    return run(case)


@facet(P, "iva", cases(["GradIVA", "GradLaplaceIVA", "GradGaussIVA"]), quick=1500, thorough=25000, shards=2, rule=RULE)
def iva(case):
    return run(case)


# ---------------------------------------------------------------------------- time-domain ICA
ICA_G = {
    "logcosh": (lambda y: np.logaddexp(y, -y) - np.log(2), np.tanh),
    "quartic": (lambda y: y**4 / 4, lambda y: y**3),
    "laplace": (np.abs, np.sign),
}


def ica_cases():
    return st.fixed_dictionaries({
        "seed": gen.SEED, "N": st.integers(2, 4), "T": st.integers(30, 80),
        "cls": st.sampled_from(["GradICA", "NaturalGradICA", "GradLaplaceICA", "NaturalGradLaplaceICA"]),
        "contrast": st.sampled_from(["logcosh", "quartic"]), "step": st.sampled_from([None, 0.01, 1e-4]),
        "hol": st.sampled_from([None, True, False]), "init": st.booleans(), "n_iter": gen.iters(1, 3),
    })


@facet(P, "ica", ica_cases, quick=800, thorough=10000, shards=1, rule="time-domain real mixtures; " + RULE)
def ica_facet(case):
    rng = gen.rng_of(case)
    N, T = case["N"], case["T"]
    X = (np.eye(N) + 0.3 * rng.standard_normal((N, N))) @ rng.laplace(size=(N, T))
    name = "laplace" if "Laplace" in case["cls"] else case["contrast"]
    g, s = ICA_G[name]
    tr = M.Trace()
    kw = {"callbacks": tr}
    if case["step"] is not None:
        kw["step_size"] = case["step"]
    if case["hol"] is not None:
        kw["is_holonomic"] = case["hol"]
    if "Laplace" not in case["cls"]:
        kw.update(contrast_fn=g, score_fn=s)
    m = getattr(ica, case["cls"])(**kw)
    W0 = np.eye(N)
    call = {}
    if case["init"]:
        W0 = np.eye(N) + 0.2 * rng.standard_normal((N, N))
        call["demix_filter"] = W0.copy()
    keep = X.copy()
    out = m(X, n_iter=case["n_iter"], **call)
    if not np.array_equal(X, keep):
        raise Violation("input modified")
    S = tr.states
    if len(S) != case["n_iter"] + 1 or len(m.loss) != case["n_iter"] + 1:
        raise Violation("%d callbacks, %d losses for %d iterations" % (len(S), len(m.loss), case["n_iter"]))
    if not np.array_equal(S[0]["demix_filter"], W0):
        raise Violation("initial filter is not the given one")
    mu = 0.1 if case["step"] is None else case["step"]
    for k, st_ in enumerate(S):
        W = st_["demix_filter"]
        if not np.all(np.abs(W) < 1e100) or np.linalg.cond(W) > 1e6 or np.max(np.abs(W)) > 1e6:
            return ["diverging step size"]
        Y = W @ X
        if not gen.rel_err(st_["output"], Y) < 1e-10:
            raise Violation("current output is not the filtered input")
        L = np.sum(np.mean(g(Y), axis=1)) - np.log(abs(np.linalg.det(W)))
        if not abs(L - m.loss[k]) < 1e-9 * max(1, abs(L)):
            raise Violation("loss %g recorded at step %d, objective is %g" % (m.loss[k], k, L))
        if k + 1 < len(S):
            PhiY = s(Y) @ Y.T / T
            want = step_matrix(W, PhiY, case["cls"].startswith("Natural"), bool(case["hol"]), mu)
            got = S[k + 1]["demix_filter"]
            e = np.max(np.abs(got - want)) / max(np.max(np.abs(want - W)), 1e-9 * np.max(np.abs(W)))
            if not e < 1e-6:
                raise Violation("iteration %d: filter change differs from the documented step (%.3g)" % (k + 1, e))
    if not np.all(np.abs(S[-1]["demix_filter"]) < 1e100):
        raise Skip  # diverged
    if not gen.rel_err(out, S[-1]["demix_filter"] @ X) < 1e-10:
        raise Violation("final output differs from the separated input")
    return [case["cls"], name]
