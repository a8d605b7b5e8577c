"""Proximal separation (PDS / ADMM), its masking variants and convergence."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.gen import H
from pbt.harness import Skip, Violation, facet
from ssspy.bss.admmbss import ADMMBSS, MaskingADMMBSS
from ssspy.bss.iva import ADMMIVA, PDSIVA
from ssspy.bss.pdsbss import PDSBSS, MaskingPDSBSS

P = "C12"


def prox_logdet(W, mu):
    u, s, vh = np.linalg.svd(W)
    s = (s + np.sqrt(s**2 + 4 * mu)) / 2
    return (u * s[..., None, :]) @ vh


def l2(y):
    return float(0.5 * np.sum(np.abs(y) ** 2))


def l2_prox(y, step_size=1):
    return y / (1 + step_size)


PEN = {"l21": (M.l21_penalty, M.l21_prox), "l1": (M.l1_penalty, M.l1_prox), "l2": (l2, l2_prox)}


def gain_of(name):
    """Mask of a penalty: prox(z) = mask(z) z for unit step."""
    prox = PEN[name][1]

    def mask(y):
        a = np.abs(y)
        return np.where(a > 0, np.abs(prox(y)) / np.where(a > 0, a, 1), 0)

    return mask


MASKS = {
    "l21": gain_of("l21"), "l1": gain_of("l1"),
    "wiener": lambda y: np.abs(y) ** 2 / (np.sum(np.abs(y) ** 2, axis=0) + 1e-3),
}


def conv(S, X):
    return refs.apply_w(S, X)


def back(Y, X):
    """sum over frames of y x^H, (I, N, M)."""
    return np.einsum("nij,mij->inm", Y, np.conj(X))


def pds_step(W, D, X, shrink, mu1, mu2, alpha):
    """D (Q, N, I, J); shrink: list of functions z -> z - residual (prox or masked z)."""
    Wt = prox_logdet(W - mu1 * mu2 * back(D.sum(axis=0), X), mu1)
    XW = conv(2 * Wt - W, X)
    Dt = np.stack([d + XW - f(d + XW) for d, f in zip(D, shrink)])
    return alpha * Wt + (1 - alpha) * W, alpha * Dt + (1 - alpha) * D


def admm_step(V, Vt, Y, Yt, X, shrink, rho, alpha):
    Q, N = Vt.shape[:2]
    I = X.shape[1]
    W = np.zeros_like(V)
    rhs = (V - Y) + back((Vt - Yt).sum(axis=0), X)
    for i in range(I):
        x = X[:, i]
        W[i] = rhs[i] @ np.linalg.inv(Q * x @ np.conj(x.T) + np.eye(N))
    XW = conv(W, X)
    U = alpha * W + (1 - alpha) * V
    Ut = alpha * XW[None] + (1 - alpha) * Vt
    V2 = prox_logdet(U + Y, 1 / rho)
    Vt2 = np.stack([f(u + y) for u, y, f in zip(Ut, Yt, shrink)])
    return V2, Vt2, Y + U - V2, Yt + Ut - Vt2, W


def brief(case):
    """Recordings far from unit norm take few steps (unit steps diverge)."""
    if 1e-2 < case["scale"] < 100:
        return case
    return dict(case, n_iter=min(case["n_iter"], 2 if case["scale"] < 1 or case.get("norm") else 1))


def cases():
    d = gen.base_case(N=(2, 3), I=(1, 4), J=(8, 25), scales=(1.0, 0.1, 10.0, 1.0, 0.1, 10.0, 1e3, 3e-4))
    d.update({
        "algo": st.sampled_from(["pds", "admm"]),
        "what": st.sampled_from(["prox", "prox", "mask", "iva", "iva_default"]),
        "pen": st.sampled_from(["l21", "l1", "l2", "l21+l1", "l1+l2", "l2+l1+l21", "l1+l2+l21+l1"]),
        "mask": st.sampled_from(list(MASKS)),
        "mu1": st.sampled_from([1, 0.5, 0.1]), "mu2": st.sampled_from([1, 0.5, 2]),
        "rho": st.sampled_from([1, 0.5, 3]), "relax": st.sampled_from([1, 0.7, 1.6, 0.2, 1.95]),
        "n_iter": gen.iters(1, 4), "init": st.booleans(), "norm": st.booleans(),
    })
    return st.fixed_dictionaries(d).map(brief)


def make(case, tr):
    """(method, number of penalties, shrink functions, penalty or None)."""
    step = 1 / (case["mu2"] if case["algo"] == "pds" else case["rho"])
    kw = {"callbacks": tr, "scale_restoration": False, "relaxation": case["relax"]}
    if case["algo"] == "pds":
        kw.update(mu1=case["mu1"], mu2=case["mu2"])
    else:
        kw.update(rho=case["rho"])
    pds = case["algo"] == "pds"
    if case["what"] == "mask":
        f = MASKS[case["mask"]]
        return (MaskingPDSBSS if pds else MaskingADMMBSS)(mask_fn=f, **kw), 1, [lambda z: f(z) * z], None
    if case["what"].startswith("iva"):
        fn, prox = PEN["l21"]
        if case["what"] == "iva":
            fn, prox = PEN["l2"]
            kw.update(contrast_fn=lambda y: 0.5 * np.sum(np.abs(y) ** 2, axis=1), prox_penalty=l2_prox)
        return (PDSIVA if pds else ADMMIVA)(**kw), 1, [lambda z: prox(z, step)], fn
    names = case["pen"].split("+")
    fns, proxs = [PEN[n][0] for n in names], [PEN[n][1] for n in names]
    if len(names) == 1 and case["seed"] % 2:
        kw.update(penalty_fn=fns[0], prox_penalty=proxs[0])
    else:
        kw.update(penalty_fn=fns, prox_penalty=proxs)
    shrink = [(lambda z, p=p: p(z, step)) for p in proxs]
    return (PDSBSS if pds else ADMMBSS)(**kw), len(names), shrink, lambda y: sum(f(y) for f in fns)


@facet(P, "steps", cases, quick=2500, thorough=40000, shards=4,
       rule="PDS and ADMM, one to four penalties, IVA and masking variants, step sizes, relaxations, given or default "
            "initial primal/dual variables; each iteration recomputed from the previous public state; all evaluated")
def steps(case):
    X = gen.mixture(case)
    if case["norm"]:
        X = X / np.max(np.linalg.norm(X.transpose(1, 0, 2), ord=2, axis=(1, 2)))
    N, I, J = X.shape
    tr = M.Trace()
    m, Q, shrink, pen = make(case, tr)
    rng = gen.rng_of(case, 6)
    masking = case["what"] == "mask"
    W0 = np.tile(np.eye(N, dtype=complex), (I, 1, 1))
    init = {}
    if case["init"]:
        W0 = gen.demix_init(case, I, N)
        init["demix_filter"] = W0
        big = (N, I, J) if masking else (Q, N, I, J)
        if case["algo"] == "pds":
            init["dual"] = 0.1 * gen.cnormal(rng, *big)
        else:
            init["auxiliary1"] = gen.cnormal(rng, I, N, N)
            init["auxiliary2"] = gen.cnormal(rng, *big)
            init["dual1"] = 0.1 * gen.cnormal(rng, I, N, N)
            init["dual2"] = 0.1 * gen.cnormal(rng, *big)
    given = {k: v.copy() for k, v in init.items()}
    out = m(X, n_iter=case["n_iter"], **init)
    if any(not np.array_equal(given[k], init[k]) for k in init):
        raise Violation("a given initial variable was modified")
    S = tr.states
    if len(S) != case["n_iter"] + 1:
        raise Violation("%d callbacks for %d iterations" % (len(S), case["n_iter"]))
    keys = ["demix_filter", "dual"] if case["algo"] == "pds" else ["auxiliary1", "auxiliary2", "dual1", "dual2", "demix_filter"]
    for k in keys:
        want = given.get(k)
        if want is None:
            want = W0 if k == "demix_filter" else np.zeros_like(S[0][k])
        if S[0][k].shape != want.shape or not np.array_equal(S[0][k], want):
            raise Violation("initial %s is not the given/default one" % k)
    ex = (lambda a: a[None]) if masking else (lambda a: a)
    tags = []
    for k in range(case["n_iter"]):
        a = S[k]
        if case["algo"] == "pds":
            st_ = (a["demix_filter"], ex(a["dual"]))
            f = lambda s: pds_step(s[0], s[1], X, shrink, case["mu1"], case["mu2"], case["relax"])  # noqa: E731
        else:
            st_ = (a["auxiliary1"], ex(a["auxiliary2"]), a["dual1"], ex(a["dual2"]))
            f = lambda s: admm_step(*s, X, shrink, case["rho"], case["relax"])  # noqa: E731
        want = refs.stable(f, st_)
        if want is None:
            tags.append("ill-conditioned step not compared")
            continue
        for name, w in zip(keys, want):
            got = S[k + 1][name]
            if got.shape != (w if not (masking and w.ndim == 4) else w[0]).shape:
                raise Violation("%s has shape %s" % (name, got.shape))
            got = ex(got) if (masking and w.ndim == 4) else got
            d = np.max(np.abs(got - w)) / max(np.max(np.abs(w)), 1e-8 * np.max(np.abs(X)))
            if not d < 1e-7:
                raise Violation("iteration %d: %s differs from the documented update (%.3g)" % (k + 1, name, d))
    W = S[-1]["demix_filter"]
    if not gen.rel_err(out, refs.apply_w(W, X)) < 1e-10:
        raise Violation("final output differs from the separated input")
    if pen is not None:
        if m.loss is None or len(m.loss) != len(S):
            raise Violation("%s losses recorded for %d states" % (None if m.loss is None else len(m.loss), len(S)))
        for k, s in enumerate(S):
            det = abs(np.prod([np.linalg.det(w) for w in s["demix_filter"]]))
            if det < 1e-12:
                continue
            L = pen(refs.apply_w(s["demix_filter"], X)) - refs.logdet_sum(s["demix_filter"])
            if not abs(L - m.loss[k]) < 1e-8 * max(1, abs(L)):
                raise Violation("loss %g recorded at step %d, objective is %g" % (m.loss[k], k, L))
    return tags + [case["algo"], case["what"], "Q=%d" % Q]


def eq_cases():
    d = gen.base_case(N=(2, 3), I=(1, 4), J=(8, 25))
    d.update({"algo": st.sampled_from(["pds", "admm"]), "pen": st.sampled_from(["l21", "l1"]),
              "relax": st.sampled_from([1, 0.7, 1.6]), "n_iter": st.integers(2, 15), "rest": st.sampled_from([False, True]),
              "mu1": st.sampled_from([1, 0.3])})
    return st.fixed_dictionaries(d)


@facet(P, "mask_equals_prox", eq_cases, quick=300, thorough=5000, shards=1,
       rule="a mask that realises the proximal operator gives the same filters and outputs as the proximal variant")
def mask_equals_prox(case):
    X = gen.mixture(case)
    X = X / np.max(np.linalg.norm(X.transpose(1, 0, 2), ord=2, axis=(1, 2)))
    fn, prox = PEN[case["pen"]]
    kw = {"relaxation": case["relax"], "scale_restoration": case["rest"]}
    if case["algo"] == "pds":
        kw["mu1"] = case["mu1"]
        a, b = PDSBSS(penalty_fn=fn, prox_penalty=prox, **kw), MaskingPDSBSS(mask_fn=gain_of(case["pen"]), **kw)
    else:
        a, b = ADMMBSS(penalty_fn=fn, prox_penalty=prox, **kw), MaskingADMMBSS(mask_fn=gain_of(case["pen"]), penalty_fn=fn, **kw)
    ya, yb = a(X, n_iter=case["n_iter"]), b(X, n_iter=case["n_iter"])
    if not gen.rel_err(ya, yb) < 1e-6:
        raise Violation("masking and proximal variants differ: %.3g" % gen.rel_err(ya, yb))
    if not gen.rel_err(a.demix_filter, b.demix_filter) < 1e-6:
        raise Violation("filters of masking and proximal variants differ")
    return [case["algo"], case["pen"]]


def conv_cases():
    d = gen.base_case(N=(2, 3), I=(1, 3), J=(10, 20), scales=(1.0,), layouts=("C",))
    d.update({"algo": st.sampled_from(["pds", "admm", "pdsiva", "admmiva"]), "pen": st.sampled_from(["l2", "l2", "l21", "l1", "l21+l2", "l2+l2+l21"]),
              "rho": st.sampled_from([10, 30, 100]), "relax": st.sampled_from([1, 1, 1.5])})
    return st.fixed_dictionaries(d)


@facet(P, "converges", conv_cases, quick=120, thorough=1500, shards=8,
       rule="after up to 2000 iterations on spectrally normalised data, a settled filter is a stationary point of the objective "
            "(random small perturbations do not lower it to first order); runs that have not settled are skipped")
def converges(case):
    X = gen.mixture(case)
    algo, names = case["algo"], case["pen"].split("+")
    if algo.endswith("iva"):
        names = ["l21"]
    fns, proxs = [PEN[n][0] for n in names], [PEN[n][1] for n in names]
    rho = 3 if names == ["l2"] else case["rho"]
    last = []

    def watch(m):
        last.append(m.demix_filter.copy())
        del last[:-2]

    kw = {"relaxation": case["relax"], "scale_restoration": False, "record_loss": True, "callbacks": watch}
    kw.update({"mu1": 0.7 / rho, "mu2": rho} if "pds" in algo else {"rho": rho})
    if algo == "pds":
        m = PDSBSS(penalty_fn=fns, prox_penalty=proxs, **kw)
    elif algo == "admm":
        m = ADMMBSS(penalty_fn=fns, prox_penalty=proxs, **kw)
    else:
        m = (PDSIVA if algo == "pdsiva" else ADMMIVA)(**kw)
    X0 = X
    X = m.normalize_by_spectral_norm(X)
    nrm = np.max(np.linalg.norm(X0.transpose(1, 0, 2), ord=2, axis=(1, 2))) * np.sqrt(len(names))
    if not gen.rel_err(X, X0 / nrm) < 1e-12:
        raise Violation("spectral normalisation: input is not divided by sqrt(penalties) times its largest spectral norm")
    m(X, n_iter=2000)
    W = m.demix_filter
    if not np.all(np.isfinite(W)):
        raise Violation("diverged on spectrally normalised data")
    if np.max(np.abs(last[1] - last[0])) > 1e-8 * np.max(np.abs(W)):
        raise Skip

    def obj(w):
        return sum(f(refs.apply_w(w, X)) for f in fns) - refs.logdet_sum(w)

    base = obj(W)
    rng = gen.rng_of(case, 3)
    for _ in range(40):
        d = gen.cnormal(rng, *W.shape)
        if rng.random() < 0.5:
            d = d * (rng.random(W.shape) < 0.3)
        eps = 1e-5
        slope = (obj(W + eps * d) - base) / eps
        if not slope > -2e-3 * max(1.0, np.max(np.abs(W))) * W.size:
            raise Violation("objective %.8g at the fixed point decreases with slope %.3g" % (base, slope))
    return [algo, "+".join(names)]
