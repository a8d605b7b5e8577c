"""Separation: mixtures of sources with different activity come out separated."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.harness import Skip, Violation, facet

P = "C01"


def mixture_of(case, salt=0):
    """Sources of which one dominates every frame, mixed by well-conditioned matrices."""
    rng = gen.rng_of(case, 9 + salt)
    N, I, J = case["N"], case["I"], case["J"]
    act = np.full((N, J), 0.03)
    L = case["block"]
    own = np.repeat(rng.permutation(np.arange(-(-J // L)) % N), L)[:J]
    act[own, np.arange(J)] = 0.5 + rng.random(J)
    S = gen.cnormal(rng, N, I, J) * act[:, None] * (0.5 + rng.random((N, I, 1)))
    A = gen.well_conditioned(rng, (I,), N)
    X = np.einsum("imn,nij->mij", A, S)
    if M.needs_small(case["cfg"]):
        X = X / np.max(np.linalg.norm(X.transpose(1, 0, 2), ord=2, axis=(1, 2)))
    return S, A, X * case["scale"]


def sir(Y, S):
    """Smallest ratio (dB) of a source to the other ones in the outputs, over the best common order."""
    if not (Y.shape == S.shape and np.all(np.isfinite(Y))):
        return -np.inf
    N = S.shape[0]
    C = np.zeros((N, N))
    for i in range(S.shape[1]):
        B = np.linalg.lstsq(S[:, i].T, Y[:, i].T, rcond=None)[0].T
        C += np.abs(B) ** 2 * np.mean(np.abs(S[:, i]) ** 2, axis=1)
    best = max(min(C[n, p[n]] / (C[n].sum() - C[n, p[n]] + 1e-300) for n in range(N)) for p in itertools.permutations(range(N)))
    return 10 * np.log10(best + 1e-300)


def run(case, X, W=None, n_iter=None, salt=0):
    cfg = case["cfg"]
    kw = {} if cfg["cls"] in M.PROX else {"record_loss": case["seed"] % 2 == 0}
    if M.has_scale(cfg):
        kw["scale_restoration"] = case["restore"]
    if M.has_reference(cfg):
        kw["reference_id"] = case["ref"] % case["N"]
    m = M.build(cfg, case["seed"] % 1000 + salt, **kw)
    call = {}
    if W is not None:
        call["demix_filter"] = W
        if cfg["cls"] in ("ADMMBSS", "ADMMIVA", "MaskingADMMBSS", "MaskingADMMHVA"):
            call["auxiliary1"] = W
    return m(X, n_iter=n_iter or case["n_iter"], **call)


def scenario(families, N=(2, 3), **kw):
    d = dict(n_iter=st.integers(12, 20), ref=st.integers(0, 2), block=st.integers(3, 12), scale=st.sampled_from([1.0, 0.1, 10.0]),
             layout=st.just("C"), restore=st.sampled_from([True, "projection_back", "minimal_distortion_principle", False]))
    d.update(kw)
    return lambda: M.case_for(families, N=N, I=(4, 8), J=(160, 240), wide=False, **d)


def rough(case, A, strength):
    """Filters that separate roughly."""
    rng = gen.rng_of(case, 10)
    I, N = A.shape[:2]
    W = np.linalg.inv(A)
    E = strength * gen.cnormal(rng, I, N, N) * (1 - np.eye(N))
    return (np.eye(N) + E) @ W


def attempts(case, separate, threshold):
    """A low-rank model may end in a poor local optimum: a violation needs three mixtures in a row that are not separated."""
    seen = []
    for k in range(3):
        before, after = separate(case, 1000 * k)
        if after > threshold:
            return
        seen.append("%.1f -> %.1f dB" % (before, after))
    raise Violation("separation of three mixtures after %d iterations: %s" % (case["n_iter"], ", ".join(seen)))


NEAR = ["AuxFDICA", "AuxLaplaceFDICA", "AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA", "GaussILRMA", "TILRMA", "GGDILRMA", "GaussIPSDTA", "TIPSDTA"]


def from_rough(case, salt):
    S, A, X = mixture_of(case, salt)
    W = rough(case, A, 0.25) / case["scale"]
    return sir(refs.apply_w(W, X), S), sir(run(case, X, W, salt=salt), S)


@facet(P, "refines", scenario(NEAR), quick=2400, thorough=24000, shards=8,
       rule="auxiliary-function, low-rank and block-correlation methods started from a roughly separating filter separate to more than 25 dB (one of up to three mixtures); all evaluated")
def refines(case):
    if case["cfg"].get("part"):  # a handful of bases shared by all sources may not describe them
        case = dict(case, cfg=dict(case["cfg"], part=False))
    attempts(case, from_rough, 25)
    return [case["cfg"]["cls"], "sa=%s" % case["cfg"].get("sa"), "restore=%s" % case["restore"]]


BLIND = ["AuxFDICA", "AuxLaplaceFDICA", "AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA"]


@facet(P, "blind", scenario(BLIND, N=(2, 2), n_iter=st.integers(25, 35)), quick=600, thorough=9000, shards=8,
       rule="auxiliary-function FDICA and IVA from the default start: at least one of three two-source mixtures is separated to more than 20 dB; all evaluated")
def blind(case):
    if case["cfg"].get("sa") == "IPA":
        raise Skip
    v = []
    for k in range(3):
        S, A, X = mixture_of(case, 100 * (k + 1))
        v.append(sir(run(case, X), S))
    if not np.max(v) > 20:
        raise Violation("separations of three mixtures: %s dB" % np.round(v, 1))
    return [case["cfg"]["cls"], "sa=%s" % case["cfg"].get("sa")]


@facet(P, "gradient", scenario(["GradLaplaceFDICA", "GradLaplaceIVA"], n_iter=st.integers(60, 90), scale=st.just(1.0)),
       quick=600, thorough=9000, shards=4,
       rule="Laplacian natural-gradient methods improve a rough separation by 6 dB, plain-gradient ones do not spoil it; all evaluated")
def gradient(case):
    case = dict(case, cfg=dict(case["cfg"], step=0.1))
    S, A, X = mixture_of(case)
    W = rough(case, A, 0.25)
    before = sir(refs.apply_w(W, X), S)
    after = sir(run(case, X, W), S)
    gain = {"GradLaplaceFDICA": 0, "GradLaplaceIVA": -4}.get(case["cfg"]["cls"], 6)
    if not after > before + gain:
        raise Violation("separation of %.1f dB after %d iterations from %.1f dB" % (after, case["n_iter"], before))
    return [case["cfg"]["cls"], "hol=%s" % case["cfg"]["hol"]]


@facet(P, "proximal", scenario(["PDSBSS", "ADMMBSS", "PDSIVA", "ADMMIVA", "HVA"], n_iter=st.integers(120, 150), scale=st.just(1.0)),
       quick=800, thorough=9000, shards=4,
       rule="primal-dual and ADMM methods with step sizes suited to the scale of the data, from a roughly separating filter (one of up to three mixtures); all evaluated")
def proximal(case):
    cfg = dict(case["cfg"])
    cfg["relax"] = 1
    if "pen" in cfg:
        cfg["pen"] = "l21"
    if cfg["cls"] in ("PDSBSS", "PDSIVA"):
        cfg.update(mu1=0.01, mu2=100)
    elif cfg["cls"] in ("ADMMBSS", "ADMMIVA"):
        cfg["rho"] = 100
    case = dict(case, cfg=cfg)

    def separate(case, salt):
        S, A, X = mixture_of(case, salt)
        W = rough(case, A, 0.25)
        W = W / np.linalg.norm(W, axis=2, keepdims=True)
        return sir(refs.apply_w(W, X), S), sir(run(case, X, W), S)

    attempts(case, separate, 10)
    return [cfg["cls"], "restore=%s" % case["restore"]]


@facet(P, "multichannel", scenario(["FastGaussMNMF"], n_iter=st.integers(10, 15)), quick=400, thorough=6000, shards=8,
       rule="FastMNMF from roughly correct spatial parameters separates to more than 25 dB (one of up to three mixtures); all evaluated")
def multichannel(case):
    cfg = dict(case["cfg"], ns=None)
    N = case["N"]

    def separate(case, salt):
        S, A, X = mixture_of(case, salt)
        W = rough(case, A, 0.25) / case["scale"]
        kw = {"diagonalizer": W, "spatial": np.tile(np.eye(N) + 1e-2, (case["I"], 1, 1))}
        m = M.build(cfg, case["seed"] % 1000 + salt, reference_id=case["ref"] % N)
        return sir(refs.apply_w(W, X), S), sir(m(X, n_iter=case["n_iter"], **kw), S)

    attempts(case, separate, 25)
    return [cfg["cls"], "norm=%s" % cfg["norm"], "sa=%s" % cfg["sa"]]


@facet(P, "clustering", scenario(["CACGMM"], N=(2, 2), n_iter=st.integers(15, 25)), quick=400, thorough=6000, shards=4,
       rule="CACGMM with permutation alignment: at least one of five two-source mixtures is separated to more than 20 dB; all evaluated")
def clustering(case):
    v = []
    for k in range(5):
        S, A, X = mixture_of(case, 100 * (k + 1))
        m = M.build(dict(case["cfg"], perm=True, ns=None), case["seed"] % 1000 + k, reference_id=case["ref"] % case["N"])
        v.append(sir(m(X, n_iter=case["n_iter"]), S))
    if not np.max(v) > 20:
        raise Violation("separations of five mixtures: %s dB" % np.round(v, 1))
    return ["N=%d" % case["N"]]


@facet(P, "fixed_point", scenario(["FastIVA", "FasterIVA"]), quick=500, thorough=8000, shards=4,
       rule="FastIVA and FasterIVA started from a rough separation separate to more than 18 dB (one of up to three mixtures); all evaluated")
def fixed_point(case):
    def separate(case, salt):
        S, A, X = mixture_of(case, salt)
        m = M.build(case["cfg"], 0, scale_restoration=False)
        m(X, n_iter=0)
        V = refs.fit_w(m.whitened_input, X)
        W = rough(case, A, 0.25) @ np.linalg.inv(V)
        u, _, vh = np.linalg.svd(W)
        return sir(refs.apply_w(u @ vh @ V, X), S), sir(run(case, X, u @ vh), S)

    attempts(case, separate, 18)
    return [case["cfg"]["cls"], case["cfg"]["contrast"]]


@facet(P, "ica", scenario(["FastICA"], n_iter=st.integers(15, 30), kind=st.sampled_from(["laplace", "uniform", "sine"])), quick=500, thorough=8000, shards=2,
       rule="FastICA on instantaneous mixtures of non-Gaussian signals: the median separation of five mixtures exceeds 12 dB; all evaluated")
def ica(case):
    v = []
    for k in range(5):
        rng = gen.rng_of(case, 20 + k)
        N, T = case["N"], 2000 + case["J"]
        if case["kind"] == "uniform":
            S = rng.uniform(-1, 1, (N, T))
        elif case["kind"] == "sine":
            S = np.sin(2 * np.pi * (np.arange(T)[None] * np.sqrt([[2.0], [3.0], [5.0]])[:N] / 31 + rng.random((N, 1))))
        else:
            S = rng.laplace(size=(N, T))
        A = rng.standard_normal((N, N))
        while np.linalg.cond(A) > 10:
            A = rng.standard_normal((N, N))
        Y = M.build(case["cfg"])(A @ S * case["scale"], n_iter=case["n_iter"])
        v.append(sir(Y[:, None], S[:, None]))
    if not np.median(v) > 12:
        raise Violation("separations of five mixtures: %s dB" % np.round(v, 1))
    return [case["kind"]]
