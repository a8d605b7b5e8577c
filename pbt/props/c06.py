"""Auxiliary-function FDICA / IVA: every iteration is the documented majoriser step."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.harness import Violation, facet

P = "C06"


def phi_of(cfg, Y, variance=None):
    """Auxiliary weights (N, I, J) or (N, 1, J)."""
    if cfg["cls"] == "AuxGaussIVA":
        return np.broadcast_to(1 / variance[:, None, :], Y.shape)
    name = cfg.get("contrast", "laplace")
    dg = M.G[name][1]
    r = np.abs(Y) if "FDICA" in cfg["cls"] else np.linalg.norm(Y, axis=1)[:, None, :]
    return np.broadcast_to(dg(r) / (2 * r), Y.shape)


def step_w(cfg, W, X):
    N = X.shape[0]
    Y = refs.apply_w(W, X)
    var = np.mean(np.abs(Y) ** 2, axis=1)
    if cfg["sa"] in ("IP", "IP1"):
        return refs.ip1(W, refs.covs(X, phi_of(cfg, Y, var)))
    for m, n in M.pair_list(cfg["pairs"], N):
        Y = refs.apply_w(W, X)  # weights of the pair follow the current filters
        U = refs.covs(X, phi_of(cfg, Y, var))
        margins = []
        W = refs.ip2_pair(W, U[:, m], U[:, n], m, n, margins)
        if not min(margins) > 1e-6:
            return None
    return W


def step_y(cfg, Y):
    N = Y.shape[0]
    var = np.mean(np.abs(Y) ** 2, axis=1)
    phi = phi_of(cfg, Y, var)
    if cfg["sa"] in ("ISS", "ISS1"):
        return refs.iss1(Y, phi)
    margins = []
    if cfg["sa"] == "ISS2":
        out = refs.iss2(Y, phi, M.pair_list(cfg["pairs"], N), margins)
    else:
        out = refs.ipa(Y, phi, cfg.get("newton") or 1, margins)
    # otherwise the subproblem has a continuum of minimisers
    return out if min(margins) > 1e-6 else None


def floored(cfg, Y, floor):
    """The library floors magnitudes at 1e-10 by default; the reference does not."""
    r = np.abs(Y) if "FDICA" in cfg["cls"] else np.linalg.norm(Y, axis=1)
    return np.min(r) < {"default": 1e-4, "tiny": 1e-7, None: 1e-8}[floor]


def cmp(a, b, tol, what, align):
    if align:
        a = refs.align_phase(a, b)
    e = gen.rel_err(a, b)
    if not e < tol:
        raise Violation("%s: relative error %.3g" % (what, e))


def regular(case):
    """Long runs on few frames lose digits, as does IPA on faint recordings without a floor (one Newton step for a nearly
    vanishing linear term); on faint recordings the default floor acts inside the steps."""
    if case["scale"] < 0.01:
        case = dict(case, scale=1.0) if case["cfg"]["sa"] == "IPA" else dict(case, floor=None)
    if case["J"] < 30:
        case = dict(case, n_iter=min(case["n_iter"], 3))
    return case


def cases(families):
    def mk():
        return M.case_for(families, N=(2, 4), I=(1, 4), J=(30, 45), short=3, level=True, n_iter=gen.iters(1, 4), init=st.booleans(),
                          floor=st.sampled_from(["default", None, "tiny"])).map(regular)
    return mk


def run(case):
    cfg = case["cfg"]
    X = gen.mixture(case)
    N, I, J = X.shape
    tr = M.Trace()
    kw = {"callbacks": tr, "scale_restoration": False, "record_loss": case["seed"] % 2 == 0}
    if "FDICA" in cfg["cls"]:
        kw["permutation_alignment"] = False
    if case["floor"] is None:
        kw["flooring_fn"] = None
    elif case["floor"] == "tiny":
        kw["flooring_fn"] = lambda x: np.maximum(x, 1e-13)
    m = M.build(cfg, **kw)
    call = {}
    W0 = np.tile(np.eye(N, dtype=complex), (I, 1, 1))
    if case["init"]:
        W0 = gen.demix_init(case, I, N)
        call["demix_filter"] = W0.copy()
    out = m(X, n_iter=case["n_iter"], **call)
    S = tr.states
    if len(S) != case["n_iter"] + 1:
        raise Violation("%d callback calls for %d iterations" % (len(S), case["n_iter"]))
    tags = []
    align = cfg["sa"] in ("IP2", "ISS2")
    free = M.is_free(cfg)
    key = "output" if free else "demix_filter"
    cmp(S[0][key], refs.apply_w(W0, X) if free else W0, 1e-10, "initial state", False)
    for k in range(case["n_iter"]):
        step = (lambda y: step_y(cfg, y)) if free else (lambda w: step_w(cfg, w, X))
        if floored(cfg, S[k][key] if free else refs.apply_w(S[k][key], X), case["floor"]):
            tags.append("floored step not compared")
            if np.min(np.abs(S[k][key] if free else refs.apply_w(S[k][key], X))) < 1e-9:  # a collapsed run may end in NaN without a floor
                return tags
            continue
        if cfg["cls"] == "AuxGaussIVA":
            pw = np.sum(np.abs(S[k][key] if free else refs.apply_w(S[k][key], X)) ** 2, axis=1)
            if not np.min(pw / np.max(pw, axis=1, keepdims=True)) > 1e-8:  # its likelihood is unbounded: a source that vanishes in a frame
                return tags + ["collapsed run not compared further"]
        ref = refs.stable(step, S[k][key], align)
        if ref is None:
            tags.append("ill-conditioned step not compared")
            continue
        cmp(S[k + 1][key], ref, 1e-6 if J >= 30 else 1e-4, "iteration %d (%s) differs from the reference" % (k + 1, cfg["sa"]), align)
    cmp(out, S[-1]["output"] if free else refs.apply_w(S[-1]["demix_filter"], X), 1e-10, "final output", False)
    return tags + [cfg["cls"], cfg["sa"], "pairs=%s" % cfg["pairs"], "contrast=%s" % cfg.get("contrast", "-")]


RULE = "random mixtures, initial filters, contrasts, spatial algorithms and pair orders; each iteration recomputed from the previous public state; all evaluated"


@facet(P, "aux_fdica", cases(["AuxFDICA", "AuxLaplaceFDICA"]), quick=1600, thorough=20000, shards=3, rule=RULE)
def aux_fdica(case):
    return run(case)


@facet(P, "aux_iva", cases(["AuxIVA"]), quick=2000, thorough=30000, shards=4, rule=RULE)
def aux_iva(case):
    return run(case)


@facet(P, "aux_iva_models", cases(["AuxLaplaceIVA", "AuxGaussIVA"]), quick=2000, thorough=30000, shards=4, rule=RULE)
def aux_iva_models(case):
    return run(case)
