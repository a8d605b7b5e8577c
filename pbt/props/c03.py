"""Recorded losses are the documented objective of the state they are recorded for."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt import methods as M
from pbt.harness import Skip, Violation, facet
from pbt.objectives import objective

P = "C03"
NOLOSS = {"MaskingPDSBSS", "MaskingADMMBSS", "HVA", "MaskingPDSHVA", "MaskingADMMHVA"}
FAMS = [f for f in M.ALL if f not in ("MaskingPDSBSS", "MaskingADMMBSS", "HVA")]


class LossTrace(M.Trace):
    """Records the state together with the loss list seen by the callback."""

    def __init__(self):
        super().__init__()
        self.losses, self.white, self.again = [], None, []

    def __call__(self, method):
        super().__call__(method)
        self.losses.append(list(method.loss))
        if hasattr(method, "whitened_input"):
            self.white = method.whitened_input


def prox_penalties(cfg):
    if cfg["cls"] in ("PDSIVA", "ADMMIVA"):
        return [M.l21_penalty]
    return [{"l21": M.l21_penalty, "l1": M.l1_penalty}[p] for p in cfg["pen"].split("+")]


def mk(families, short=2):
    return lambda: M.case_for(families, N=(2, 3), I=(1, 5), J=(25, 45), short=short, far=True, level=True, n_iter=gen.iters(0, 4), given=st.booleans(),
                              scale=st.sampled_from([1.0, 0.3, 10.0, 1.0, 1e-4, 1e5]), restore=st.booleans(), init_call=st.booleans(),
                              floor=st.sampled_from(["default", "default", "default", "tiny"]))


def check(case):
    cfg = case["cfg"]
    X = M.mixture_for(case)
    N = case["N"]
    n_iter = case["n_iter"]
    tr = LossTrace()
    kw = {"callbacks": tr, "record_loss": True}
    if M.has_scale(cfg):
        kw["scale_restoration"] = case["restore"] and not (cfg["cls"].startswith("ADMM") and n_iter < 2)
    if "FDICA" in cfg["cls"] or cfg["cls"] == "CACGMM":
        kw["permutation_alignment"] = case["restore"]
    if case["floor"] == "tiny" and cfg["cls"] not in M.PROX and not cfg["cls"].endswith("ICA"):
        kw["flooring_fn"] = lambda x: np.maximum(x, 1e-13)
    m = M.build(cfg, case["seed"] % 1000, **kw)
    call = {}
    if case["given"] and cfg["cls"] not in M.MULTI_CLS:
        if cfg["cls"] in M.ICA_CLS:
            call["demix_filter"] = np.linalg.qr(gen.rng_of(case, 5).standard_normal((N, N)))[0]
        elif cfg["cls"] in M.WHITE:
            call["demix_filter"] = gen.unitary(gen.rng_of(case, 5), case["I"], N)
        else:
            call["demix_filter"] = gen.demix_init(case, case["I"], N)
    first = True
    if not case["init_call"] and "IPSDTA" not in cfg["cls"]:
        call["initial_call"] = first = False
    m(X, n_iter=n_iter, **call)
    want = n_iter + int(first)
    if not isinstance(m.loss, list) or len(m.loss) != want or len(tr.states) != want:
        raise Violation("%s losses for %d states" % (m.loss if m.loss is None else len(m.loss), want))
    tags = []
    done = 0
    for k, s in enumerate(tr.states):
        if len(tr.losses[k]) != k + 1 or tr.losses[k] != m.loss[:k + 1]:
            raise Violation("the loss list seen by callback %d is not the first %d recorded losses" % (k, k + 1))
        try:
            L = objective(cfg, X, s, white=tr.white, penalties=prox_penalties(cfg) if cfg["cls"] in M.PROX else None)
        except (Skip, np.linalg.LinAlgError):
            tags.append("floored state not compared")
            continue
        if not np.isfinite(L):
            tags.append("singular state not compared")
            continue
        done += 1
        if type(m.loss[k]) is not float:
            raise Violation("the loss of state %d is a %s" % (k, type(m.loss[k])))
        scale = max(1.0, abs(L))
        if not abs(m.loss[k] - L) < 1e-6 * scale:
            raise Violation("the loss of state %d is recorded as %.12g, the documented objective is %.12g" % (k, m.loss[k], L))
    if not done and want:
        raise Skip
    return tags + [cfg["cls"], "sa=%s" % cfg.get("sa"), "first=%s" % first, "ns=%s" % cfg.get("ns")]


RULE = "all classes with a loss, random options, mixtures and starting filters; every recorded loss recomputed from the public state; at least one state compared"


@facet(P, "ica_fdica_iva", mk([f for f in FAMS if "ICA" in f or "IVA" in f and not f.startswith(("PDS", "ADMM"))]), quick=5000, thorough=80000, shards=6, rule=RULE)
def ica_fdica_iva(case):
    return check(case)


@facet(P, "ilrma", mk(["GaussILRMA", "TILRMA", "GGDILRMA"]), quick=4000, thorough=60000, shards=5, rule=RULE)
def ilrma_loss(case):
    return check(case)


@facet(P, "ipsdta_mnmf_cacgmm", mk(["GaussIPSDTA", "TIPSDTA", "GaussMNMF", "FastGaussMNMF", "CACGMM"], short=None), quick=3000, thorough=50000, shards=5, rule=RULE)
def ipsdta_mnmf_cacgmm(case):
    return check(case)


@facet(P, "proximal", mk(["PDSBSS", "ADMMBSS", "PDSIVA", "ADMMIVA"]), quick=1500, thorough=25000, shards=3, rule=RULE)
def proximal(case):
    return check(case)
