"""Majorisation-minimisation and EM methods never increase their objective."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt import methods as M
from pbt.harness import Skip, Violation, facet
from pbt.objectives import objective, separated

P = "C02"
AUX = ["AuxFDICA", "AuxLaplaceFDICA", "AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA"]


def mk(families, J=(30, 50), n=8, short=3):
    return lambda: M.case_for(families, N=(2, 4), I=(1, 5), J=J, short=short, far=True, level=short is not None, n_iter=st.integers(1, n), given=st.booleans(),
                              scale=st.sampled_from([1.0, 0.3, 10.0]))


def check(case):
    cfg = case["cfg"]
    X = M.mixture_for(case)
    tr = M.Trace()
    kw = {"callbacks": tr, "record_loss": True}
    if M.has_scale(cfg):
        kw["scale_restoration"] = False
    if "FDICA" in cfg["cls"] or cfg["cls"] == "CACGMM":
        kw["permutation_alignment"] = False
    m = M.build(cfg, case["seed"] % 1000, **kw)
    call = {}
    if case["given"] and cfg["cls"] not in M.MULTI_CLS:
        call["demix_filter"] = gen.demix_init(case, case["I"], case["N"])
    m(X, n_iter=case["n_iter"], **call)
    val, tags = [], []
    for s in tr.states:
        try:
            v = objective(cfg, X, s)
            if M.has_scale(cfg) and "IPSDTA" not in cfg["cls"]:
                # an output sample fitted to (nearly) zero: weights beyond the flooring and rounding
                r = np.abs(separated(cfg, X, s)[1])
                if not np.min(r) > 1e-5 * np.max(r):
                    break
            val.append(v)
        except (Skip, np.linalg.LinAlgError):
            break
    if len(val) < len(tr.states):
        tags.append("stopped at a floored state")
    if len(val) < 2:
        raise Skip
    if not np.all(np.isfinite(val)):
        raise Violation("objective is not finite: %s" % val)
    start = 1 if cfg["cls"] == "AuxGaussIVA" else 0  # the variance is first estimated in iteration 1
    for k in range(start, len(val) - 1):
        tol = 1e-6 * max(1.0, abs(val[k]))
        if not val[k + 1] <= val[k] + tol:
            raise Violation("iteration %d increases the objective from %.10g to %.10g" % (k + 1, val[k], val[k + 1]))
        if not m.loss[k + 1] <= m.loss[k] + tol:
            raise Violation("iteration %d increases the recorded loss from %.10g to %.10g" % (k + 1, m.loss[k], m.loss[k + 1]))
    if val[start] - val[-1] > 1e-3 * abs(val[start]):
        tags.append("decreased")
    return tags + [cfg["cls"], "sa=%s" % cfg.get("sa"), "N=%d" % case["N"], "norm=%s" % cfg.get("norm"), "part=%s" % cfg.get("part")]


RULE = "random options, mixtures and starting filters; the objective of each iteration's public state is compared with the next; at least two states compared"


@facet(P, "aux", mk(AUX), quick=3000, thorough=50000, shards=5, rule=RULE)
def aux(case):
    return check(case)


@facet(P, "ilrma", mk(["GaussILRMA", "TILRMA", "GGDILRMA"]), quick=4000, thorough=60000, shards=6, rule=RULE)
def ilrma(case):
    return check(case)


@facet(P, "ipsdta", mk(["GaussIPSDTA", "TIPSDTA"], n=5, short=None), quick=1500, thorough=25000, shards=4, rule=RULE)
def ipsdta(case):
    return check(case)


@facet(P, "mnmf_cacgmm", mk(["GaussMNMF", "FastGaussMNMF", "CACGMM"]), quick=2000, thorough=30000, shards=4, rule=RULE)
def mnmf_cacgmm(case):
    return check(case)
