"""Options and special cases that describe the same model give the same result."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.harness import Skip, Violation, facet
from pbt.props import c16

P = "C18"
SCALES = [True, "projection_back", "minimal_distortion_principle"]


def go(case, cfg, X, kw, over=None, n_iter=None):
    o = {}
    if M.has_scale(cfg):
        o["scale_restoration"] = case["restore"]
    if M.has_reference(cfg):
        o["reference_id"] = case["ref"] % case["N"]
    if cfg["cls"] in ("GaussMNMF", "FastGaussMNMF"):
        o["flooring_fn"] = lambda x: np.maximum(x, 1e-15)
    o.update(over or {})
    m = M.build(cfg, case["seed"] % 1000, **o)
    return m, m(X, n_iter=case["n_iter"] if n_iter is None else n_iter, **c16.copy(kw))


def same(case, cfg, X, kw, got, want, what, over=None, tol=1e-5):
    e = gen.rel_err(got, want)
    if e < tol:
        return
    rng = np.random.default_rng(0)
    for eps, limit in c16.CHAOS:
        try:
            _, o2 = go(case, cfg, X * (1 + eps * rng.uniform(-1, 1, X.shape)), kw, over)
            _, o1 = go(case, cfg, X, kw, over)
        except np.linalg.LinAlgError:
            raise Skip
        if not gen.rel_err(o2, o1) < limit:
            raise Skip  # the run amplifies rounding errors
    raise Violation("%s: relative difference %.3g" % (what, e))


def cases(fams, **kw):
    d = dict(n_iter=st.integers(0, 4), ref=st.integers(0, 4), scale=st.just(1.0), layout=st.just("C"), restore=st.sampled_from(SCALES))
    d.update(kw)
    return lambda: M.case_for(fams, N=(2, 3), I=(2, 5), J=(30, 45), **d)


NORM = ["GaussILRMA", "TILRMA", "GGDILRMA", "GaussIPSDTA", "TIPSDTA", "GaussMNMF", "FastGaussMNMF", "CACGMM"]


@facet(P, "normalization", cases(NORM, other=st.sampled_from([True, "power", "projection_back", False])), quick=2500, thorough=40000, shards=5,
       rule="classes with a normalisation option: the scale-restored output does not depend on whether and how the parameters are normalised; "
            "equal options and partitioned bases are trivial; all others evaluated")
def normalization(case):
    cfg = case["cfg"]
    X = M.mixture_for(case)
    kw = c16.start(case, X)
    other = case["other"] if "ILRMA" in cfg["cls"] else not cfg["norm"]
    if "IPSDTA" in cfg["cls"]:
        other = not cfg["norm"]
    if other == cfg["norm"] or {other, cfg["norm"]} == {True, "power"}:
        return None
    if cfg.get("part"):
        # partitioned sources share their bases, which a normalisation rescales jointly with the latent variables
        return None
    over = {}
    if cfg["cls"] == "CACGMM":
        over["permutation_alignment"] = False
    try:
        m, a = go(case, cfg, X, kw, over)
    except np.linalg.LinAlgError:
        raise Skip
    if cfg["cls"] == "CACGMM" and np.max(np.linalg.cond(m.covariance)) > 1e5:
        raise Skip  # a component collapsed onto a few frames; its eigenvalues are floored
    _, b = go(case, dict(cfg, norm=other), X, kw, over)
    same(case, cfg, X, kw, b, a, "normalization=%r instead of %r changes the restored output" % (other, cfg["norm"]), over)
    return [cfg["cls"], "sa=%s" % cfg.get("sa"), "%s-%s" % (cfg["norm"], other)]


# (generic configuration, special configuration)
def pairs():
    step = st.sampled_from([0.01, 0.1])
    hol = st.sampled_from([None, True, False])
    sa2 = st.sampled_from(["IP", "IP1", "IP2"])
    sa4 = st.sampled_from(["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2"])
    sa5 = st.sampled_from(["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"])
    D, J = st.fixed_dictionaries, st.just
    p = st.sampled_from(M.PAIRS)
    relax = st.sampled_from([1, 1.5])
    K = st.integers(1, 3)
    return st.one_of(
        D({"cls": st.sampled_from(["GradLaplaceFDICA", "NaturalGradLaplaceFDICA", "GradLaplaceIVA", "NaturalGradLaplaceIVA"]), "step": step, "hol": hol}),
        D({"cls": J("AuxLaplaceFDICA"), "sa": sa2, "pairs": p}),
        D({"cls": J("AuxLaplaceIVA"), "sa": sa5, "pairs": p, "newton": st.sampled_from([None, 1, 3])}),
        D({"cls": st.sampled_from(["PDSIVA", "ADMMIVA"]), "relax": relax}),
        D({"cls": J("TILRMA"), "K": K, "sa": sa4, "src": J("MM"), "p": st.sampled_from([2, 1, 1.5]), "part": st.booleans(), "norm": st.booleans(), "pairs": p,
           "dof": J(1e20)}),
        D({"cls": J("TIPSDTA"), "K": K, "blocks": st.integers(1, 3), "norm": st.booleans(), "dof": J(1e20)}),
        D({"cls": J("GGDILRMA"), "K": K, "sa": sa4, "p": J(2), "part": st.booleans(), "norm": st.booleans(), "pairs": p, "beta": J(2 - 1e-9)}),
        D({"cls": st.sampled_from(["GradLaplaceICA", "NaturalGradLaplaceICA"]), "step": step, "hol": hol}),
        D({"cls": st.sampled_from(["HVA", "MaskingPDSHVA", "MaskingADMMHVA"]), "relax": relax, "mask_iter": st.integers(1, 2)}),
    )


@facet(P, "special_cases", lambda: st.fixed_dictionaries(dict(
    gen.base_case(N=(2, 3), I=(2, 5), J=(30, 45), scales=(1.0,), layouts=("C",)), cfg=pairs(), n_iter=st.integers(0, 4), ref=st.integers(0, 4),
    restore=st.sampled_from(SCALES + [False]))), quick=2500, thorough=40000, shards=5,
    rule="Laplacian classes = generic class with that contrast, PDS/ADMM-IVA = PDS/ADMM with the l2,1 penalty, Student's t with huge degrees of freedom = Gauss, "
         "GGD with shape parameter near 2 = Gauss, HVA classes = masking PDS/ADMM with their mask; all evaluated")
def special_cases(case):
    cfg = case["cfg"]
    c = cfg["cls"]
    if cfg.get("part") and cfg["K"] == 1:  # proportional variances: pairwise updates have no unique solution
        cfg = dict(cfg, K=2)
    over, tol = {}, 1e-6
    if "Laplace" in c:
        gcfg = dict(cfg, cls=c.replace("Laplace", ""), contrast="laplace")
        if "ICA" in c and "FDICA" not in c:
            gcfg = dict(cfg, cls=c.replace("Laplace", ""), rcontrast="laplace")
            over = {"contrast_fn": np.abs, "score_fn": np.sign}
    elif c in ("PDSIVA", "ADMMIVA"):
        gcfg = dict(cfg, cls=c.replace("IVA", "BSS"), pen="l21")
    elif c in ("TILRMA", "TIPSDTA"):
        gcfg, tol = {k: v for k, v in cfg.items() if k != "dof"}, 1e-5
        gcfg["cls"] = c.replace("T", "Gauss", 1)
    elif c == "GGDILRMA":
        # the multiplicative exponents of the two derivations differ: only the spatial updates coincide
        gcfg, tol = {k: v for k, v in cfg.items() if k != "beta"}, 1e-5
        gcfg.update(cls="GaussILRMA", src="MM")
    else:
        # the mask of an object of the class, handed to the generic masking method
        gcfg = {"cls": "MaskingADMMBSS" if "ADMM" in c else "MaskingPDSBSS", "relax": cfg["relax"]}
        over = {"mask_fn": M.build(cfg, case["seed"] % 1000).mask_fn}
    X = M.mixture_for(case)
    kw = c16.start(dict(case, cfg=cfg), X)
    try:
        a = go(case, cfg, X, kw)
        b = go(case, gcfg, X, kw, over)
    except np.linalg.LinAlgError:
        raise Skip
    same(case, cfg, X, kw, b[1], a[1], "%s differs from its general form %s" % (c, gcfg["cls"]), tol=tol)
    if getattr(a[0], "record_loss", False) and getattr(b[0], "record_loss", False) and c not in ("TILRMA", "TIPSDTA", "GGDILRMA"):
        la, lb = np.array(a[0].loss), np.array(b[0].loss)
        if not gen.rel_err(lb, la) < 1e-6:
            same(case, cfg, X, kw, b[1], a[1] * np.inf, "losses of %s and of its general form differ" % c)
    return [c, "sa=%s" % cfg.get("sa")]


@facet(P, "pairwise_two_sources", cases(["AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA", "GaussILRMA", "TILRMA", "GGDILRMA"]), quick=1000, thorough=15000, shards=3,
       rule="two sources: pairwise iterative projection and pairwise source steering solve the same problem; all evaluated")
def pairwise_two_sources(case):
    cfg = dict(case["cfg"], sa="IP2", pairs={"comb": "comb", "step2": "step2"}.get(case["cfg"]["pairs"], "reverse"))  # one pair per sweep
    if cfg.get("norm") == "projection_back":
        cfg["norm"] = "power"
    if cfg.get("part"):
        cfg["part"] = False
    case = dict(case, N=2)
    X = M.mixture_for(case)
    kw = c16.start(dict(case, cfg=cfg), X)
    try:
        _, a = go(case, cfg, X, kw)
    except np.linalg.LinAlgError:
        raise Skip
    _, b = go(case, dict(cfg, sa="ISS2"), X, kw)
    same(case, cfg, X, kw, b, a, "ISS2 differs from IP2 for two sources")
    return [cfg["cls"], "pairs=%s" % cfg["pairs"]]


@facet(P, "single_bin_blocks", cases(["GaussIPSDTA"]), quick=600, thorough=9000, shards=3,
       rule="Gauss-IPSDTA whose blocks are single bins is ILRMA with iterative projection; all evaluated")
def single_bin_blocks(case):
    cfg = dict(case["cfg"], blocks=case["I"])
    X = M.mixture_for(case)
    N, I, J = X.shape
    rng = gen.rng_of(case, 5)
    T = np.exp(rng.uniform(-1, 1, (N, I, cfg["K"])))
    V = np.exp(rng.uniform(-1, 1, (N, cfg["K"], J)))
    W = gen.demix_init(case, I, N)
    icfg = {"cls": cfg["cls"].replace("IPSDTA", "ILRMA"), "K": cfg["K"], "sa": "IP", "src": "MM", "p": 2, "part": False, "norm": False, "pairs": "default"}
    if "dof" in cfg:
        icfg["dof"] = cfg["dof"]
    kw = {"basis": T, "activation": V, "demix_filter": W}
    B = T.transpose(0, 2, 1)[..., None, None].astype(complex)  # (n_sources, n_basis, n_blocks, 1, 1)
    m, a = go(case, icfg, X, kw)
    _, b = go(case, cfg, X, {"basis": B, "activation": V, "demix_filter": W})
    same(case, icfg, X, kw, b, a, "IPSDTA with single-bin blocks differs from ILRMA")
    return [cfg["cls"]]


@facet(P, "dedicated_bases", cases(["GaussILRMA", "TILRMA", "GGDILRMA", "GaussMNMF"]), quick=1000, thorough=15000, shards=3,
       rule="partitioned bases with one-hot latent variables equal separate bases of every source; all evaluated")
def dedicated_bases(case):
    cfg = dict(case["cfg"], part=True, norm=False)
    N, K = M.n_src(case), cfg["K"]
    cfg["K"] = N * K
    X = M.mixture_for(case)
    _, I, J = X.shape
    rng = gen.rng_of(case, 5)
    T = np.exp(rng.uniform(-1, 1, (N, I, K)))
    V = np.exp(rng.uniform(-1, 1, (N, K, J)))
    kw = {} if cfg["cls"] == "GaussMNMF" else {"demix_filter": gen.demix_init(case, I, N)}
    if cfg["cls"] == "GaussMNMF":
        kw["spatial"] = gen.hpd(rng, (N, I), case["N"])
    Z = np.repeat(np.eye(N), K, axis=1)
    part = dict(kw, basis=T.transpose(1, 0, 2).reshape(I, N * K), activation=V.reshape(N * K, J), latent=Z)
    sep = dict(kw, basis=T, activation=V)
    scfg = dict(cfg, part=False, K=K)
    over = {"flooring_fn": lambda x: np.maximum(x, 1e-20)}
    _, a = go(case, scfg, X, sep, over)
    _, b = go(case, cfg, X, part, over)
    same(case, scfg, X, sep, b, a, "one-hot latent variables differ from separate bases", over)
    return [cfg["cls"], "sa=%s" % cfg.get("sa"), "src=%s" % cfg.get("src")]
