"""Catalogue of the separation methods: configurations are JSON dictionaries."""

import functools

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from ssspy.bss import cacgmm, fdica, hva, ica, ilrma, ipsdta, iva, mnmf
from ssspy.bss.admmbss import ADMMBSS, MaskingADMMBSS
from ssspy.bss.pdsbss import PDSBSS, MaskingPDSBSS
from ssspy.utils.select_pair import combination_pair_selector, sequential_pair_selector

# ------------------------------------------------------------------------- contrast functions
# G(r), G'(r), G''(r) as functions of a magnitude r >= 0; G'(r)/r non-increasing (super-Gaussian)
G = {
    "laplace": (lambda r: 2 * r, lambda r: 2 * np.ones_like(r), lambda r: np.zeros_like(r)),
    "pow": (lambda r: 2 * r**1.5, lambda r: 3 * r**0.5, lambda r: 1.5 * r**-0.5),
    "logcosh": (
        lambda r: 2 * (np.logaddexp(r, -r) - np.log(2)),
        lambda r: 2 * np.tanh(r),
        lambda r: 2 * (1 - np.tanh(r) ** 2),
    ),
    "cauchy": (
        lambda r: 2 * np.log1p(r**2),
        lambda r: 4 * r / (1 + r**2),
        lambda r: 4 * (1 - r**2) / (1 + r**2) ** 2,
    ),
    # a proper density of complex vectors over up to 15 bins (the Cauchy contrast is one for single bins only)
    "student": (
        lambda r: 16 * np.log1p(r**2),
        lambda r: 32 * r / (1 + r**2),
        lambda r: 32 * (1 - r**2) / (1 + r**2) ** 2,
    ),
}
CONTRASTS = ["laplace", "pow", "logcosh", "cauchy"]


def elementwise(name):
    """(contrast_fn, score_fn, d_contrast_fn) for frequency-domain ICA."""
    g, dg, _ = G[name]

    def contrast(y):
        return g(np.abs(y))

    def score(y):
        r = np.maximum(np.abs(y), 1e-12)
        return dg(r) * y / (2 * r)

    def d_contrast(r):
        return dg(r)

    return contrast, score, d_contrast


def vector(name):
    """(contrast_fn, score_fn, d_contrast_fn, dd_contrast_fn) for IVA, spectrogram (N, I, J)."""
    g, dg, ddg = G[name]

    def contrast(y):
        return g(np.linalg.norm(y, axis=1))

    def score(y):
        r = np.maximum(np.linalg.norm(y, axis=1, keepdims=True), 1e-12)
        return dg(r) * y / (2 * r)

    return contrast, score, (lambda r: dg(r)), (lambda r: ddg(np.maximum(r, 1e-12)))


# ------------------------------------------------------------------------------ pair selectors
def comb_sorted(n_sources):
    return combination_pair_selector(n_sources)


def reverse_pairs(n_sources):
    for m in range(n_sources - 1, 0, -1):
        yield m, m - 1


PAIRS = ["default", "seq", "step2", "comb", "reverse"]


def pair_selector(name):
    return {"default": None, "seq": sequential_pair_selector,
            "step2": functools.partial(sequential_pair_selector, step=2),
             "comb": comb_sorted, "reverse": reverse_pairs}[name]


def pair_list(name, N):
    """Explicit model of the pairs visited in one sweep."""
    if name == "default":
        name = "seq"
    if name == "seq":
        return [(i, (i + 1) % N) for i in range(N)]
    if name == "step2":
        return [(i, (i + 1) % N) for i in range(0, N, 2)]
    if name == "comb":
        return [(i, j) for i in range(N) for j in range(i + 1, N)]
    return [(m, m - 1) for m in range(N - 1, 0, -1)]


# ------------------------------------------------------------------------------------- tracing
ATTRS = ["demix_filter", "output", "basis", "activation", "latent", "variance", "dual", "auxiliary1", "auxiliary2",
         "dual1", "dual2", "spatial", "diagonalizer", "mixing", "covariance", "posterior"]


class Trace:
    """Callback recording copies of the public state."""

    def __init__(self, attrs=None):
        self.attrs = ATTRS if attrs is None else attrs
        self.states = []

    def __call__(self, method):
        s = {}
        for a in self.attrs:
            if hasattr(method, a):
                v = getattr(method, a)
                if isinstance(v, np.ndarray):
                    v = v.copy()
                elif isinstance(v, (tuple, list)) and v and isinstance(v[0], np.ndarray):
                    v = tuple(x.copy() for x in v)
                s[a] = v
        self.states.append(s)


def l21_prox(y, step_size=1):
    n = np.linalg.norm(y, axis=1, keepdims=True)
    return y * np.maximum(1 - step_size / np.maximum(n, 1e-300), 0)


def l1_prox(y, step_size=1):
    n = np.abs(y)
    return y * np.maximum(1 - step_size / np.maximum(n, 1e-300), 0)


def l21_penalty(y):
    return float(np.sum(np.linalg.norm(y, axis=1)))


def l1_penalty(y):
    return float(np.sum(np.abs(y)))


FREE = {"ISS", "ISS1", "ISS2", "IPA"}  # spatial algorithms that keep no demixing filter


def is_free(cfg):
    return cfg.get("sa") in FREE


# ------------------------------------------------------------------------------------ catalogue
def configs(families=None, **fixed):
    """Strategy of method configurations."""
    sa5 = st.sampled_from(["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"])
    sa4 = st.sampled_from(["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2"])
    sa2 = st.sampled_from(["IP", "IP1", "IP2"])
    contrast = st.sampled_from(CONTRASTS)
    pairs = st.sampled_from(PAIRS)
    step = st.sampled_from([0.01, 0.1])
    hol = st.sampled_from([None, True, False])
    K = gen.mostly(1, 3, 6)
    norm = st.sampled_from([True, "power", "projection_back", False])
    part = st.booleans()
    dom = st.sampled_from([2, 2, 2, 1, 1.5, 1.2])
    mm = st.sampled_from(["MM", "ME"])
    D = st.fixed_dictionaries
    J = st.just
    fam = {
        "GradFDICA": D({"cls": st.sampled_from(["GradFDICA", "NaturalGradFDICA"]), "contrast": contrast, "step": step, "hol": hol}),
        "GradLaplaceFDICA": D({"cls": st.sampled_from(["GradLaplaceFDICA", "NaturalGradLaplaceFDICA"]), "step": step, "hol": hol}),
        "AuxFDICA": D({"cls": J("AuxFDICA"), "contrast": contrast, "sa": sa2, "pairs": pairs}),
        "AuxLaplaceFDICA": D({"cls": J("AuxLaplaceFDICA"), "sa": sa2, "pairs": pairs}),
        "GradIVA": D({"cls": st.sampled_from(["GradIVA", "NaturalGradIVA"]), "contrast": contrast, "step": step, "hol": hol}),
        "GradLaplaceIVA": D({"cls": st.sampled_from(["GradLaplaceIVA", "NaturalGradLaplaceIVA"]), "step": step, "hol": hol}),
        "GradGaussIVA": D({"cls": st.sampled_from(["GradGaussIVA", "NaturalGradGaussIVA"]), "step": step, "hol": hol}),
        "FastIVA": D({"cls": J("FastIVA"), "contrast": contrast}),
        "FasterIVA": D({"cls": J("FasterIVA"), "contrast": contrast}),
        "AuxIVA": D({"cls": J("AuxIVA"), "contrast": contrast, "sa": sa5, "pairs": pairs, "newton": st.sampled_from([None, 1, 3, 7])}),
        "AuxLaplaceIVA": D({"cls": J("AuxLaplaceIVA"), "sa": sa5, "pairs": pairs, "newton": st.sampled_from([None, 1, 3, 7])}),
        "AuxGaussIVA": D({"cls": J("AuxGaussIVA"), "sa": sa5, "pairs": pairs, "newton": st.sampled_from([None, 1, 3, 7])}),
        "GaussILRMA": D({"cls": J("GaussILRMA"), "K": K, "sa": sa5, "src": mm, "p": dom, "part": part, "norm": norm, "pairs": pairs,
                         "newton": st.sampled_from([None, 1, 3, 7])}),
        "TILRMA": D({"cls": J("TILRMA"), "K": K, "sa": sa4, "src": mm, "p": dom, "part": part, "norm": norm, "pairs": pairs,
                     "dof": st.sampled_from([1, 4, 100, 0.5, 2.5])}),
        "GGDILRMA": D({"cls": J("GGDILRMA"), "K": K, "sa": sa4, "p": dom, "part": part, "norm": norm, "pairs": pairs,
                       "beta": st.sampled_from([0.5, 1, 1.9, 0.4, 1.4])}),
        "GaussIPSDTA": D({"cls": J("GaussIPSDTA"), "K": K, "blocks": gen.mostly(1, 3, 6), "norm": st.booleans()}),
        "TIPSDTA": D({"cls": J("TIPSDTA"), "K": K, "blocks": gen.mostly(1, 3, 6), "norm": st.booleans(), "dof": st.sampled_from([1, 4, 100, 0.5, 2.5])}),
        "GaussMNMF": D({"cls": J("GaussMNMF"), "K": K, "part": part, "norm": st.booleans()}),
        "FastGaussMNMF": D({"cls": J("FastGaussMNMF"), "K": K, "sa": sa2, "norm": st.booleans(), "pairs": pairs}),
        "CACGMM": D({"cls": J("CACGMM"), "norm": st.booleans(), "perm": st.booleans()}),
        "PDSBSS": D({"cls": J("PDSBSS"), "pen": st.sampled_from(["l21", "l1", "l21+l1", "l1+l21+l1"]), "mu1": st.sampled_from([1, 0.4]), "mu2": st.sampled_from([1, 0.5, 2]), "relax": st.sampled_from([1, 1.5, 0.6])}),
        "ADMMBSS": D({"cls": J("ADMMBSS"), "pen": st.sampled_from(["l21", "l1", "l21+l1", "l1+l21+l1"]), "rho": st.sampled_from([1, 2, 0.5]), "relax": st.sampled_from([1, 1.5, 0.6])}),
        "PDSIVA": D({"cls": J("PDSIVA"), "relax": st.sampled_from([1, 1.5, 0.6])}),
        "ADMMIVA": D({"cls": J("ADMMIVA"), "relax": st.sampled_from([1, 1.5, 0.6])}),
        "MaskingPDSBSS": D({"cls": J("MaskingPDSBSS"), "relax": st.sampled_from([1, 1.5, 0.6])}),
        "MaskingADMMBSS": D({"cls": J("MaskingADMMBSS"), "relax": st.sampled_from([1, 1.5, 0.6])}),
        "HVA": D({"cls": st.sampled_from(["HVA", "MaskingPDSHVA", "MaskingADMMHVA"]), "relax": st.sampled_from([1, 1.5, 0.6]),
                  "mask_iter": st.integers(1, 4)}),
    }
    fam.update({
        "GradICA": D({"cls": st.sampled_from(["GradICA", "NaturalGradICA"]), "rcontrast": st.sampled_from(["laplace", "logcosh", "cauchy"]),
                      "step": step, "hol": hol}),
        "GradLaplaceICA": D({"cls": st.sampled_from(["GradLaplaceICA", "NaturalGradLaplaceICA"]), "step": step, "hol": hol}),
        "FastICA": D({"cls": J("FastICA"), "rcontrast": J("logcosh")}),
    })
    fams = [f for f in fam if not f.endswith("ICA") or "FDICA" in f] if families is None else families
    return st.one_of([fam[f] for f in fams])


PROX = {"PDSBSS", "ADMMBSS", "PDSIVA", "ADMMIVA", "MaskingPDSBSS", "MaskingADMMBSS", "HVA", "MaskingPDSHVA", "MaskingADMMHVA"}
DETERMINED = ["GradFDICA", "GradLaplaceFDICA", "AuxFDICA", "AuxLaplaceFDICA", "GradIVA", "GradLaplaceIVA", "GradGaussIVA",
              "FastIVA", "FasterIVA", "AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA", "GaussILRMA", "TILRMA", "GGDILRMA",
              "GaussIPSDTA", "TIPSDTA"]
PROXFAM = ["PDSBSS", "ADMMBSS", "PDSIVA", "ADMMIVA", "MaskingPDSBSS", "MaskingADMMBSS", "HVA"]
RANDOM = {"GaussILRMA", "TILRMA", "GGDILRMA", "GaussIPSDTA", "TIPSDTA", "GaussMNMF", "FastGaussMNMF", "CACGMM"}


ICA = ["GradICA", "GradLaplaceICA", "FastICA"]
ICA_CLS = {"GradICA", "NaturalGradICA", "GradLaplaceICA", "NaturalGradLaplaceICA", "FastICA"}
WHITE = {"FastICA", "FastIVA", "FasterIVA"}  # filters act on the whitened input
MULTI = ["GaussMNMF", "FastGaussMNMF", "CACGMM"]  # no demixing filter, reference channel output
MULTI_CLS = set(MULTI)
ALL = DETERMINED + PROXFAM + MULTI + ICA


def has_filter(cfg):
    return cfg["cls"] not in MULTI_CLS and not is_free(cfg)


def has_scale(cfg):
    """Does the class take scale_restoration?"""
    return cfg["cls"] not in MULTI_CLS and cfg["cls"] not in ICA_CLS


def has_reference(cfg):
    return cfg["cls"] not in ICA_CLS


def valid(cfg):
    """Documented restrictions between options."""
    if cfg.get("src") == "ME" and cfg.get("p", 2) != 2:
        return False
    if cfg.get("norm") == "projection_back" and cfg.get("part"):
        return False
    return True


def fix(cfg):
    """Map a configuration onto the nearest valid one."""
    cfg = dict(cfg)
    if cfg.get("src") == "ME":
        cfg["p"] = 2
    if cfg.get("norm") == "projection_back" and cfg.get("part"):
        cfg["part"] = False
    if cfg.get("contrast") == "cauchy" and "IVA" in cfg["cls"]:
        cfg["contrast"] = "student"
    return cfg


def build(cfg, seed=0, rng=None, **over):
    """Instantiate; ``over`` are constructor arguments (callbacks, scale_restoration, ...)."""
    c = cfg["cls"]
    kw = {}
    if c in RANDOM:
        kw["rng"] = np.random.default_rng(seed) if rng is None else rng
    if "step" in cfg:
        kw["step_size"] = cfg["step"]
        if cfg["hol"] is not None:
            kw["is_holonomic"] = cfg["hol"]
    if "rcontrast" in cfg:
        g, dg, ddg = G[cfg["rcontrast"]]
        kw.update(contrast_fn=lambda y: g(np.abs(y)) / 2, score_fn=lambda y: dg(np.abs(y)) * np.sign(y) / 2)
        if c == "FastICA":
            kw["d_score_fn"] = lambda y: ddg(np.abs(y)) / 2
    if c in ("GradFDICA", "NaturalGradFDICA"):
        f, s, _ = elementwise(cfg["contrast"])
        kw.update(contrast_fn=f, score_fn=s)
    elif c == "AuxFDICA":
        f, _, d = elementwise(cfg["contrast"])
        kw.update(contrast_fn=f, d_contrast_fn=d)
    elif c in ("GradIVA", "NaturalGradIVA"):
        f, s, _, _ = vector(cfg["contrast"])
        kw.update(contrast_fn=f, score_fn=s)
    elif c == "FastIVA":
        f, _, d, dd = vector(cfg["contrast"])
        kw.update(contrast_fn=f, d_contrast_fn=d, dd_contrast_fn=dd)
    elif c in ("FasterIVA", "AuxIVA"):
        f, _, d, _ = vector(cfg["contrast"])
        kw.update(contrast_fn=f, d_contrast_fn=d)
    if "sa" in cfg:
        kw["diagonalizer_algorithm" if c == "FastGaussMNMF" else "spatial_algorithm"] = cfg["sa"]
    if "pairs" in cfg and pair_selector(cfg["pairs"]) is not None:
        kw["pair_selector"] = pair_selector(cfg["pairs"])
    if cfg.get("sa") == "IPA" and cfg.get("newton") is not None:
        kw["newton_iter"] = cfg["newton"]
    if "K" in cfg:
        kw["n_basis"] = cfg["K"]
    if "src" in cfg:
        kw["source_algorithm"] = cfg["src"]
    if "p" in cfg:
        kw["domain"] = cfg["p"]
    if "part" in cfg:
        kw["partitioning"] = cfg["part"]
    if "norm" in cfg:
        kw["source_normalization" if "IPSDTA" in c else "normalization"] = cfg["norm"]
    for a in ("dof", "beta"):
        if a in cfg:
            kw[a] = cfg[a]
    if cfg.get("ns"):
        kw["n_sources"] = cfg["ns"]
    if "blocks" in cfg:
        kw["n_blocks"] = cfg["blocks"]
    if "perm" in cfg:
        kw["permutation_alignment"] = cfg["perm"]
    if "relax" in cfg:
        kw["relaxation"] = cfg["relax"]
    for a in ("mu1", "mu2", "rho", "mask_iter"):
        if a in cfg:
            kw[a] = cfg[a]
    if "pen" in cfg:
        fns = [{"l21": (l21_penalty, l21_prox), "l1": (l1_penalty, l1_prox)}[p] for p in cfg["pen"].split("+")]
        kw.update(zip(("penalty_fn", "prox_penalty"), fns[0] if len(fns) == 1 else map(list, zip(*fns))))
    if c in ("PDSIVA", "ADMMIVA"):
        kw.update(contrast_fn=lambda y: np.linalg.norm(y, axis=1), prox_penalty=l21_prox)
    if c in ("MaskingPDSBSS", "MaskingADMMBSS"):
        kw.update(mask_fn=lambda y: 1 / (1 + 1 / np.maximum(np.abs(y), 1e-12)))
    kw.update(over)
    cls = {
        "PDSBSS": PDSBSS, "ADMMBSS": ADMMBSS, "MaskingPDSBSS": MaskingPDSBSS, "MaskingADMMBSS": MaskingADMMBSS,
    }.get(c)
    if cls is None:
        for mod in (fdica, iva, ilrma, ipsdta, mnmf, cacgmm, hva, ica):
            if hasattr(mod, c) and getattr(mod, c).__module__ == mod.__name__:
                cls = getattr(mod, c)
                break
    return cls(**kw)


def case_for(families=None, N=(2, 3), I=(2, 5), J=(30, 45), wide=True, short=None, far=False, level=False, **kw):
    """level: one case in ten is a very loud or faint recording; short: one case in nine has few frames (from that multiple of N) and often more bins than frames; far: some have extreme model parameters."""
    d = gen.base_case(N=N, I=I, J=J, wide=wide)
    d["cfg"] = configs(families).map(fix)
    if short:
        d["short"] = st.one_of([st.none()] * 8 + [st.tuples(st.integers(0, 6), st.integers(0, 10))])
    if far:
        d["far"] = st.one_of([st.none()] * 7 + [st.integers(0, 5)])
    if level:
        d["level"] = st.one_of([st.none()] * 9 + [st.sampled_from([3e-4, 1e3])])
    d.update(kw)

    def shape(case):
        s, f, v = case.pop("short", None), case.pop("far", None), case.pop("level", None)
        if v and f is None:
            case = dict(case, scale=v)
        if s:
            case = dict(case, J=int(short * case["N"]) + s[0], I=case["I"] + s[1])
        if f is not None:
            cfg = dict(case["cfg"])
            if "p" in cfg and cfg.get("src") != "ME":
                cfg["p"] = [0.2, 0.3, 0.5][f % 3]
            if "dof" in cfg:
                cfg["dof"] = [0.2, 1000][f % 2]
            if "beta" in cfg:
                cfg["beta"] = [0.2, 0.3, 1.99][f % 3]
            case = dict(case, cfg=cfg, far=True)
        return case

    return st.fixed_dictionaries(d).map(shape).map(sources)


def n_src(case):
    return case["cfg"].get("ns") or case["N"]


def sources(case):
    """Mixture models sometimes have more or fewer sources than channels; blocks have at least one bin."""
    if case["cfg"].get("blocks", 0) > case["I"]:
        return dict(case, cfg=dict(case["cfg"], blocks=case["I"]))
    if case["cfg"]["cls"] in MULTI_CLS and not case["cfg"].get("ns"):
        extra = [0, 0, 0, 1, -1, 2][case["seed"] // 7 % 6]
        if extra:
            return dict(case, cfg=dict(case["cfg"], ns=case["N"] + extra))
    return case


def needs_small(cfg):
    """Proximal methods with unit steps need a spectrally normalised input."""
    return cfg["cls"] in PROX


def mixture_for(case, **kw):
    """Mixture; proximal methods get data with unit spectral norm per bin as documented."""
    if case["cfg"]["cls"] in ICA_CLS:
        return real_mixture(case, **kw)
    X = gen.mixture(case, **kw)
    if needs_small(case["cfg"]):
        n = np.max(np.linalg.norm(X.transpose(1, 0, 2), ord=2, axis=(1, 2)))
        X = X / n
    return X


def real_mixture(case, salt=0):
    """Time-domain mixture (channels, samples) of heavy-tailed sources."""
    rng = gen.rng_of(case, 1000 + salt)
    N, T = case["N"], case["I"] * case["J"]
    S = rng.laplace(size=(N, T)) * (0.5 + rng.random((N, 1)))
    q, _ = np.linalg.qr(rng.standard_normal((N, N)))
    A = q * np.exp(rng.uniform(-0.7, 0.7, size=N)) @ np.linalg.qr(rng.standard_normal((N, N)))[0]
    X = A @ S * case.get("scale", 1.0)
    if case.get("layout") == "F":
        X = np.asfortranarray(X)
    elif case.get("layout") == "view":
        X = np.repeat(X, 2, axis=1)[:, ::2]
    return X
