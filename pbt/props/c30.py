"""Equivalent ways of asking for a run give the same run; unsupported requests are refused."""
import functools
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt import methods as M
from pbt.harness import Skip, Violation, facet
from ssspy.bss import _flooring, _psd, _select_pair, _solve_permutation
from ssspy.special import add_flooring, identity, max_flooring, to_psd
from ssspy.algorithm.permutation_alignment import correlation_based_permutation_solver
from ssspy.utils.select_pair import combination_pair_selector, sequential_pair_selector

P = "C30"
PB = ["projection_back", "projection-back", "PB", True]
MDP = ["minimal_distortion_principle", "minimal-distortion-principle", "MDP"]
SA = {"IP": "IP1", "IP1": "IP", "ISS": "ISS1", "ISS1": "ISS"}
NFILT = {"ADMMBSS", "ADMMIVA", "MaskingADMMBSS", "MaskingADMMHVA"}
MODEL = {"MaskingPDSBSS", "MaskingADMMBSS", "HVA", "MaskingPDSHVA", "MaskingADMMHVA"}  # no flooring argument of their own


def spelled(case, which):
    """(cfg, constructor arguments, call arguments) of one of two equivalent spellings."""
    cfg = dict(case["cfg"])
    c = cfg["cls"]
    over, call = {}, {}
    aspects = case["aspects"]
    if M.has_reference(cfg):
        over["reference_id"] = case["ref"] % case["N"]
    if M.has_scale(cfg):
        names = PB if case["pb"] else MDP
        over["scale_restoration"] = names[case["spell"][which] % len(names)] if "scale" in aspects else names[0]
    cb = case["_cb"][which]
    if which and "callback" in aspects:
        over["callbacks"] = [cb]
    else:
        over["callbacks"] = cb
    if "sa" in aspects and which and cfg.get("sa") in SA:
        cfg["sa"] = SA[cfg["sa"]]
    if "norm" in aspects and which and cfg.get("norm") in (True, "power") and "ILRMA" in c:
        cfg["norm"] = "power" if cfg["norm"] is True else True
    if "floor" in aspects and c not in M.PROX and c not in M.ICA_CLS:
        kind = case["floor"]
        if kind == "default":
            if which:
                over["flooring_fn"] = functools.partial(max_flooring, eps=1e-10)
        elif kind == "none":
            over["flooring_fn"] = identity if which else None
        elif kind == "tiny":
            over["flooring_fn"] = (lambda x: np.maximum(x, 1e-14)) if which else functools.partial(max_flooring, eps=1e-14)
        else:
            over["flooring_fn"] = (lambda x: x + 1e-9) if which else functools.partial(add_flooring, eps=1e-9)
    if "pairs" in aspects and cfg.get("pairs") == "default" and which and cfg.get("sa") in ("IP2", "ISS2"):
        cfg["pairs"] = "seq"
    if "call" in aspects:
        if which:
            call["n_iter"] = 100 if case["long"] else case["n_iter"]
            if "IPSDTA" not in c:
                call["initial_call"] = True
        elif not case["long"]:
            call["n_iter"] = case["n_iter"]
    else:
        call["n_iter"] = case["n_iter"]
    if "relax" in cfg and "relaxation" in aspects and which:
        over["alpha"] = cfg.pop("relax")  # deprecated name
    if "aux" in aspects and c in NFILT:
        rng = gen.rng_of(case, 6)
        N, I, J = case["N"], case["I"], case["J"]
        names = ["auxiliary1", "auxiliary2"]
        if which:
            names = ["aux1", "aux2"]
        call[names[0]] = gen.demix_init(dict(case, init=True), I, N)
        if case["spell"][0] % 2:
            call[names[1]] = gen.cnormal(rng, *(((1,) if c == "ADMMBSS" else ()) + (N, I, J)))
        if c == "ADMMIVA" and names[1] in call:
            call[names[1]] = call[names[1]][None]
    return cfg, over, call


@facet(P, "spellings", lambda: M.case_for(M.ALL, N=(2, 3), I=(2, 4), J=(30, 40), n_iter=gen.iters(1, 3), ref=st.integers(0, 4), pb=st.booleans(),
                                          spell=st.lists(st.integers(0, 3), min_size=2, max_size=2), long=st.integers(0, 19).map(lambda k: k == 0),
                                          floor=st.sampled_from(["default", "none", "tiny", "add"]),
                                          aspects=st.lists(st.sampled_from(["scale", "callback", "sa", "norm", "floor", "pairs", "call", "repr", "same", "relaxation", "aux"]), min_size=1, max_size=11, unique=True)),
       quick=3000, thorough=40000, shards=6,
       rule="all classes: synonymous option values (keywords of the scale restoration, IP/IP1, ISS/ISS1, normalisation, flooring, pair selector, callback or "
            "list of one, defaults given explicitly, deprecated argument names), printing the object in between, and handing over positional arguments give identical states, losses and "
            "outputs; all evaluated")
def spellings(case):
    traces = [M.Trace(), M.Trace()]

    def talk(m):
        traces[1](m)
        repr(m), str(m)

    case = dict(case, _cb=[traces[0], talk if "repr" in case["aspects"] else traces[1]])
    X = M.mixture_for(case)
    res = []
    for which in (0, 1):
        cfg, over, call = spelled(case, which)
        m = M.build(cfg, case["seed"] % 1000, **over)
        if which and "repr" in case["aspects"]:
            r = repr(m)
            if not (isinstance(r, str) and r.endswith(")")):
                raise Violation("repr: %r" % (r,))
        if cfg["cls"].startswith(("ADMM", "MaskingADMM")) and call.get("n_iter", 9) < 2:
            call["n_iter"] = 2
        try:
            if which and "same" in case["aspects"] and "n_iter" in call:
                a = [call.pop("n_iter")]
                if "initial_call" in call:
                    a.append(call.pop("initial_call"))
                out = m(X, *a, **call)
            else:
                out = m(X, **call)
        except np.linalg.LinAlgError:
            raise Skip
        res.append((out, getattr(m, "loss", None)))
    if not np.array_equal(res[0][0], res[1][0], equal_nan=True):
        raise Violation("outputs differ by %.3g between equivalent spellings" % gen.rel_err(res[1][0], res[0][0]))
    if not np.array_equal(np.array(res[0][1], dtype=float), np.array(res[1][1], dtype=float), equal_nan=True):
        raise Violation("recorded losses differ between equivalent spellings")
    s, t = traces[0].states, traces[1].states
    if len(s) != len(t):
        raise Violation("numbers of callback calls differ: %d, %d" % (len(s), len(t)))
    for k, (a, b) in enumerate(zip(s, t)):
        for key in a:
            va, vb = a[key], b.get(key)
            va, vb = (va, vb) if isinstance(va, tuple) else ((va,), (vb,))
            for x, y in zip(va, vb):
                if (x is None) != (y is None) or x is not None and not np.array_equal(x, y, equal_nan=True):
                    raise Violation("%s in state %d differs between equivalent spellings" % (key, k))
    return [case["cfg"]["cls"]] + sorted(case["aspects"])


# --------------------------------------------------------------------------------- unsupported
BAD = ["IP3", "ISS0", "iss", "", "GD", "FPI", "PB"]


def corrupt(case, cfg):
    """Constructor arguments of a documented class that its documentation rules out, or None."""
    c = cfg["cls"]
    k, kind = case["pick"], case["kind_of"]
    over = {}
    if kind == "spatial":
        if "sa" not in cfg and "IPSDTA" not in c:
            return None
        bad = ([b for b in BAD if not (b == "FPI" and c == "GaussIPSDTA")] + (["IPA"] if c in ("TILRMA", "GGDILRMA") else []) +
               (["ISS", "ISS2", "IPA"] if "FDICA" in c or c == "FastGaussMNMF" else []))
        over["diagonalizer_algorithm" if c == "FastGaussMNMF" else "spatial_algorithm"] = bad[k % len(bad)]
    elif kind == "source":
        if "src" not in cfg and c != "GGDILRMA":
            return None
        over["source_algorithm"] = (["EM", "mm", ""] + (["ME"] if c == "GGDILRMA" else []))[k % (4 if c == "GGDILRMA" else 3)]
    elif kind == "domain":
        if "p" not in cfg:
            return None
        over["domain"] = [0, -1, 2.5, 3][k % 4]
    elif kind == "me_domain":
        if "src" not in cfg:
            return None
        over.update(source_algorithm="ME", domain=[1, 1.5, 0.5][k % 3])
    elif kind == "shape":
        if c != "GGDILRMA":
            return None
        over["beta"] = [0, 2, -0.5, 2.5][k % 4]
    elif kind == "normalization":
        if "ILRMA" not in c:
            return None
        over["normalization"] = ["projection", "max", "l1"][k % 3]
    elif kind == "keyword":
        if c in ("AuxIVA", "GaussILRMA") and cfg.get("sa") != "IPA":
            over["newton_iter"] = 2
        else:
            over[["n_itr", "flooring", "steps"][k % 3]] = 1
    elif kind == "scale":
        if not M.has_scale(cfg):
            return None
        over["scale_restoration"] = ["projection", "pb", "power"][k % 3]
    elif kind == "contrast":
        if c not in ("GradFDICA", "NaturalGradFDICA", "AuxFDICA", "GradIVA", "NaturalGradIVA", "FastIVA", "FasterIVA", "AuxIVA", "GradICA", "NaturalGradICA",
                     "FastICA"):
            return None
        names = ["contrast_fn", "score_fn" if "Grad" in c or "FastICA" == c else "d_contrast_fn"]
        if c == "FastIVA":
            names.append("dd_contrast_fn")
        if c == "FastICA":
            names.append("d_score_fn")
        over[names[k % len(names)]] = None
    elif kind == "penalty":
        if c in ("PDSBSS", "ADMMBSS"):
            n = cfg["pen"].count("+") + 2  # one too many
            over.update([{"prox_penalty": None}, {"penalty_fn": None, "record_loss": True}, {"penalty_fn": [M.l1_penalty, M.l21_penalty] * 4},
                         {"prox_penalty": [M.l1_prox, M.l21_prox] * 4}][k % 4])
            over.update({key: over[key][:n] for key in over if isinstance(over[key], list)})
        elif c in ("PDSIVA", "ADMMIVA"):
            over[["contrast_fn", "prox_penalty"][k % 2]] = None
        elif c in ("MaskingPDSBSS", "MaskingADMMBSS"):
            over.update([{"mask_fn": None}, {"record_loss": True}][k % 2])
        elif c in ("HVA", "MaskingPDSHVA", "MaskingADMMHVA"):
            over["record_loss"] = True
        else:
            return None
    elif kind == "reference":
        if not M.has_scale(cfg):
            return None
        over.update(reference_id=None, scale_restoration=[True, "projection_back", "minimal_distortion_principle", "MDP"][k % 4])
    elif kind == "both_relaxations":
        if "relax" not in cfg:
            return None
        over.update(relaxation=1.5, alpha=[1.2, 1.5][k % 2])
    return over


@facet(P, "refusals", lambda: M.case_for(M.ALL + ["GaussILRMA", "TILRMA", "GGDILRMA"] * 5 + M.PROXFAM + ["FastIVA", "FastICA"], N=(2, 2), I=(2, 3), J=(30, 40), pick=st.integers(0, 11),
                                         kind_of=st.sampled_from(["spatial", "source", "domain", "me_domain", "shape", "normalization", "keyword", "scale", "contrast",
                                                                    "penalty", "penalty", "reference", "both_relaxations"])),
       quick=2000, thorough=20000, shards=2,
       rule="constructors or runs with an option value outside the documented ones raise instead of silently doing something else; classes without the "
            "option are trivial, all others evaluated")
def refusals(case):
    cfg = dict(case["cfg"])
    over = corrupt(case, cfg)
    if not over:
        return None
    X = M.mixture_for(case)
    try:
        m = M.build(cfg, 0, **over)
        m(X, n_iter=2)
    except (AssertionError, ValueError, TypeError, NotImplementedError, KeyError, AttributeError):
        return [cfg["cls"], case["kind_of"]]
    raise Violation("%s runs with the unsupported option %s" % (cfg["cls"], over))


# -------------------------------------------------------------------------------------- legacy
@facet(P, "legacy_modules", lambda: st.fixed_dictionaries({
    "seed": gen.SEED, "what": st.sampled_from(["flooring", "psd", "pairs", "permutation"]), "N": st.integers(2, 4), "I": st.integers(2, 6),
    "J": st.integers(8, 20), "eps": st.sampled_from([None, 1e-10, 1e-3, 0.5]), "step": st.integers(1, 3), "stop": st.one_of(st.none(), st.integers(0, 9)),
    "sort": st.booleans(), "overwrite": st.booleans(), "axes": st.booleans()}),
    quick=1500, thorough=20000, shards=2,
    rule="functions kept under their deprecated module names act exactly like the documented ones and announce the deprecation; all evaluated")
def legacy_modules(case):
    rng = gen.rng_of(case)
    N, I, J = case["N"], case["I"], case["J"]
    kw = {} if case["eps"] is None else {"eps": case["eps"]}
    with warnings.catch_warnings(record=True) as w:
        warnings.simplefilter("always")
        if case["what"] == "flooring":
            x = rng.standard_normal((N, J)) * 10.0 ** rng.integers(-12, 2, (N, J))
            pairs = [(_flooring.identity(x), identity(x)), (_flooring.max_flooring(x, **kw), max_flooring(x, **kw)),
                     (_flooring.add_flooring(x, **kw), add_flooring(x, **kw)), (max_flooring(x, **kw), np.maximum(x, case["eps"] or 1e-10))]
        elif case["what"] == "psd":
            a = gen.cnormal(rng, I, N, N)
            a = a + gen.H(a)
            k = {"flooring_fn": functools.partial(max_flooring, **kw)} if kw else {}
            if case["axes"]:
                k.update(axis1=-2, axis2=-1)
            pairs = [(_psd.to_psd(a, **k), to_psd(a, **k))]
        elif case["what"] == "pairs":
            k = {"step": case["step"], "sort": case["sort"], "stop": case["stop"]}
            pairs = [(list(_select_pair.sequential_pair_selector(N, **k)), list(sequential_pair_selector(N, **k))),
                     (list(_select_pair.combination_pair_selector(N, sort=case["sort"])), list(combination_pair_selector(N, sort=case["sort"])))]
        else:
            y = np.abs(gen.cnormal(rng, I, N, J))
            z = gen.cnormal(rng, I, N, 3)
            ins = [(y.copy(), z.copy()), (y.copy(), z.copy())]
            o1 = _solve_permutation.correlation_based_permutation_solver(*ins[0], overwrite=case["overwrite"])
            o2 = correlation_based_permutation_solver(*ins[1], overwrite=case["overwrite"])
            o1, o2 = (o if isinstance(o, tuple) else (o,) for o in (o1, o2))
            if len(o1) != len(o2):
                raise Violation("the deprecated permutation solver returns %d arrays instead of %d" % (len(o1), len(o2)))
            pairs = list(zip(o1, o2)) + list(zip(*ins))
    for a, b in pairs:
        if not np.array_equal(np.asarray(a), np.asarray(b)):
            raise Violation("a deprecated function of %s differs from its replacement" % case["what"])
    if not w:
        raise Violation("no deprecation warning")
    return [case["what"]]
