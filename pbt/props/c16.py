"""Symmetries of the models: a transformed problem gives the correspondingly transformed result."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.gen import H as herm
from pbt.harness import Skip, Violation, facet

P = "C16"
UNITARY = {"GradFDICA", "GradLaplaceFDICA", "GradIVA", "GradLaplaceIVA", "GradGaussIVA", "GradICA", "GradLaplaceICA"} | M.PROX
# per-source symmetric (all sources updated simultaneously)
NFILT = {"ADMMBSS", "ADMMIVA", "MaskingADMMBSS", "MaskingADMMHVA"}


def options(case):
    cfg, kw = case["cfg"], {}
    if M.has_scale(cfg):
        kw["scale_restoration"] = case["restore"]
    if M.has_reference(cfg):
        kw["reference_id"] = case["ref"] % case["N"]
    if "FDICA" in cfg["cls"] or cfg["cls"] == "CACGMM":
        kw["permutation_alignment"] = False
    if cfg["cls"] in ("GaussMNMF", "FastGaussMNMF"):  # the floor of the rank-one covariances is not equivariant
        kw["flooring_fn"] = lambda x: np.maximum(x, 1e-15)
    return kw


def iters(case):
    return max(case["n_iter"], 2) if case["cfg"]["cls"] in NFILT else case["n_iter"]


def start(case, X):
    """Explicit starting point (dict of arrays)."""
    cfg, N = case["cfg"], case["N"]
    rng = gen.rng_of(case, 5)
    kw = {}
    if cfg["cls"] in M.ICA_CLS:
        kw["demix_filter"] = np.linalg.qr(rng.standard_normal((N, N)))[0]
    elif cfg["cls"] in M.WHITE:
        kw["demix_filter"] = gen.unitary(rng, case["I"], N)
    elif cfg["cls"] not in M.MULTI_CLS:
        kw["demix_filter"] = gen.demix_init(case, case["I"], N)
    if cfg["cls"] in NFILT:  # the default zero has no unique proximal point
        kw["auxiliary1"] = kw["demix_filter"].copy()
    if cfg["cls"] in M.RANDOM and cfg["cls"] != "CACGMM":
        tr = M.Trace()
        M.build(cfg, case["seed"] % 1000, callbacks=tr, **options(case))(X, n_iter=0)
        s = tr.states[0]
        for a in ("basis", "activation", "latent"):
            if s.get(a) is not None:
                kw[a] = s[a]
        if "IPSDTA" in cfg["cls"]:  # full instead of diagonal blocks
            kw["basis"] = tuple(gen.hpd(rng, b.shape[:3], b.shape[3]) for b in s["basis"]) if isinstance(s["basis"], tuple) else \
                gen.hpd(rng, s["basis"].shape[:3], s["basis"].shape[3])
        if cfg["cls"] == "GaussMNMF":
            kw["spatial"] = gen.hpd(rng, (M.n_src(case), case["I"]), N)
        if cfg["cls"] == "FastGaussMNMF":
            kw["spatial"] = np.exp(rng.uniform(-1, 1, (case["I"], M.n_src(case), N)))
            kw["diagonalizer"] = gen.well_conditioned(rng, (case["I"],), N)
    return kw


def copy(kw):
    return {k: tuple(x.copy() for x in v) if isinstance(v, tuple) else v.copy() for k, v in kw.items()}


def execute(case, X, kw, cfg=None):
    m = M.build(cfg or case["cfg"], case["seed"] % 1000, **options(case))
    out = m(X, n_iter=iters(case), **copy(kw))
    return m, out


CHAOS = [(1e-9, 1e-4), (1e-14, 1e-8), (1e-14, 1e-8), (1e-14, 1e-8)]  # perturbations of the recording and how much of them a comparable run may show


def agree(case, X, kw, got, want, out, what, phase=False, tol=1e-5, cfg=None):
    """got == want, unless the run itself amplifies rounding errors (then the case is skipped)."""
    # rows that are eigenvectors have an arbitrary phase unless the scale is restored
    phase = phase or case["cfg"].get("sa") in ("IP2", "ISS2") and not case["restore"] and np.iscomplexobj(got)
    if phase and not (got.shape == want.shape and np.all(np.isfinite(got))):
        raise Violation("%s: shape or values" % what)
    if phase:
        got = refs.align_phase(got, want)
    e = gen.rel_err(got, want)
    if e < tol:
        return
    if case["cfg"]["cls"] in NFILT:
        # the proximal point of a matrix with a vanishing singular value is not unique (any phase will do)
        tr = M.Trace()
        M.build(cfg or case["cfg"], 0, callbacks=tr, **options(case))(X, n_iter=iters(case), **copy(kw))
        rho = case["cfg"].get("rho", 1)
        if any(np.min(np.linalg.svd(s["auxiliary1"])[1]) < rho ** -0.5 + 1e-6 for s in tr.states[1:]):
            raise Skip
    rng = np.random.default_rng(0)
    for eps, limit in CHAOS:
        X2 = X * (1 + eps * rng.uniform(-1, 1, X.shape))
        try:
            _, o2 = execute(case, X2, kw, cfg)
        except np.linalg.LinAlgError:
            raise Skip
        if phase:
            o2 = refs.align_phase(o2, out)
        if not gen.rel_err(o2, out) < limit:
            raise Skip  # chaotic
    raise Violation("%s: relative difference %.3g" % (what, e))


def cases(families=None, **kw):
    d = dict(n_iter=gen.iters(0, 3), ref=st.integers(0, 4), scale=st.just(1.0), layout=st.just("C"),
             restore=st.sampled_from([False, True, "projection_back", "minimal_distortion_principle"]), t=gen.SEED)
    d.update(kw)
    return lambda: M.case_for(families or M.ALL, N=(2, 3), I=(2, 5), J=(30, 45), **d)


def tags_of(case):
    return [case["cfg"]["cls"], "sa=%s" % case["cfg"].get("sa"), "restore=%s" % case["restore"], "n_iter=%d" % iters(case)]


# ----------------------------------------------------------------------------- channel transform
def mixing(case, I, N, ref, kind, real):
    """Invertible per-bin matrices whose reference row is d * e_ref."""
    rng = gen.rng_of(case, int(case["t"]))
    if kind == "phase":
        A = np.exp(2j * np.pi * rng.random((I, N)))[:, :, None] * np.eye(N)
    elif kind == "unitary":
        A = np.zeros((I, N, N), dtype=complex)
        rest = [c for c in range(N) if c != ref]
        A[:, ref, ref] = np.exp(2j * np.pi * rng.random(I))
        A[np.ix_(range(I), rest, rest)] = gen.unitary(rng, I, N - 1)
    else:
        A = gen.well_conditioned(rng, (I,), N)
        A[:, ref] = 0
        A[:, ref, ref] = np.exp(rng.uniform(-0.7, 0.7, I) + 2j * np.pi * rng.random(I))
        if np.max(np.linalg.cond(A)) > 30:
            raise Skip
    if real:
        if kind == "general":
            A = np.exp(rng.uniform(-0.7, 0.7, N))[:, None] * np.linalg.qr(rng.standard_normal((N, N)))[0]
        else:
            A = np.linalg.qr(rng.standard_normal((N, N)))[0]
        return A[None]
    return A


@facet(P, "channel_transform", cases(), quick=3000, thorough=50000, shards=6,
       rule="all classes but CACGMM: an invertible per-bin transform of the channels (unitary where the algorithm is only unitarily equivariant), "
            "compensated in the starting point, leaves the separated signals unchanged (scaled like the reference channel after scale restoration); all evaluated")
def channel_transform(case):
    cfg, N, I = case["cfg"], case["N"], case["I"]
    c = cfg["cls"]
    if c == "CACGMM":
        raise Skip
    X = M.mixture_for(case)
    kw = start(case, X)
    ref = case["ref"] % N
    kind = "unitary" if c in UNITARY else "general"
    if c == "GaussMNMF" and cfg["norm"]:
        kind = "unitary"
    if cfg.get("norm") == "projection_back":
        kind = "phase"
    real = c in M.ICA_CLS
    A = mixing(case, I, N, ref, kind, real)
    X3 = X[:, None] if real else X
    X2 = refs.apply_w(A, X3)
    Ai = np.linalg.inv(A)
    kw2 = copy(kw)
    if real:
        A, X2 = A[0], X2[:, 0]
    if c in M.WHITE:
        m0, _ = execute(dict(case, n_iter=0), X, kw)
        m1, _ = execute(dict(case, n_iter=0), X2, kw)
        Z0, Z1 = m0.whitened_input, m1.whitened_input
        if real:
            kw2["demix_filter"] = kw["demix_filter"] @ (refs.fit_w(Z0[:, None], Z1[:, None])[0])
        else:
            kw2["demix_filter"] = kw["demix_filter"] @ refs.fit_w(Z0, Z1)
    elif real:
        kw2["demix_filter"] = kw["demix_filter"] @ Ai[0]
    elif "demix_filter" in kw:
        kw2["demix_filter"] = kw["demix_filter"] @ Ai
        if "auxiliary1" in kw:
            kw2["auxiliary1"] = kw["auxiliary1"] @ Ai
    if c == "GaussMNMF":
        h = A @ kw["spatial"] @ herm(A)
        kw2["spatial"] = (h + herm(h)) / 2
    if c == "FastGaussMNMF":
        kw2["diagonalizer"] = kw["diagonalizer"] @ Ai
    m, out = execute(case, X, kw)
    m2, out2 = execute(case, X2, kw2)
    want = out
    scaled = M.has_scale(cfg) and case["restore"] or c in M.MULTI_CLS
    if scaled:
        want = out * A[:, ref, ref][None, :, None]
    phase = not scaled and cfg.get("sa") in ("IP2", "ISS2") or c in M.WHITE and not scaled
    phase = phase or cfg.get("norm") == "projection_back"  # the normalised filters follow the phase of the reference channel
    agree(case, X, kw, out2, want, out, "transformed channels change the output", phase=phase)
    for a in ("basis", "activation", "latent"):
        if a in kw and not isinstance(kw[a], tuple):
            agree(case, X, kw, getattr(m2, a), getattr(m, a), out, "transformed channels change the %s" % a)
    return tags_of(case) + [kind]


# -------------------------------------------------------------------- permutations and conjugation
def take(v, idx, axis):
    return tuple(np.take(x, idx, axis=axis) for x in v) if isinstance(v, tuple) else np.take(v, idx, axis=axis)


def frames_of(kw, idx):
    out = copy(kw)
    if "activation" in out:
        out["activation"] = np.take(out["activation"], idx, axis=-1)
    return out


@facet(P, "frame_order", cases(), quick=2500, thorough=40000, shards=5,
       rule="all classes: permuting the frames of the input and of the starting activations permutes the frames of the output and nothing else; all evaluated")
def frame_order(case):
    X = M.mixture_for(case)
    kw = start(case, X)
    idx = gen.rng_of(case, int(case["t"])).permutation(X.shape[-1])
    m, out = execute(case, X, kw)
    m2, out2 = execute(case, np.take(X, idx, axis=-1), frames_of(kw, idx))
    phase = case["cfg"]["cls"] in M.WHITE  # unit phase of whitening directions
    if phase:
        return None if not white_frames(case, X, kw, m, out, m2, out2, idx) else tags_of(case)
    agree(case, X, kw, out2, np.take(out, idx, axis=-1), out, "a permutation of the frames changes the result")
    return tags_of(case)


def white_frames(case, X, kw, m, out, m2, out2, idx):
    """Eigenvectors of the whitening may change sign with rounding; compare where they did not."""
    Z, Z2 = m.whitened_input, m2.whitened_input
    if gen.rel_err(Z2, np.take(Z, idx, axis=-1)) > 1e-8:
        return False
    agree(case, X, kw, out2, np.take(out, idx, axis=-1), out, "a permutation of the frames changes the result")
    return True


def bins_of(cfg, kw, idx):
    out = copy(kw)
    axis = {"demix_filter": 0, "auxiliary1": 0, "diagonalizer": 0, "spatial": 1 if cfg["cls"] == "GaussMNMF" else 0}
    if "basis" in out:
        out["basis"] = np.take(out["basis"], idx, axis=0 if cfg.get("part") else 1)
    for a, ax in axis.items():
        if a in out:
            out[a] = np.take(out[a], idx, axis=ax)
    return out


BINFAM = [f for f in M.ALL if f not in M.ICA and f != "HVA" and "IPSDTA" not in f and f != "CACGMM"]


@facet(P, "bin_order", cases(BINFAM), quick=2000, thorough=30000, shards=4,
       rule="classes without bin neighbourhoods: permuting the bins of the input and of the starting point permutes the bins of the output; all evaluated")
def bin_order(case):
    X = M.mixture_for(case)
    kw = start(case, X)
    idx = gen.rng_of(case, int(case["t"])).permutation(X.shape[1])
    _, out = execute(case, X, kw)
    _, out2 = execute(case, X[:, idx], bins_of(case["cfg"], kw, idx))
    agree(case, X, kw, out2, out[:, idx], out, "a permutation of the bins changes the result")
    return tags_of(case)


def conj(v):
    return tuple(np.conj(x) for x in v) if isinstance(v, tuple) else np.conj(v)


@facet(P, "conjugation", cases([f for f in M.ALL if f not in M.ICA]), quick=2500, thorough=40000, shards=5,
       rule="all frequency-domain classes: conjugated input and starting point give the conjugated output; all evaluated")
def conjugation(case):
    X = M.mixture_for(case)
    kw = start(case, X)
    m, out = execute(case, X, kw)
    kw2 = {k: conj(v) for k, v in kw.items()}
    if case["cfg"]["cls"] in M.WHITE:
        # the whitening basis of the conjugated data has its own phases
        m0, _ = execute(dict(case, n_iter=0), X, kw)
        m1, _ = execute(dict(case, n_iter=0), np.conj(X), kw)
        kw2["demix_filter"] = np.conj(kw["demix_filter"]) @ refs.fit_w(np.conj(m0.whitened_input), m1.whitened_input)
    _, out2 = execute(case, np.conj(X), kw2)
    phase = case["cfg"].get("sa") in ("IP2", "ISS2") or case["cfg"]["cls"] in M.WHITE
    agree(case, X, kw, out2, np.conj(out), out, "conjugation changes the result", phase=phase)
    return tags_of(case)


SOURCES = ["GradFDICA", "GradLaplaceFDICA", "GradIVA", "GradLaplaceIVA", "GradGaussIVA", "FastIVA", "FasterIVA", "GaussMNMF", "FastGaussMNMF",
           "GradICA", "GradLaplaceICA"] + M.PROXFAM


@facet(P, "source_order", cases(SOURCES), quick=1500, thorough=25000, shards=4,
       rule="classes that treat their sources alike: permuting the sources of the starting point permutes the outputs; all evaluated")
def source_order(case):
    cfg = case["cfg"]
    X = M.mixture_for(case)
    kw = start(case, X)
    idx = gen.rng_of(case, int(case["t"])).permutation(M.n_src(case))
    kw2 = copy(kw)
    if "demix_filter" in kw:
        kw2["demix_filter"] = np.take(kw["demix_filter"], idx, axis=-2)
    if "auxiliary1" in kw:
        kw2["auxiliary1"] = np.take(kw["auxiliary1"], idx, axis=-2)
    if not cfg.get("part"):
        for a in ("basis", "activation"):
            if a in kw:
                kw2[a] = kw[a][idx]
    if "latent" in kw:
        kw2["latent"] = kw["latent"][idx]
    if cfg["cls"] == "GaussMNMF":
        kw2["spatial"] = kw["spatial"][idx]
    if cfg["cls"] == "FastGaussMNMF":
        kw2["spatial"] = kw["spatial"][:, idx]
    _, out = execute(case, X, kw)
    _, out2 = execute(case, X, kw2)
    agree(case, X, kw, out2, out[idx], out, "a permutation of the starting sources changes the result")
    return tags_of(case)


REPEAT = [f for f in M.ALL if f not in M.PROXFAM]


@facet(P, "repeated_frames", cases(REPEAT, n_iter=gen.iters(0, 2)), quick=1500, thorough=25000, shards=4,
       rule="classes whose statistics are frame averages: repeating the recording (and the starting activations) in time repeats the output; all evaluated")
def repeated_frames(case):
    X = M.mixture_for(case)
    kw = start(case, X)
    J = X.shape[-1]
    idx = np.tile(np.arange(J), 2)
    _, out = execute(case, X, kw)
    m2, out2 = execute(case, np.take(X, idx, axis=-1), frames_of(kw, idx))
    phase = case["cfg"]["cls"] in M.WHITE
    if phase:
        m, _ = execute(case, X, kw)
        if not white_frames(case, X, kw, m, out, m2, out2, idx):
            return None
        return tags_of(case)
    agree(case, X, kw, out2, np.take(out, idx, axis=-1), out, "repeating the recording changes the result")
    return tags_of(case)


@facet(P, "cacgmm_directions", cases(["CACGMM"], kind=st.sampled_from(gen.KINDS)), quick=1000, thorough=15000, shards=2,
       rule="CACGMM: the posterior depends on the direction of each observation only, and not on per-channel phases; all evaluated")
def cacgmm_directions(case):
    X = M.mixture_for(case)
    N, I, J = X.shape
    rng = gen.rng_of(case, int(case["t"]))
    gain = np.exp(rng.uniform(-2, 2, (I, J)) + 2j * np.pi * rng.random((I, J)))
    ph = np.exp(2j * np.pi * rng.random((N, I)))
    if case["restore"] is False:
        ph = np.ones((N, I))
    m, out = execute(case, X, {})
    m2, out2 = execute(case, X * gain[None] * ph[:, :, None], {})
    g = gain * ph[case["ref"] % N][:, None]
    agree(case, X, {}, out2 / g, out, out, "the masks depend on more than directions")
    agree(case, X, {}, m2.posterior, m.posterior, out, "the posterior depends on more than directions")
    return tags_of(case)


# ------------------------------------------------------------------------------------ amplitude
AMPL = ["AuxFDICA", "AuxLaplaceFDICA", "FastIVA", "FasterIVA", "AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA", "GaussILRMA", "TILRMA", "GGDILRMA",
        "GaussIPSDTA", "TIPSDTA", "GaussMNMF", "FastGaussMNMF", "CACGMM"]


UNSTABLE = {"GaussILRMA", "TILRMA", "GGDILRMA", "CACGMM"}  # bases may collapse onto single frames


@facet(P, "amplitude", cases(AMPL, restore=st.sampled_from([True, "minimal_distortion_principle"]), align=st.booleans(), flat=st.booleans(),
                             gain=st.sampled_from([1e-12, 1e-7, 1e-5, 1e-3, 1e3, 1e6, 1e12])), quick=2500, thorough=40000, shards=5,
       rule="classes whose model has no fixed amplitude, with a flooring function that does not act: a recording of another amplitude, from 1e-12 to 1e12, (and bases of another "
            "scale) gives the same restored output at that amplitude, and the same parameters; all evaluated")
def amplitude(case):
    cfg = dict(case["cfg"])
    if "contrast" in cfg:
        cfg["contrast"] = "laplace"
    if cfg.get("sa") == "IPA" and "ILRMA" not in cfg["cls"]:
        cfg["sa"] = "ISS1"  # moves other rows by multiples whose optimum depends on the amplitude
    case = dict(case, cfg=cfg)
    if cfg.get("sa") == "IP2":  # sources outside the chosen pairs keep their amplitude, which alignment depends on
        case["align"] = False
        case["gain"] = min(max(case["gain"], 1e-7), 1e6)  # and their rows are badly scaled next to updated ones
    c, g = cfg["cls"], case["gain"]
    X = M.mixture_for(case)
    kw = start(case, X) if case["flat"] or c in M.RANDOM else {}
    kw2 = copy(kw)
    if "basis" in kw:
        s = g ** (cfg.get("p", 2) if "ILRMA" in c else 2)
        kw2["basis"] = tuple(b * s for b in kw["basis"]) if isinstance(kw["basis"], tuple) else kw["basis"] * s

    def run(X, kw, n_iter=case["n_iter"]):
        o = options(case)
        o["flooring_fn"] = lambda x: np.maximum(x, 1e-250)
        if "FDICA" in c or c == "CACGMM":
            o["permutation_alignment"] = case["align"]
        m = M.build(cfg, case["seed"] % 1000, **o)
        return m, m(X, n_iter=n_iter, **copy(kw))

    try:
        m, out = run(X, kw)
    except np.linalg.LinAlgError:
        raise Skip
    try:
        m2, out2 = run(X * g, kw2)
    except np.linalg.LinAlgError:
        if c in UNSTABLE:
            raise Skip
        if cfg.get("sa") == "IP2":  # a weight that dominates makes the weighted covariances singular after a few iterations
            run(X * g, kw2, 1)
            raise Skip
        raise
    if c == "CACGMM" and max(np.max(np.linalg.cond(m.covariance)), np.max(np.linalg.cond(m2.covariance))) > 1e5:
        raise Skip  # a component collapsed onto a few frames
    if c in M.WHITE and gen.rel_err(m2.whitened_input, m.whitened_input) > 1e-8:
        return None
    e = gen.rel_err(out2, out * g)
    if not e < 1e-5:
        rng = np.random.default_rng(0)
        for eps, limit in CHAOS:
            try:
                _, o2 = run(X * (1 + eps * rng.uniform(-1, 1, X.shape)), kw)
            except np.linalg.LinAlgError:
                raise Skip
            if not gen.rel_err(o2, out) < limit:
                raise Skip  # chaotic
        raise Violation("output at %g times the amplitude: relative difference %.3g" % (g, e))
    return tags_of(case) + ["gain=%g" % g]
