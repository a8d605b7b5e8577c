"""Model parameters stay admissible and normalised in every state of a run of any length."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.gen import H as herm
from pbt.harness import Skip, Violation, facet

P = "C17"
FAMS = ["GaussILRMA", "TILRMA", "GGDILRMA", "GaussIPSDTA", "TIPSDTA", "GaussMNMF", "FastGaussMNMF", "CACGMM", "FastIVA", "FasterIVA", "FastICA",
        "AuxGaussIVA", "GradGaussIVA"]
# Their likelihood is unbounded (a filter may cancel a whole frame), so that long runs end in singular matrices.
DEGENERATING = {"AuxGaussIVA", "GaussIPSDTA", "TIPSDTA"}


def data(case):
    """Mixtures including awkward ones."""
    X = M.mixture_for(case).copy()
    rng = gen.rng_of(case, 3)
    h = case["hard"]
    if case["cfg"]["cls"] in DEGENERATING and h != "silent":
        return X
    if h == "silent":
        X[..., rng.permutation(X.shape[-1])[: 1 + X.shape[-1] // 8]] = 0
    elif h == "dynamic" and X.ndim == 3:
        X = X * np.exp(rng.uniform(-4, 4, X.shape[2]))[None, None]
    elif h == "spectrum" and X.ndim == 3:
        X = X * np.exp(rng.uniform(-4, 4, X.shape[1]))[None, :, None]
    elif h == "similar":
        X[1] = X[0] + 1e-2 * X[1]
    return X


def near(a, b, tol, what):
    e = float(np.max(np.abs(a - b))) if np.all(np.isfinite(a)) else np.inf
    if not e < tol:
        raise Violation("%s: off by %.3g" % (what, e))


def positive(v, what, strict=True):
    if not np.all(np.isfinite(v)):
        raise Violation("%s is not finite" % what)
    if np.iscomplexobj(v) or not (np.min(v, initial=1) > 0 if strict else np.min(v, initial=0) >= 0):
        raise Violation("%s is not positive (minimum %.3g)" % (what, np.min(np.real(v))))


def hermitian(B, what):
    if not np.all(np.isfinite(B)):
        raise Violation("%s is not finite" % what)
    if B.size == 0:
        return
    s = np.max(np.abs(B), axis=(-2, -1), keepdims=True)
    if not np.max(np.abs(B - herm(B)) / s) < 1e-10:
        raise Violation("%s is not Hermitian" % what)
    lam = np.linalg.eigvalsh((B + herm(B)) / 2)
    if not np.min(lam / lam[..., -1:]) > -1e-10:
        raise Violation("%s is not positive semidefinite" % what)


def verify(cfg, X, s, k, white, ref, floor):
    c = cfg["cls"]
    at = " after %d iterations" % k
    for a in ("basis", "activation", "latent", "variance"):
        v = s.get(a)
        if v is None or a == "basis" and "IPSDTA" in c:
            continue
        # the activations of IPSDTA are updated multiplicatively without flooring and may vanish at silent frames
        positive(v, a + at, strict=floor and "IPSDTA" not in c)
    if s.get("latent") is not None:
        near(s["latent"].sum(axis=0), 1, 1e-6, "columns of the latent variables%s do not sum to one" % at)
    if "ILRMA" in c:
        free = M.is_free(cfg)
        Y = s["output"] if free else refs.apply_w(s["demix_filter"], X)
        if not np.all(np.isfinite(Y)):
            raise Violation("separated signals%s are not finite" % at)
        if k and cfg["norm"] in (True, "power"):
            near(np.mean(np.abs(Y) ** 2, axis=(1, 2)), 1, 1e-6, "power of the normalised sources" + at)
        if k and cfg["norm"] == "projection_back":
            if np.max(np.linalg.cond(refs.fit_w(Y, X))) < 1e6:
                e = gen.rel_err(Y.sum(axis=0), X[ref])
                if not e < 1e-5:
                    raise Violation("sources%s do not add up to the reference channel: %.3g" % (at, e))
    if "IPSDTA" in c:
        parts = s["basis"] if isinstance(s["basis"], tuple) else (s["basis"],)
        for b in parts:
            hermitian(b, "basis" + at)
        if cfg["norm"]:
            near(sum(np.trace(b, axis1=-2, axis2=-1).real.sum(axis=-1) for b in parts), 1, 1e-8, "trace of the normalised bases" + at)
    if c == "GaussMNMF":
        hermitian(s["spatial"], "spatial covariance" + at)
        # latent variables are updated after the normalisation
        if k and cfg["norm"]:
            near(np.trace(s["spatial"], axis1=-2, axis2=-1).real, 1, 1e-8, "trace of the spatial covariance" + at)
    if c == "FastGaussMNMF":
        positive(s["spatial"], "diagonal spatial covariance" + at, strict=floor)
        if k and cfg["norm"]:
            y = np.einsum("imc,cij->imj", s["diagonalizer"], X)
            near(np.mean(np.abs(y) ** 2, axis=(0, 2)), 1, 1e-6, "power of the normalised diagonalised channels" + at)
    if c == "CACGMM":
        positive(s["mixing"], "mixing weights" + at, strict=False)
        near(s["mixing"].sum(axis=0), 1, 1e-8, "sum of the mixing weights" + at)
        hermitian(s["covariance"], "covariance" + at)
        if cfg["norm"] or not k:
            near(np.trace(s["covariance"], axis1=-2, axis2=-1).real, 1, 1e-8, "trace of the covariance" + at)
        if k:
            positive(s["posterior"], "posterior" + at, strict=False)
            near(s["posterior"].sum(axis=0), 1, 1e-8, "sum of the posteriors" + at)
    if c in M.WHITE:
        W = s["demix_filter"]
        near(W @ herm(W), np.eye(W.shape[-1]), 1e-7, "Gram matrix of the filters" + at)
    if c == "CACGMM" or c == "GaussMNMF" or c in M.WHITE:
        return
    for a in ("demix_filter", "diagonalizer"):
        if s.get(a) is not None and not np.all(np.isfinite(s[a])):
            raise Violation("%s%s is not finite" % (a, at))


def cases():
    return M.case_for(FAMS, N=(2, 4), I=(2, 6), J=(40, 60), n_iter=st.one_of(st.integers(0, 6), st.integers(10, 40)), ref=st.integers(0, 4),
                      scale=st.sampled_from([1.0, 1e-2, 1e2]), hard=st.sampled_from(["none", "silent", "dynamic", "spectrum", "similar"]),
                      restore=st.booleans(), given=st.booleans())


@facet(P, "admissible_parameters", cases, quick=4000, thorough=40000, shards=8,
       rule="probabilistic and fixed-point classes, ordinary and awkward mixtures (silent frames, large dynamics, nearly equal channels), up to 40 "
            "iterations; every state of the run inspected; all evaluated")
def admissible_parameters(case):
    cfg = case["cfg"]
    X = data(case)
    N = case["N"]
    ref = case["ref"] % N
    n_iter = min(case["n_iter"], 8) if cfg["cls"] in DEGENERATING else case["n_iter"]
    tr = M.Trace()
    kw = {"callbacks": tr, "record_loss": case["seed"] % 2 == 0}
    if M.has_scale(cfg):
        kw["scale_restoration"] = case["restore"]
    if M.has_reference(cfg):
        kw["reference_id"] = ref
    m = M.build(cfg, case["seed"] % 1000, **kw)
    call = {}
    if case["given"] and cfg["cls"] not in M.MULTI_CLS and cfg["cls"] not in M.WHITE and cfg["cls"] not in M.ICA_CLS:
        call["demix_filter"] = gen.demix_init(case, case["I"], N)
    out = m(X, n_iter=n_iter, **call)
    if len(tr.states) != n_iter + 1:
        raise Violation("%d states for %d iterations" % (len(tr.states), n_iter))
    for k, s in enumerate(tr.states):
        if "Grad" in cfg["cls"] and not np.max(np.abs(s["demix_filter"])) * np.max(np.abs(X)) < 1e8:
            raise Skip  # a fixed step that is too long for this recording: gradient steps diverge
        verify(cfg, X, s, k, None, ref, True)
    if not np.all(np.isfinite(out)):
        raise Violation("the output is not finite")
    return [cfg["cls"], "hard=%s" % case["hard"], "norm=%s" % cfg.get("norm"), "long" if n_iter >= 10 else "short"]


def init_cases():
    return M.case_for(sorted(M.RANDOM), N=(2, 3), I=(2, 6), J=(20, 40), unseeded=st.booleans())


@facet(P, "initial_parameters", init_cases, quick=600, thorough=10000, shards=2,
       rule="classes with random initial parameters: the default bases, activations, latent variables, mixing weights and covariances are positive, no two entries are "
            "equal (so no two sources, bases, bins or frames start alike), another generator gives others; all evaluated")
def initial_parameters(case):
    cfg = dict(case["cfg"], norm=False)
    X = M.mixture_for(case)

    def start(seed):
        tr = M.Trace()
        over = {"rng": None} if case["unseeded"] else {}
        M.build(cfg, seed, callbacks=tr, **over)(X, n_iter=0)
        s, out = tr.states[0], {}
        for a in ("basis", "activation", "latent", "mixing", "covariance"):
            v = s.get(a)
            if v is None:
                continue
            for k, b in enumerate(v if isinstance(v, tuple) else (v,)):
                if a == "covariance" or a == "basis" and b.ndim > 3:  # diagonal matrices
                    b = np.diagonal(b, axis1=-2, axis2=-1).real
                out["%s %d" % (a, k)] = np.array(b)
        return out

    one, two = start(case["seed"] % 1000), start(case["seed"] % 1000 + 1)
    for a, v in one.items():
        if M.n_src(case) == 1 and a[:-2] in ("mixing", "latent"):  # shares of a single source
            near(v, 1, 1e-12, "initial %s" % a)
            continue
        positive(v, "initial %s" % a)
        if len(np.unique(v)) != v.size:
            raise Violation("entries of the initial %s of shape %s are repeated" % (a, v.shape))
        if np.any(v == two[a]):
            raise Violation("initial %s is the same for another generator" % a)
    return [cfg["cls"], "part=%s" % cfg.get("part"), "unseeded=%s" % case["unseeded"]]
