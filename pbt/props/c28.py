"""Digital silence in the recording is harmless."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt import methods as M
from pbt.harness import Skip, Violation, facet

P = "C28"
ADMM = {"ADMMBSS", "ADMMIVA", "MaskingADMMBSS", "MaskingADMMHVA"}
RESTORE = [True, False, "projection_back", "minimal_distortion_principle"]
# their score grows with the data: the step size must suit the scale
STEEP = {"GradGaussIVA", "NaturalGradGaussIVA", "GradIVA", "NaturalGradIVA", "GradFDICA", "NaturalGradFDICA", "GradLaplaceFDICA",
         "NaturalGradLaplaceFDICA", "GradLaplaceIVA", "NaturalGradLaplaceIVA"} | M.ICA_CLS


def silence(case, J):
    """Indices of the silent frames."""
    rng = gen.rng_of(case, 3)
    n = min(case["n_silent"], J // 4)
    where = case["where"]
    if where == "start":
        return np.arange(n)
    if where == "end":
        return np.arange(J - n, J)
    if where == "middle":
        return J // 3 + np.arange(n)
    return np.sort(rng.permutation(J)[:n])


def options(case):
    cfg, kw = case["cfg"], {}
    if M.has_scale(cfg):
        kw["scale_restoration"] = case["restore"]
    if M.has_reference(cfg):
        kw["reference_id"] = case["ref"] % case["N"]
    return kw


def cases(families=None, **kw):
    d = dict(n_iter=gen.iters(0, 8), ref=st.integers(0, 4), restore=st.sampled_from(RESTORE), n_silent=st.integers(1, 8),
             where=st.sampled_from(["start", "end", "middle", "random"]), scale=st.sampled_from([1.0, 1e-3, 1e3]))
    d.update(kw)
    return lambda: M.case_for(families or M.ALL, N=(2, 3), I=(2, 5), J=(32, 48), **d)


@facet(P, "silent_frames", cases(), quick=6000, thorough=90000, shards=8,
       rule="all classes: some frames of an ordinary mixture are exactly zero; outputs and recorded losses are finite, outputs vanish exactly in the "
            "silent frames and nowhere else in full; all evaluated (losses of ADMM excepted: its first filters may vanish)")
def silent_frames(case):
    cfg = case["cfg"]
    c = cfg["cls"]
    if c in STEEP:
        case = dict(case, scale=min(case["scale"], 1.0))
    X = M.mixture_for(case).copy()
    z = silence(case, X.shape[-1])
    X[..., z] = 0
    n_iter = max(case["n_iter"], 2) if c in ADMM else case["n_iter"]
    m = M.build(cfg, case["seed"] % 1000, **options(case))
    try:
        out = m(X, n_iter=n_iter)
    except np.linalg.LinAlgError:
        if c in ADMM:  # the filters of the first iterations may be singular
            raise Skip
        raise
    if out.shape != (M.n_src(case),) + X.shape[1:]:
        raise Violation("output of shape %s" % (out.shape,))
    bad = np.argwhere(~np.isfinite(out))
    if len(bad):
        raise Violation("%d of %d output values are not finite" % (len(bad), out.size))
    if np.any(out[..., z] != 0):
        raise Violation("the output does not vanish in silent frames")
    rest = np.setdiff1d(np.arange(X.shape[-1]), z)
    if c not in M.PROX and not np.all(np.any(out[..., rest] != 0, axis=tuple(range(out.ndim - 1)))):
        raise Violation("the output vanishes in frames that are not silent")
    loss = getattr(m, "loss", None)
    if c not in ADMM and loss is not None and not np.all(np.isfinite(loss)):
        raise Violation("recorded losses are not finite: %s" % list(loss))
    return [c, "where=%s" % case["where"], "sa=%s" % cfg.get("sa"), "scale=%g" % case["scale"]]


INVARIANT = ["AuxLaplaceFDICA", "AuxLaplaceIVA", "AuxGaussIVA"]


@facet(P, "inserted_silence", cases(INVARIANT, n_iter=gen.iters(0, 4), where=st.sampled_from(["start", "end", "random"]), scale=st.just(1.0),
                                    restore=st.sampled_from(RESTORE[:1] + RESTORE[2:])),
       quick=1500, thorough=20000, shards=4,
       rule="auxiliary-function methods with a scale-free source model: inserting silent frames into the recording inserts silent frames into the "
            "restored output and changes nothing else; all but IPA evaluated")
def inserted_silence(case):
    cfg = case["cfg"]
    if cfg.get("sa") == "IPA":  # its adjustment depends on the scale of the other sources
        return None
    X = M.mixture_for(case)
    N, I, J = X.shape
    n = case["n_silent"]
    z = silence(dict(case, n_silent=n), J + n)
    n = len(z)
    keep = np.setdiff1d(np.arange(J + n), z)
    Z = np.zeros((N, I, J + n), dtype=complex)
    Z[..., keep] = X
    W = gen.demix_init(case, I, N)
    over = options(case)
    if "FDICA" in cfg["cls"]:
        over["permutation_alignment"] = False

    def run(data):
        return M.build(cfg, **over)(data, n_iter=case["n_iter"], demix_filter=W.copy())

    try:
        a = run(X)
    except np.linalg.LinAlgError:
        raise Skip
    b = run(Z)
    if not np.all(b[..., z] == 0):
        raise Violation("inserted silence is not silent in the output")
    e = gen.rel_err(b[..., keep], a)
    if not e < 1e-5:
        rng = np.random.default_rng(0)
        if not gen.rel_err(run(X * (1 + 1e-9 * rng.uniform(-1, 1, X.shape))), a) < 1e-4:
            raise Skip
        raise Violation("inserted silence changes the output: %.3g" % e)
    return [cfg["cls"], "sa=%s" % cfg.get("sa"), "where=%s" % case["where"]]
