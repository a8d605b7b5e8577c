"""The storage type of recordings, starting values and arguments does not matter."""
import os
import tempfile
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt import methods as M
from pbt.harness import Skip, Violation, facet
from pbt.props import c16
from ssspy import linalg, special, transform
from ssspy.algorithm import minimal_distortion_principle, projection_back
from ssspy.algorithm.permutation_alignment import correlation_based_permutation_solver
from ssspy.linalg import prox

P = "C31"
KINDS = ["single", "swapped", "real", "memmap", "subclass"]


class Tagged(np.ndarray):
    """A plain subclass of the array type."""


def typed(x, kind, folder=None):
    """x in another storage type."""
    if kind == "single":
        return x.astype("f4" if x.dtype.kind == "f" else "c8")
    if kind == "swapped":
        return x.astype(x.dtype.newbyteorder(">"))
    if kind == "real":
        return x.real.copy()
    if kind == "int":
        return np.round(x.real).astype(int)
    if kind == "subclass":
        return x.copy().view(Tagged)
    if kind == "memmap":
        m = np.memmap(os.path.join(folder, "x.dat"), dtype=x.dtype, mode="w+", shape=x.shape)
        m[...] = x
        m.flush()
        return np.memmap(os.path.join(folder, "x.dat"), dtype=x.dtype, mode="r", shape=x.shape)
    return x


def plain(x, kind):
    """The values of x in native double precision."""
    return np.ascontiguousarray(np.asarray(x).astype("f8" if np.asarray(x).dtype.kind in "fi" and kind != "complexify" else "c16"))


def run(case, X, kw):
    m = M.build(case["cfg"], case["seed"] % 1000, **c16.options(case))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return m, m(X, n_iter=c16.iters(case), **kw)


def quantities(m, out):
    """Results to be compared: output, filter, losses."""
    loss = np.array(getattr(m, "loss", None) or [0.0], dtype=float)
    W = getattr(m, "demix_filter", None)
    return {"output": np.array(out), "filter": np.zeros(1) if W is None else np.array(W), "losses": loss}


def distance(a, b, key):
    if key == "losses":
        if a.shape != b.shape or not np.all(np.isfinite(a)):
            return float("inf")
        return float(np.max(np.abs(a - b)) / max(1, np.min(np.abs(b))))
    return gen.rel_err(a, b)


def judge(case, X, kw, got, want, what, single):
    """Compare two runs (pairs of object and output); runs that amplify small perturbations of the recording are skipped."""
    tol = 0.03 if single else 1e-7
    a, b = quantities(*got), quantities(*want)
    bad = [k for k in a if not distance(a[k], b[k], k) < tol and not (single and k == "losses")]
    if not bad:
        return
    if case["cfg"]["cls"] in c16.NFILT:
        # the proximal point of a matrix with a vanishing singular value is not unique (any phase will do)
        tr = M.Trace()
        M.build(case["cfg"], 0, callbacks=tr, **c16.options(case))(X, n_iter=c16.iters(case), **c16.copy(kw))
        rho = case["cfg"].get("rho", 1)
        if any(np.min(np.linalg.svd(s["auxiliary1"])[1]) < rho ** -0.5 + (1e-2 if single else 1e-6) for s in tr.states[1:]):
            raise Skip
    if case["cfg"]["cls"] in M.WHITE and single:
        p, q = (M.build(case["cfg"], 0, **c16.options(case)) for _ in range(2))
        p(X, n_iter=0)
        q(typed(X, "single"), n_iter=0)
        if not gen.rel_err(q.whitened_input, p.whitened_input) < 1e-4:
            raise Skip  # eigenvectors are unique up to signs only
    noise = 1e-4 if single else 1e-10
    for k in range(2):
        rng = np.random.default_rng(k)
        try:
            c = quantities(*run(case, X * (1 + noise * rng.uniform(-1, 1, X.shape)), c16.copy(kw)))
        except np.linalg.LinAlgError:
            raise Skip
        if any(not distance(c[key], b[key], key) < (0.01 if single else 1e-8) for key in c):
            raise Skip  # the run amplifies rounding errors
    raise Violation("%s: %s differ by %s" % (what, ", ".join(bad), ", ".join("%.3g" % distance(a[k], b[k], k) for k in bad)))


def data(case):
    X = M.mixture_for(case)
    if case["cfg"]["cls"] == "CACGMM" and case["n_iter"] > 2:
        raise Skip
    return X


@facet(P, "recording", lambda: M.case_for(M.ALL, N=(2, 3), I=(2, 4), J=(30, 45), n_iter=gen.iters(0, 3), ref=st.integers(0, 4), kind_of=st.sampled_from(KINDS),
                                          start=st.booleans(), restore=st.sampled_from([True, False, "minimal_distortion_principle"])),
       quick=3000, thorough=40000, shards=6,
       rule="all classes: a recording in single precision, of the other byte order, of real numbers (complex methods without whitening), memory-mapped read-only or of an "
            "array subclass gives the output, filter and (but for single precision) losses of the same values in native double precision (to the precision of the storage); all evaluated")
def recording(case):
    cfg, kind = case["cfg"], case["kind_of"]
    if kind == "real" and (cfg["cls"] in M.WHITE or cfg["cls"] in M.ICA_CLS):
        return None  # whitening is unique up to signs and phases only
    if kind == "single" and cfg["cls"] == "CACGMM":
        raise Skip
    if kind in ("real", "single") and not case["restore"]:
        case = dict(case, restore=True)  # eigenvectors of real and complex matrices differ in sign
    if kind == "single":
        case = dict(case, n_iter=min(case["n_iter"], 2))
    base = data(case)
    kw = c16.start(case, base) if case["start"] or cfg["cls"] in c16.NFILT else {}
    with tempfile.TemporaryDirectory(prefix="verif_mm_") as d:
        X = typed(base, kind, d)
        keep = np.array(X)
        ref = np.array(X).astype("f8" if base.dtype.kind == "f" else "c16")
        try:
            m0, want = run(case, ref, c16.copy(kw))
        except np.linalg.LinAlgError:
            raise Skip
        m, got = run(case, X, c16.copy(kw))
        if not np.array_equal(np.array(X), keep) or X.dtype != keep.dtype:
            raise Violation("the recording was modified")
        got = np.array(got)
        if kind == "memmap":
            del X
    single = kind == "single"
    if single and got.dtype.kind != want.dtype.kind:
        raise Violation("output of kind %s for single precision" % got.dtype)
    judge(case, ref, kw, (m, got), (m0, want), "%s recording" % kind, single)
    return [cfg["cls"], kind, "sa=%s" % cfg.get("sa")]


START = ["single", "swapped", "real", "int", "fortran", "subclass"]
REALS = {"basis", "activation", "latent"}


@facet(P, "starting_values", lambda: M.case_for(M.ALL, N=(2, 3), I=(2, 4), J=(30, 45), n_iter=gen.iters(1, 3), ref=st.integers(0, 4),
                                                kind_of=st.sampled_from(START), which=st.lists(st.booleans(), min_size=6, max_size=6),
                                                restore=st.sampled_from([True, False])),
       quick=3000, thorough=40000, shards=6,
       rule="all classes: starting filters, bases, activations, latent variables, spatial covariances, diagonalisers and auxiliary variables in single precision, of the other "
            "byte order, real or integer where they hold such values, in Fortran order or of an array subclass give the run started from the same values in native double "
            "precision; they are not modified; all evaluated")
def starting_values(case):
    cfg, kind = case["cfg"], case["kind_of"]
    if cfg["cls"] == "CACGMM":
        return None
    if kind == "single":
        case = dict(case, n_iter=min(case["n_iter"], 2))
    X = data(case)
    start = c16.start(case, X)
    rng = gen.rng_of(case, 8)
    N, I = case["N"], case["I"]
    kw, ref = {}, {}
    changed = False
    for (name, v), pick in zip(sorted(start.items()), case["which"] + [True]):
        if not pick and len(start) > 1:
            kw[name] = ref[name] = v
            continue
        if isinstance(v, tuple) or name == "basis" and v.dtype.kind == "c":  # matrices of IPSDTA
            v = v if isinstance(v, tuple) else (v,)
            if kind in ("real", "int"):
                v = tuple(gen.spd(rng, b.shape[:3], b.shape[3]).astype(b.dtype) for b in v)
            new = tuple(np.asfortranarray(b) if kind == "fortran" else typed(b, "real" if kind == "int" else kind) for b in v)
            old = tuple(np.ascontiguousarray(np.asarray(b)).astype("c16") for b in new)
            kw[name], ref[name] = (new, old) if len(v) > 1 else (new[0], old[0])
            changed = True
            continue
        v = v.copy()
        t = kind
        if kind in ("real", "int"):
            if name in REALS:
                if name == "latent":
                    kw[name] = ref[name] = v
                    continue
                t = "int"
                v = rng.integers(1, 4, v.shape).astype(float)
            elif name in ("demix_filter", "auxiliary1", "diagonalizer"):
                v = (np.eye(N) if v.ndim == 2 else np.tile(np.eye(N), (I, 1, 1))).astype(v.dtype)
                if kind == "real":
                    v = np.linalg.qr(rng.standard_normal(v.shape))[0].astype(v.dtype)
            elif name == "spatial":
                v = (gen.spd(rng, v.shape[:2], N) if v.ndim == 4 else rng.integers(1, 4, v.shape)).astype(v.dtype)
                t = "real"
            else:
                kw[name] = ref[name] = v
                continue
            if v.dtype.kind == "f" and t == "real":
                t = "fortran"
        if t == "fortran":
            kw[name] = np.asfortranarray(v)
        else:
            kw[name] = typed(v, t)
        ref[name] = np.ascontiguousarray(np.asarray(kw[name])).astype(v.dtype.newbyteorder("="))
        changed = True
    if not changed:
        return None
    kw = {k: v for k, v in kw.items()}
    keep = {k: tuple(x.copy() for x in v) if isinstance(v, tuple) else v.copy() for k, v in kw.items()}
    try:
        m0, want = run(case, X, c16.copy(ref))
    except np.linalg.LinAlgError:
        raise Skip
    m, got = run(case, X, kw)
    for k, v in kw.items():
        if not isinstance(v, tuple) and (v.dtype != keep[k].dtype or not np.array_equal(v, keep[k])):
            raise Violation("starting value %s was modified" % k)
    single = kind == "single"
    judge(case, X, ref, (m, got), (m0, want), "starting values of type %s (%s)" % (kind, sorted(kw)), single)
    return [cfg["cls"], kind, "sa=%s" % cfg.get("sa")]


def helpers():
    """name -> (argument builder, function); results are unique functions of the values."""
    def spec(rng, N, I, J):
        return (gen.cnormal(rng, N, I, J), )

    def two(rng, N, I, J):
        return gen.cnormal(rng, N, I, J), gen.cnormal(rng, N, I, J)

    def herm(rng, N, I, J):
        return (gen.hpd(rng, (I,), N), )

    def herm2(rng, N, I, J):
        return gen.hpd(rng, (I,), N), gen.hpd(rng, (I,), N)

    def real(rng, N, I, J):
        return (rng.standard_normal((N, I, J)), )

    def cov(x):
        Z = transform.whiten(x).transpose(1, 0, 2)
        return Z @ gen.H(Z) / Z.shape[-1]

    def pcov(x):
        Z = transform.pca(x).transpose(1, 0, 2)
        return Z @ gen.H(Z) / Z.shape[-1]

    return {
        "projection_back": (two, lambda a, b: projection_back(a, reference=b, reference_id=0)),
        "projection_back_all": (two, lambda a, b: projection_back(a, reference=b, reference_id=None)),
        "projection_back_filter": (lambda rng, N, I, J: (gen.well_conditioned(rng, (I,), N), ), lambda w: projection_back(w, reference_id=0)),
        "minimal_distortion_principle": (two, lambda a, b: minimal_distortion_principle(a, reference=b, reference_id=0)),
        "whiten": (spec, cov),
        "pca": (spec, pcov),
        "l1": (spec, lambda x: prox.l1(x, 0.3)),
        "l21": (spec, lambda x: prox.l21(x, 0.3, axis2=1)),
        "neg_logdet": (lambda rng, N, I, J: (gen.well_conditioned(rng, (I,), N), ), lambda x: prox.neg_logdet(x, 0.3)),
        "neg_log": (real, lambda x: prox.neg_log(np.abs(x), 0.3)),
        "gmeanmh": (herm2, lambda a, b: linalg.gmeanmh(a, b, type=1)),
        "eigh": (herm2, lambda a, b: linalg.eigh(a, b)[0]),
        "eigh2": (herm2, lambda a, b: linalg.eigh2(a[:, :2, :2], b[:, :2, :2])[0]),
        "sqrtmh": (herm, linalg.sqrtmh),
        "invsqrtmh": (herm, linalg.invsqrtmh),
        "to_psd": (herm, lambda a: special.to_psd(a - 0.5 * np.eye(a.shape[-1], dtype=np.asarray(a).dtype.newbyteorder("=")))),
        "quadratic": (lambda rng, N, I, J: (gen.cnormal(rng, I, N), gen.hpd(rng, (I,), N)), linalg.quadratic),
        "inv2": (lambda rng, N, I, J: (gen.well_conditioned(rng, (I,), 2), ), linalg.inv2),
        "cbrt": (real, linalg.cbrt),
        "logsumexp": (real, lambda x: special.logsumexp(x, axis=-1)),
        "softmax": (real, lambda x: special.softmax(x, axis=0)),
        "max_flooring": (real, special.max_flooring),
        "add_flooring": (real, special.add_flooring),
        "permutation": (lambda rng, N, I, J: (rng.random((I, N, J)) + 0.01, ), lambda x: correlation_based_permutation_solver(x, overwrite=False)),
    }


@facet(P, "functions", lambda: st.fixed_dictionaries({
    "seed": gen.SEED, "fn": st.sampled_from(sorted(helpers())), "N": st.integers(2, 4), "I": st.integers(1, 5), "J": st.integers(12, 40),
    "kind_of": st.sampled_from(["single", "swapped", "real", "memmap", "subclass", "fortran"]), "only": st.sampled_from([None, 0, 1])}), quick=3000, thorough=40000, shards=2,
    rule="every numeric function (scale restoration, whitening, proximal operators, Hermitian linear algebra, special functions, permutation alignment) gives the same values "
         "for arguments in single precision, of the other byte order, real instead of complex, memory-mapped, of an array subclass or in Fortran order, all arguments or one of them; arguments keep "
         "values and type; real data for whitening (another documented layout) trivial, all others evaluated")
def functions(case):
    build, fn = helpers()[case["fn"]]
    if case["kind_of"] == "real" and case["fn"] in ("pca", "whiten"):
        return None  # the documented layout differs between real and complex data
    rng = gen.rng_of(case)
    args = build(rng, case["N"], case["I"], case["J"])
    kind = case["kind_of"]
    with tempfile.TemporaryDirectory(prefix="verif_mm_") as d:
        got_args = []
        for k, a in enumerate(args):
            os.makedirs(os.path.join(d, str(k)))
            if len(args) > 1 and case["only"] not in (None, k):
                b = a
            elif kind == "real" and a.dtype.kind == "c":
                b = a.real.copy()
            elif kind == "fortran":
                b = np.asfortranarray(a)
            elif kind == "real":
                b = a
            else:
                b = typed(a, kind, os.path.join(d, str(k)))
            got_args.append(b)
        ref_args = [np.ascontiguousarray(np.array(b).astype(a.dtype)) for a, b in zip(args, got_args)]
        keep = [np.array(b) for b in got_args]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            want = np.asarray(fn(*ref_args))
            got = np.array(fn(*got_args))
        for a, b in zip(got_args, keep):
            if a.dtype != b.dtype or not np.array_equal(np.array(a), b):
                raise Violation("%s modifies its argument" % case["fn"])
        del got_args
    if got.shape != want.shape:
        raise Violation("%s: shape %s instead of %s for %s arguments" % (case["fn"], got.shape, want.shape, kind))
    tol = 1e-3 if kind == "single" else 1e-8
    e = gen.rel_err(got, want)
    if not e < tol:
        amp = max((gen.rel_err(np.asarray(fn(*[r * (1 + (1e-7 if kind == "single" else 1e-12) * rng.uniform(-1, 1, r.shape)) for r in ref_args])), want) for _ in range(3)),
                  default=0)
        if case["fn"] not in ("gmeanmh", "eigh", "eigh2", "sqrtmh", "invsqrtmh", "to_psd") and amp > 0.05 * tol:
            raise Skip  # ill-conditioned arguments
        raise Violation("%s of %s arguments differs by %.3g" % (case["fn"], kind, e))
    return [case["fn"], kind]
