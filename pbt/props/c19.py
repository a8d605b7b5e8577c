"""Whitening and PCA."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.gen import SEED, rng_of
from pbt.harness import Violation, facet
from ssspy.transform import pca, whiten

P = "C19"


def cases(**kw):
    return st.fixed_dictionaries({
        "seed": SEED,
        "form": st.sampled_from(["2r", "3c", "3r", "4c"]),
        "n": st.integers(1, 6), "bins": gen.mostly(1, 5, 40), "batch": gen.mostly(1, 3, 14),
        "extra": st.one_of(st.integers(0, 3), gen.mostly(0, 40, 600)), "few": st.just(False),
        "log_scale": st.integers(-6, 6), "spread": st.sampled_from([0, 0, 2, 8]),
        "layout": st.sampled_from(["C", "F"]),
        "offset": st.booleans(),
        "ascend": st.sampled_from([True, False, None]), **kw,
    })


def pca_cases():
    # a rotation exists for recordings of fewer samples than channels, too
    return cases(few=st.sampled_from([False, False, False, True]))


def build(case):
    """Returns the input and the same data as a list of (n, J) matrices."""
    rng = rng_of(case)
    n, I, B = case["n"], case["bins"], case["batch"]
    J = 1 + case["extra"] % n if case["few"] else n + case["extra"]
    cplx = case["form"].endswith("c")
    lead = {"2r": (), "3c": (I,), "3r": (B,), "4c": (B, I)}[case["form"]]
    S = gen.cnormal(rng, *lead, n, J) if cplx else rng.standard_normal((*lead, n, J))
    # full-rank data whose sample covariance has known conditioning
    q, _ = np.linalg.qr(np.swapaxes(S, -1, -2))
    Q = np.swapaxes(q, -1, -2)  # rows orthonormal
    M = gen.well_conditioned(rng, lead, n, lo=0.1, hi=10.0)
    if not cplx:
        M = np.linalg.qr(rng.standard_normal((*lead, n, n)))[0]
        M = M * np.exp(rng.uniform(np.log(0.1), np.log(10), size=(*lead, 1, n)))
    D = (M @ (Q if Q.shape[-2] == n else S)) * 10.0 ** case["log_scale"]
    # bins and batch items of different levels
    D = D * 10.0 ** rng.uniform(-case["spread"] / 2, case["spread"] / 2, size=(*lead, 1, 1))
    if case["offset"]:
        # a constant offset: neither transform removes means
        D = D + 0.5 * np.abs(D).max(axis=(-2, -1), keepdims=True) * np.ones((n, 1)) / np.sqrt(J)
    if case["form"] == "3c":
        X = D.transpose(1, 0, 2)
    elif case["form"] == "4c":
        X = D.transpose(0, 2, 1, 3)
    else:
        X = D
    X = np.asfortranarray(X) if case["layout"] == "F" else np.ascontiguousarray(X)
    return X, D


def unbatch(Y, form):
    if form == "3c":
        return Y.transpose(1, 0, 2)
    if form == "4c":
        return Y.transpose(0, 2, 1, 3)
    return Y


@facet(P, "whiten", cases, quick=1200, thorough=20000, shards=2,
       rule="random full-rank data in every documented layout (2-D real, 3-D complex, 3-D real, "
            "4-D complex); all evaluated")
def whiten_facet(case):
    X, D = build(case)
    keep = X.copy()
    Y = whiten(X)
    if not np.array_equal(X, keep):
        raise Violation("whiten modified its input")
    if Y.shape != X.shape or np.iscomplexobj(Y) != np.iscomplexobj(X):
        raise Violation("whiten changed shape or kind: %s %s" % (Y.shape, Y.dtype))
    W = unbatch(Y, case["form"])
    J = W.shape[-1]
    C = W @ gen.H(W) / J
    e = np.max(np.abs(C - np.eye(case["n"])))
    if not e < 1e-6:
        raise Violation("covariance of whitened data differs from identity by %g" % e)
    # the output is an invertible linear function of the input channels
    T = W @ gen.H(D) @ np.linalg.inv(D @ gen.H(D))
    if np.max(np.abs(T @ D - W)) > 1e-6 * np.sqrt(J):
        raise Violation("whitened data is not a linear transform of the channels")
    return [case["form"], "n=%d" % case["n"], "level spread 1e%d" % case["spread"]]


@facet(P, "pca", pca_cases, quick=1200, thorough=20000, shards=2,
       rule="as for whiten, also with fewer samples than channels, with the ordering flag True, False and default")
def pca_facet(case):
    X, D = build(case)
    keep = X.copy()
    kw = {} if case["ascend"] is None else {"ascend": case["ascend"]}
    Y = pca(X, **kw)
    if not np.array_equal(X, keep):
        raise Violation("pca modified its input")
    if Y.shape != X.shape or np.iscomplexobj(Y) != np.iscomplexobj(X):
        raise Violation("pca changed shape or kind: %s %s" % (Y.shape, Y.dtype))
    W = unbatch(Y, case["form"])
    J = W.shape[-1]
    C = W @ gen.H(W) / J
    p = np.real(np.diagonal(C, axis1=-2, axis2=-1))
    off = C - p[..., None] * np.eye(case["n"])
    top = np.max(p, axis=-1)[..., None, None]
    if not np.max(np.abs(off) / top) < 1e-8:
        raise Violation("components are correlated: %g" % np.max(np.abs(off) / top))
    # principal components carry the eigenvalues of the covariance in the documented order
    lam = np.linalg.eigvalsh(D @ gen.H(D) / J)
    if case["ascend"] in (True, None):
        lam = lam[..., ::-1]
    if not np.max(np.abs(p - lam) / top[..., 0]) < 1e-8:
        raise Violation("component powers are not the ordered eigenvalues of the covariance")
    # rotation: Gram matrix between frames is preserved
    g0, g1 = gen.H(D) @ D, gen.H(W) @ W
    if np.max(np.abs(g1 - g0) / np.max(np.abs(g0), axis=(-2, -1), keepdims=True)) > 1e-8:
        raise Violation("pca is not a unitary rotation of the channels")
    return [case["form"], "ascend=%s" % case["ascend"], "few" if J < case["n"] else "enough"]
