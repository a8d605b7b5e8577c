"""Proximal operators satisfy the optimality condition of their defining problem."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.gen import H, SEED, rng_of
from pbt.harness import Violation, facet
from ssspy.linalg import prox

P = "C22"
STEP = st.sampled_from([None, 1e-3, 0.1, 0.5, 1, 2.0, 10.0])


def cases(**kw):
    d = {"seed": SEED, "shape": st.lists(gen.mostly(1, 5, 12), min_size=1, max_size=4), "cplx": st.booleans(),
         "step": STEP, "log": st.integers(-2, 2), "sparse": st.booleans()}
    d.update(kw)
    return st.fixed_dictionaries(d)


def data(case, shape):
    rng = rng_of(case)
    x = gen.cnormal(rng, *shape) if case["cplx"] else rng.standard_normal(shape)
    x = x * 10.0 ** case["log"]
    if case["sparse"]:
        x = x * (rng.random(shape) < 0.6)
    return x


def kw(case):
    return ({}, 1.0) if case["step"] is None else ({"step_size": case["step"]}, float(case["step"]))


def check_group(x, y, norm_x, norm_y, mu):
    """Subdifferential of mu*|.| at y contains x - y (groups given by their norms)."""
    tol = 1e-12 * (norm_x + mu)
    zero = norm_y <= tol
    if np.any(zero & (norm_x > mu * (1 + 1e-9) + tol)):
        raise Violation("a group larger than the threshold was set to zero")
    safe = np.where(zero, 1, norm_y)
    r = np.abs(y - x + mu * y / safe)
    if np.any(~zero & ~(r <= 1e-10 * (norm_x + mu))):
        raise Violation("0 is not in the subdifferential at the returned point: %g" % np.max(r))


@facet(P, "l1", cases, quick=1000, thorough=20000, shards=2,
       rule="real/complex arrays with exact zeros, thresholds below and above the entries; all evaluated")
def l1(case):
    x = data(case, tuple(case["shape"]))
    k, mu = kw(case)
    x0 = x.copy()
    y = prox.l1(x, **k)
    if not np.array_equal(x, x0):
        raise Violation("input modified in place")
    if y.shape != x.shape or np.iscomplexobj(y) != np.iscomplexobj(x):
        raise Violation("shape or kind changed")
    check_group(x, y, np.abs(x), np.abs(y), mu)
    return ["step=%s" % case["step"]]


@facet(P, "l21", lambda: cases(axis2=st.sampled_from([None, -1, -2, 0])), quick=1000, thorough=20000, shards=2,
       rule="groups along every axis; all evaluated")
def l21(case):
    shape = tuple(case["shape"])
    ax = case["axis2"]
    axis = -1 if ax is None else ax
    if axis == -2 and len(shape) < 2:
        axis = -1
        ax = None
    x = data(case, shape)
    k, mu = kw(case)
    if ax is not None:
        k = dict(k, axis2=axis)
    x0 = x.copy()
    y = prox.l21(x, **k)
    if not np.array_equal(x, x0):
        raise Violation("input modified in place")
    if y.shape != x.shape or np.iscomplexobj(y) != np.iscomplexobj(x):
        raise Violation("shape or kind changed")
    nx = np.sqrt(np.sum(np.abs(x) ** 2, axis=axis, keepdims=True)) * np.ones(shape)
    ny = np.sqrt(np.sum(np.abs(y) ** 2, axis=axis, keepdims=True)) * np.ones(shape)
    check_group(x, y, nx, ny, mu)
    return ["axis=%s" % case["axis2"]]


@facet(P, "neg_log", cases, quick=600, thorough=10000,
       rule="nonnegative arrays including exact zeros; all evaluated")
def neg_log(case):
    x = np.abs(data(case, tuple(case["shape"])))
    k, mu = kw(case)
    y = prox.neg_log(x, **k)
    if y.shape != x.shape or not np.all(y > 0):
        raise Violation("result is not positive")
    if not np.all(np.abs(y - x - mu / y) <= 1e-9 * (x + mu / y + np.sqrt(mu))):
        raise Violation("stationarity y - x = step / y violated")
    return ["zeros" if np.any(x == 0) else "positive"]


@facet(P, "neg_logdet", lambda: cases(lead=st.lists(st.integers(1, 4), min_size=0, max_size=2),
                                      n=st.integers(1, 5), rank1=st.booleans()),
       quick=1000, thorough=20000, shards=2,
       rule="square matrices incl. singular ones; optimality for -log|det| and minimality among "
            "perturbed candidates; all evaluated")
def neg_logdet(case):
    n, lead = case["n"], tuple(case["lead"])
    c = dict(case, sparse=False)
    x = data(c, lead + (n, n))
    if case["rank1"]:
        x = x[..., :1] * np.ones(n)
    k, mu = kw(case)
    x0 = x.copy()
    y = prox.neg_logdet(x, **k)
    if not np.array_equal(x, x0):
        raise Violation("input modified in place")
    if y.shape != x.shape or np.iscomplexobj(y) != np.iscomplexobj(x):
        raise Violation("shape or kind changed")
    r = y - x - mu * H(np.linalg.inv(y))
    sc = np.max(np.abs(x)) + np.sqrt(mu) + np.max(np.abs(y))
    if not np.max(np.abs(r)) <= 1e-7 * sc:
        raise Violation("stationarity Y - X = step * Y^-H violated by %g" % np.max(np.abs(r)))
    # the singular values never shrink (the minimiser, not another stationary point)
    sx = np.linalg.svd(x, compute_uv=False)
    sy = np.linalg.svd(y, compute_uv=False)
    want = (sx + np.sqrt(sx**2 + 4 * mu)) / 2
    if not np.max(np.abs(sy - want)) <= 1e-8 * sc:
        raise Violation("singular values are not those of the minimiser")
    return ["rank1" if case["rank1"] else "full", "n=%d" % n]
