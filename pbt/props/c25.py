"""Numerical special functions."""
import math

import numpy as np
from hypothesis import strategies as st

from pbt.gen import SEED, rng_of
from pbt.harness import Violation, facet
from ssspy.special import add_flooring, identity, logsumexp, max_flooring, softmax

P = "C25"
SHORT = st.lists(st.integers(1, 5), min_size=1, max_size=4)
LONG = st.tuples(st.integers(1, 3), st.integers(6, 400)).flatmap(st.permutations)
SHAPE = st.integers(0, 9).flatmap(lambda k: LONG if k == 9 else SHORT)


def cases():
    return st.fixed_dictionaries({
        "seed": SEED, "shape": SHAPE,
        "axis": st.integers(-4, 4), "axis_none": st.booleans(), "keepdims": st.sampled_from([None, True, False]),
        "spread": st.sampled_from([0.0, 1.0, 30.0, 1000.0, 1e5]), "offset": st.sampled_from([0.0, -1e4, 1e4, 700.0, 1e6]),
        "neginf": st.booleans(),
    })


def data(case):
    rng = rng_of(case)
    s = tuple(case["shape"])
    x = rng.standard_normal(s) * case["spread"] + case["offset"]
    axis = None if case["axis_none"] else (case["axis"] % len(s)) - (len(s) if case["axis"] < 0 else 0)
    if case["neginf"] and x.shape[0 if axis is None else axis] > 1:
        # zero-probability entries, never a whole slice
        m = rng.random(s) < 0.3
        idx = [slice(None)] * len(s)
        idx[0 if axis is None else axis] = 0
        m[tuple(idx)] = False
        x = np.where(m, -np.inf, x)
    return x, axis


def ref_lse(row):
    m = max(row)
    return m + math.log(math.fsum(math.exp(t - m) for t in row))


@facet(P, "logsumexp", cases, quick=1500, thorough=30000, shards=2,
       rule="arrays up to 4-D with offsets up to 1e6, spread up to 1e5, -inf entries; all evaluated")
def lse(case):
    x, axis = data(case)
    x0 = x.copy()
    k = {} if case["keepdims"] is None else {"keepdims": case["keepdims"]}
    y = logsumexp(x, axis=axis, **k)
    if not np.array_equal(x, x0):
        raise Violation("input modified in place")
    want_shape = np.sum(np.where(np.isfinite(x), x, 0), axis=axis, keepdims=bool(case["keepdims"])).shape
    if np.shape(y) != want_shape:
        raise Violation("shape %s, expected %s" % (np.shape(y), want_shape))
    if axis is None:
        rows = x.reshape(1, -1)
    else:
        rows = np.moveaxis(x, axis, -1).reshape(-1, x.shape[axis])
    ref = np.array([ref_lse(list(r)) for r in rows])
    y = np.asarray(y).reshape(-1)
    if not np.all(np.abs(y - ref) <= 1e-10 * (1 + np.abs(ref))):
        raise Violation("logsumexp %r, reference %r" % (y[:3], ref[:3]))
    return ["axis=%s" % ("none" if axis is None else "int"), "spread=%g" % case["spread"]]


@facet(P, "softmax", cases, quick=1500, thorough=30000, shards=2, rule="same arrays; all evaluated")
def smax(case):
    x, axis = data(case)
    x0 = x.copy()
    y = softmax(x, axis=axis)
    if not np.array_equal(x, x0):
        raise Violation("input modified in place")
    if y.shape != x.shape:
        raise Violation("shape changed")
    if axis is None:
        rows, out = x.reshape(1, -1), y.reshape(1, -1)
    else:
        rows = np.moveaxis(x, axis, -1).reshape(-1, x.shape[axis])
        out = np.moveaxis(y, axis, -1).reshape(-1, x.shape[axis])
    for r, o in zip(rows, out):
        m = max(r)
        e = [math.exp(t - m) for t in r]
        s = math.fsum(e)
        ref = np.array([t / s for t in e])
        if not np.all(np.abs(o - ref) <= 1e-10):
            raise Violation("softmax %r, reference %r" % (o, ref))
        if not abs(math.fsum(o) - 1) <= 1e-9:
            raise Violation("softmax does not sum to one")
    return ["axis=%s" % ("none" if axis is None else "int")]


@facet(P, "flooring", st.fixed_dictionaries({
    "seed": SEED, "shape": st.lists(st.integers(0, 5), min_size=0, max_size=3),
    "eps": st.sampled_from([None, 0.0, 1e-12, 1e-3, 1.0]), "log": st.integers(-15, 3)}),
    quick=800, thorough=8000, rule="arrays spanning values below and above the floor; all evaluated")
def flooring(case):
    rng = rng_of(case)
    x = np.asarray(rng.standard_normal(tuple(case["shape"])) * 10.0 ** case["log"])
    k, eps = ({}, 1e-10) if case["eps"] is None else ({"eps": case["eps"]}, case["eps"])
    x0 = x.copy()
    a, b, c = max_flooring(x, **k), add_flooring(x, **k), identity(x)
    if not np.array_equal(x, x0):
        raise Violation("input modified in place")
    if not np.array_equal(a, np.where(x > eps, x, eps)):
        raise Violation("max_flooring is not max(x, eps)")
    if not np.allclose(b, x + eps, rtol=1e-15, atol=0):
        raise Violation("add_flooring is not x + eps")
    if not np.array_equal(c, x):
        raise Violation("identity changed its input")
    return ["eps=%s" % case["eps"]]
