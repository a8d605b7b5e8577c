"""Scalar equation solvers and log-quadratically penalised quadratic minimisation."""
import itertools

import numpy as np
from hypothesis import strategies as st
from numpy.linalg import LinAlgError

from pbt import gen
from pbt.gen import H, SEED, rng_of
from pbt.harness import Violation, facet
from ssspy.linalg import cbrt, lqpqm2, solve_cubic

P = "C21"
def some_long(short):
    return st.integers(0, 14).flatmap(lambda k: st.integers(5, 200).map(lambda n: [n]) if k == 14 else short)


SHAPE = some_long(st.lists(st.integers(1, 4), min_size=1, max_size=3))
SHAPE0 = some_long(st.lists(st.integers(1, 4), min_size=0, max_size=2))


def cubic_cases():
    return st.fixed_dictionaries({
        "seed": SEED, "shape": SHAPE,
        "how": st.sampled_from(["coef", "roots", "tinyp", "zero_ab", "double", "triple"]),
        "cplx": st.booleans(), "lead": st.booleans(), "all": st.sampled_from([True, False, None]),
        "spread": st.integers(0, 4),
    })


@facet(P, "cubic", cubic_cases, quick=2500, thorough=60000, shards=2,
       rule="real and complex coefficients: random, from prescribed (real, conjugate, repeated) "
            "roots, nearly depressed, x^3=c; with and without leading coefficient; all evaluated")
def cubic_facet(case):
    rng = rng_of(case)
    s = tuple(case["shape"])
    r = lambda: gen.cnormal(rng, *s) if case["cplx"] else rng.standard_normal(s)  # noqa: E731
    amp = lambda: 10.0 ** rng.uniform(-case["spread"], case["spread"], size=s)  # noqa: E731
    how = case["how"]
    if how == "coef":
        A, B, C = r() * amp(), r() * amp(), r() * amp()
    elif how == "tinyp":
        A, B, C = np.zeros(s), r() * 10.0 ** rng.uniform(-14, -2, size=s), r()
        if case["cplx"]:
            A = A.astype(complex)
    elif how == "zero_ab":
        C = r() * amp()
        A, B = np.zeros_like(C), np.zeros_like(C)
    else:
        a, b, c = r(), r(), r()
        if how == "double":
            c = b
        if how == "triple":
            b = c = a
        if how == "roots" and not case["cplx"] and case["seed"] % 2:
            b = b + 1j * c
            c = np.conj(b)
        A = -(a + b + c)
        B = a * b + b * c + c * a
        C = -a * b * c
        if not case["cplx"]:
            A, B, C = np.real(A), np.real(B), np.real(C)
    kw = {} if case["all"] is None else {"all": case["all"]}
    if case["lead"]:
        L = r() * amp()
        L = np.where(np.abs(L) < 1e-3, 1.0, L)
        args = (L, L * A, L * B, L * C)
    else:
        args = (A, B, C)
    keep = [x.copy() for x in args]
    x = solve_cubic(*args, **kw)
    if not all(np.array_equal(p, q) for p, q in zip(args, keep)):
        raise Violation("coefficients were modified in place")
    scale = np.abs(A) + np.abs(B) ** 0.5 + np.abs(C) ** (1 / 3) + 1e-300
    if case["all"] is False:
        if x.shape != s:
            raise Violation("one root requested, shape %s returned" % (x.shape,))
        xs = x[None]
    else:
        if x.shape != (3,) + s:
            raise Violation("three roots expected, got shape %s" % (x.shape,))
        xs = x
    res = np.abs(xs**3 + A * xs**2 + B * xs + C) / scale**3
    if not np.all(res < 1e-10):
        raise Violation("returned value is not a root: relative residual %g" % np.nanmax(np.where(np.isfinite(res), res, 9e99)))
    if case["all"] is not False:
        # Vieta: the three values are all roots, with multiplicity
        v = np.stack([np.abs(xs.sum(0) + A) / scale,
                      np.abs(xs[0] * xs[1] + xs[1] * xs[2] + xs[2] * xs[0] - B) / scale**2,
                      np.abs(xs.prod(0) + C) / scale**3])
        if not np.all(v < 1e-9):
            raise Violation("values are not the complete root set (Vieta error %g)" % v.max())
    return [how, "cplx" if case["cplx"] else "real", "lead" if case["lead"] else "monic"]


@facet(P, "cubic_singular", st.fixed_dictionaries({"seed": SEED, "shape": SHAPE}), quick=100, thorough=1000,
       rule="a vanishing leading coefficient somewhere must be refused")
def cubic_singular(case):
    rng = rng_of(case)
    s = tuple(case["shape"])
    A, B, C, D = (rng.standard_normal(s) for _ in range(4))
    A.flat[int(rng.integers(A.size))] = 0
    try:
        solve_cubic(A, B, C, D)
    except LinAlgError:
        return ["refused"]
    raise Violation("vanishing cubic coefficient was accepted")


@facet(P, "cbrt", st.fixed_dictionaries({"seed": SEED, "shape": SHAPE0, "cplx": st.booleans(),
                                         "log": st.integers(-30, 30)}),
       quick=500, thorough=5000, rule="real (either sign) and complex arrays; all evaluated")
def cbrt_facet(case):
    rng = rng_of(case)
    s = tuple(case["shape"])
    x = (gen.cnormal(rng, *s) if case["cplx"] else rng.standard_normal(s)) * 10.0 ** case["log"]
    x = np.asarray(x)
    y = cbrt(x)
    if np.iscomplexobj(y) != np.iscomplexobj(x) or y.shape != x.shape:
        raise Violation("cube root changed kind or shape")
    if not np.all(np.abs(y**3 - x) <= 1e-12 * np.abs(x)):
        raise Violation("cbrt(x)^3 differs from x")
    if case["cplx"] and not np.all(np.abs(np.angle(y)) <= np.pi / 3 + 1e-12):
        raise Violation("not the principal cube root")
    return ["cplx" if case["cplx"] else "real"]


def lq_cases():
    return st.fixed_dictionaries({
        "seed": SEED, "bins": st.integers(1, 6), "n": st.integers(1, 5),
        "v_log": st.sampled_from([-2, -1, 0, 1]), "z_log": st.sampled_from([-3, -1, 0, 1]),
        "h_log": st.sampled_from([-2, 0, 2]),
        "zero": st.sampled_from(["none", "all", "some"]),
        "tiny": st.sampled_from([0, 0, 3, 4, 5, 6, 7, 8, 9, 10, 12]),
        "singular": st.sampled_from([None, "flooring", "default", "callable"]),
        "cond": st.sampled_from(["spread", "clustered"]),
        # size of the component along the leading eigenvector ("hard" case of the secular equation)
        "lead": st.sampled_from([None, None, None, 0.0, 1e-1, 1e-2, 1e-3, 1e-5, 1e-8]),
    })


def lq_obj(y, Hm, v, z):
    q = y + v
    return np.real(np.vdot(y, y)) - np.log(np.real(q.conj() @ Hm @ q) + z)


def lq_ref(Hm, v, z):
    """Global minimiser through the secular equation (bisection in long steps)."""
    phi, U = np.linalg.eigh(Hm)
    if np.linalg.norm(v) == 0:
        pm = phi[-1]
        t = max(pm - z, 0.0) / pm
        return np.sqrt(t) * U[:, -1]
    c = U.conj().T @ v
    w = phi * np.abs(c) ** 2

    def f(lam):
        return lam**2 * np.sum(w / (lam - phi) ** 2) - lam + z

    pm = phi[-1]
    lead = np.abs(c[-1]) * np.sqrt(pm) <= 1e-13
    if lead:
        # no component along the leading eigenvector (up to rounding of the eigenvectors)
        rest = w[:-1] / (pm - phi[:-1]) ** 2
        left = pm - z - pm**2 * np.sum(rest)
        if left >= 0:
            y = np.append(phi[:-1] * c[:-1] / (pm - phi[:-1]), np.sqrt(left / pm))
            return U @ y
        w[-1] = 0
        c[-1] = 0
    lo, hi = pm, 2 * pm + z + 4 * np.sum(w) + 1.0
    while f(hi) > 0:
        hi *= 2
    for _ in range(300):
        mid = 0.5 * (lo + hi)
        if mid <= lo or mid >= hi:
            break
        if f(mid) > 0:
            lo = mid
        else:
            hi = mid
    lam = 0.5 * (lo + hi)
    return U @ (phi * c / (lam - phi))


@facet(P, "lqpqm", lq_cases, quick=1200, thorough=30000, shards=2,
       rule="positive definite quadratic terms, linear terms from 1e-12 to 10 and exactly zero "
            "(alone or mixed within a batch), with a weak or no component along the leading eigenvector, constants 1e-3..10; all evaluated")
def lq_facet(case):
    rng = rng_of(case)
    I, n = case["bins"], case["n"]
    lo, hi = (0.1, 3.0) if case["cond"] == "spread" else (0.9, 1.1)
    Hm = gen.hpd(rng, (I,), n, lo, hi) * 10.0 ** case["h_log"]
    # linear terms with a component along every eigenvector (generic position)
    phi, U = np.linalg.eigh(Hm)
    c = (0.2 + rng.random((I, n))) * np.exp(2j * np.pi * rng.random((I, n)))
    if case.get("lead") is not None and n > 1:
        c[:, -1] *= case["lead"]
    v = (U @ c[:, :, None])[:, :, 0] * 10.0 ** (-case["tiny"] if case["tiny"] else case["v_log"])
    if case["zero"] == "all":
        v = np.zeros_like(v)
    elif case["zero"] == "some":
        v[rng.random(I) < 0.5] = 0
    z = 10.0 ** case["z_log"] * (0.5 + rng.random(I)) * 10.0 ** case["h_log"]
    kw = {}
    if case["singular"] is None:
        kw["singular_fn"] = None
    elif case["singular"] == "flooring":
        kw["singular_fn"] = "flooring"
    elif case["singular"] == "callable":
        kw["singular_fn"] = lambda x: x < 1e-12
    keep = (Hm.copy(), v.copy(), z.copy())
    hard = n > 1 and case.get("lead") is not None
    if not hard and case["cond"] == "spread" and case["tiny"] == 0 and case["zero"] == "none" and case["seed"] % 2:
        y = lqpqm2(Hm, v, z, max_iter=25, **kw)
    else:
        y = lqpqm2(Hm, v, z, max_iter=200, **kw)
    if not (np.array_equal(Hm, keep[0]) and np.array_equal(v, keep[1]) and np.array_equal(z, keep[2])):
        raise Violation("an argument was modified in place")
    if y.shape != v.shape:
        raise Violation("solution has shape %s" % (y.shape,))
    for i in range(I):
        ref = lq_ref(Hm[i], v[i], z[i])
        a, b = lq_obj(y[i], Hm[i], v[i], z[i]), lq_obj(ref, Hm[i], v[i], z[i])
        # a linear term below the library's floor is treated as absent
        if not a <= b + (1e-4 if case["tiny"] else 1e-6 if hard else 1e-7) * (1 + abs(b)):
            raise Violation("objective %.9g at the returned point, %.9g at the minimiser" % (a, b))
        q = y[i] + v[i]
        den = np.real(q.conj() @ Hm[i] @ q) + z[i]
        g = y[i] - Hm[i] @ q / den
        if case["tiny"] == 0 and not hard and not np.max(np.abs(g)) <= 1e-4 * (1 + np.max(np.abs(y[i]))):
            raise Violation("gradient %g at the returned point" % np.max(np.abs(g)))
    return ["zero=%s" % case["zero"], "n=%d" % n, "lead=%s" % case.get("lead")]
