"""Hermitian linear algebra."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen
from pbt.gen import H, SEED, rng_of
from pbt.harness import Violation, facet
from ssspy.linalg import eigh, eigh2, gmeanmh, inv2, invsqrtmh, quadratic, solve, sqrtmh
from ssspy.special import to_psd

P = "C20"
LEAD = st.lists(gen.mostly(1, 3, 9), min_size=0, max_size=2)
LEAD1 = st.lists(st.integers(1, 4), min_size=1, max_size=2)


def common(**kw):
    d = {"seed": SEED, "lead": LEAD, "n": st.integers(1, 6), "cplx": st.booleans(),
         "log_scale": st.integers(-4, 4), "order": st.sampled_from(["C", "F"])}
    d.update(kw)
    return st.fixed_dictionaries(d)


def herm(rng, lead, n, cplx):
    a = gen.cnormal(rng, *lead, n, n) if cplx else rng.standard_normal((*lead, n, n))
    return (a + H(a)) / 2


def pd(rng, lead, n, cplx):
    return gen.hpd(rng, lead, n) if cplx else gen.spd(rng, lead, n)


def lay(a, case):
    return np.asfortranarray(a) if case["order"] == "F" else np.ascontiguousarray(a)


def unchanged(*pairs):
    for a, b in pairs:
        if not np.array_equal(a, b):
            raise Violation("an argument was modified in place")


def close(a, b, tol, what):
    e = gen.rel_err(a, b)
    if not e < tol:
        raise Violation("%s: relative error %g" % (what, e))


@facet(P, "eigh", lambda: common(type=st.sampled_from([1, 2, 3]), gen=st.booleans(), two=st.booleans(),
                                 mixed=st.booleans()),
       quick=1500, thorough=30000, shards=2,
       rule="Hermitian A (indefinite), positive definite B, problem types 1-3 and the standard "
            "problem, for the general and the 2x2 routine; all evaluated")
def eigh_facet(case):
    rng = rng_of(case)
    n = 2 if case["two"] else case["n"]
    lead = case["lead"]
    s = 10.0 ** case["log_scale"]
    A = lay(herm(rng, lead, n, case["cplx"]) * s, case)
    B = lay(pd(rng, lead, n, case["cplx"] != case["mixed"]), case)
    A0, B0 = A.copy(), B.copy()
    fn = eigh2 if case["two"] else eigh
    if not case["gen"]:
        lamb, z = fn(A)
        lhs, rhs, ref = A @ z, lamb[..., None, :] * z, np.linalg.eigvalsh(A)
        gram, gref = H(z) @ z, np.broadcast_to(np.eye(n), A.shape)
    else:
        t = case["type"]
        lamb, z = fn(A, B) if t == 1 and case["seed"] % 2 else fn(A, B, type=t)
        if t == 1:
            lhs, rhs = A @ z, lamb[..., None, :] * (B @ z)
            ref = np.linalg.eigvals(np.linalg.inv(B) @ A)
            gram = H(z) @ B @ z
        elif t == 2:
            lhs, rhs = A @ B @ z, lamb[..., None, :] * z
            ref = np.linalg.eigvals(A @ B)
            gram = H(z) @ B @ z
        else:
            lhs, rhs = B @ A @ z, lamb[..., None, :] * z
            ref = np.linalg.eigvals(B @ A)
            gram = H(z) @ np.linalg.inv(B) @ z
        gref = np.broadcast_to(np.eye(n), A.shape)
        ref = np.sort(np.real(ref), axis=-1)
    unchanged((A, A0), (B, B0))
    if lamb.shape != A.shape[:-1] or z.shape != A.shape:
        raise Violation("shapes %s %s" % (lamb.shape, z.shape))
    if np.iscomplexobj(lamb):
        raise Violation("eigenvalues of a Hermitian problem are not real")
    sc = np.max(np.abs(ref)) + 1e-300
    if not np.max(np.abs(lamb - np.sort(ref, axis=-1))) < 1e-7 * sc:
        raise Violation("eigenvalues are not the ascending generalised eigenvalues")
    if not np.max(np.abs(lhs - rhs)) < 1e-8 * sc * np.max(np.abs(z)) * 10:
        raise Violation("eigen equation violated by %g" % np.max(np.abs(lhs - rhs)))
    close(gram, gref, 1e-8, "eigenvectors are not normalised/orthogonal in the metric of B")
    return ["two" if case["two"] else "n=%d" % n, "type=%s" % (case["type"] if case["gen"] else "std"),
            "cplx" if case["cplx"] else "real"]


@facet(P, "gmean", lambda: common(type=st.sampled_from([1, 2, 3]), inner=st.booleans(), scale2=st.integers(-3, 3)),
       quick=1000, thorough=20000, shards=2,
       rule="positive definite pairs, three variants, checked against the Riccati equation and "
            "against the eigenvalue definition; all evaluated")
def gmean_facet(case):
    rng = rng_of(case)
    n, lead, t = case["n"], case["lead"], case["type"]
    A = lay(pd(rng, lead, n, case["cplx"]) * 10.0 ** case["log_scale"], case)
    B = lay(pd(rng, lead, n, case["cplx"]) * 10.0 ** case["scale2"], case)
    A0, B0 = A.copy(), B.copy()
    G = gmeanmh(A, B) if t == 1 and case["inner"] else gmeanmh(A, B, type=t)
    unchanged((A, A0), (B, B0))
    Ai, Bi = np.linalg.inv(A), np.linalg.inv(B)
    if t == 1:
        L, R = Ai, B
        swap = gmeanmh(B, A)
    elif t == 2:
        L, R = A, B
        swap = gmeanmh(B, A, type=3)
    else:
        L, R = Ai, Bi
        swap = gmeanmh(B, A, type=2)
    close(G @ L @ G, R, 1e-7, "X A^-1 X = B violated for type %d" % t)
    close(G, H(G), 1e-8, "geometric mean is not Hermitian")
    if not np.min(np.linalg.eigvalsh((G + H(G)) / 2)) > 0:
        raise Violation("geometric mean is not positive definite")
    close(swap, G, 1e-7, "geometric mean is not symmetric in its arguments")
    return ["type=%d" % t, "n=%d" % n, "cplx" if case["cplx"] else "real"]


@facet(P, "sqrt", lambda: common(floor=st.sampled_from([None, "max", "add"]), eps=st.sampled_from([1e-10, 1e-3])),
       quick=1000, thorough=20000, shards=2,
       rule="positive definite matrices, with and without a floor; all evaluated")
def sqrt_facet(case):
    rng = rng_of(case)
    n, lead = case["n"], case["lead"]
    A = lay(pd(rng, lead, n, case["cplx"]) * 10.0 ** case["log_scale"], case)
    A0 = A.copy()
    S = sqrtmh(A)
    close(S @ S, A, 1e-8, "sqrtmh(A)^2 = A violated")
    close(S, H(S), 1e-8, "sqrtmh(A) is not Hermitian")
    if not np.min(np.linalg.eigvalsh((S + H(S)) / 2)) > 0:
        raise Violation("sqrtmh(A) is not positive definite")
    eps = case["eps"]
    fl = {None: None, "max": lambda x: np.maximum(x, eps), "add": lambda x: x + eps}[case["floor"]]
    R = invsqrtmh(A) if fl is None else invsqrtmh(A, flooring_fn=fl)
    unchanged((A, A0))
    # reference: function of the eigenvalues of sqrt(A)
    lam, U = np.linalg.eigh(A)
    r = np.sqrt(lam)
    r = 1 / (r if fl is None else fl(r))
    close(R, (U * r[..., None, :]) @ H(U), 1e-8, "invsqrtmh(A) differs from floored inverse root")
    if fl is None:
        close(R @ A @ R, np.broadcast_to(np.eye(n), A.shape), 1e-7, "A^-1/2 A A^-1/2 = I violated")
    return ["n=%d" % n, "floor=%s" % case["floor"], "cplx" if case["cplx"] else "real"]


@facet(P, "psd", lambda: common(floor=st.sampled_from(["default", None, "max", "add"]),
                                eps=st.sampled_from([1e-10, 1e-3, 0.5])),
       quick=1000, thorough=20000, shards=2,
       rule="arbitrary square matrices incl. rank-deficient and non-Hermitian ones; all evaluated")
def psd_facet(case):
    rng = rng_of(case)
    n, lead = case["n"], case["lead"]
    a = gen.cnormal(rng, *lead, n, n) if case["cplx"] else rng.standard_normal((*lead, n, n))
    if case["seed"] % 3 == 0:  # rank-one PSD
        a = a[..., :1] @ H(a[..., :1])
    a = lay(a * 10.0 ** case["log_scale"], case)
    a0 = a.copy()
    eps = case["eps"]
    kw = {}
    if case["floor"] == "default":
        eps = 1e-10
    elif case["floor"] is None:
        kw["flooring_fn"] = None
    elif case["floor"] == "max":
        kw["flooring_fn"] = lambda x: np.maximum(x, eps)
    else:
        kw["flooring_fn"] = lambda x: x + eps
    Y = to_psd(a, **kw)
    unchanged((a, a0))
    h = (a + H(a)) / 2
    lam, U = np.linalg.eigh(h)
    fl = {"default": lambda x: np.maximum(x, eps), "max": lambda x: np.maximum(x, eps),
          "add": lambda x: x + eps, None: lambda x: x}[case["floor"]]
    ref = (U * fl(lam)[..., None, :]) @ H(U)
    sc = np.max(np.abs(ref)) + 1e-300
    if Y.shape != a.shape or not np.max(np.abs(Y - ref)) < 1e-9 * sc:
        raise Violation("to_psd is not the eigenvalue-floored Hermitian part")
    if not np.max(np.abs(Y - H(Y))) <= 1e-13 * sc:
        raise Violation("to_psd result is not Hermitian")
    if case["floor"] in ("default", "max"):
        if not np.min(np.linalg.eigvalsh(Y)) >= eps - 1e-12 * sc:
            raise Violation("to_psd result has eigenvalues below the floor")
    return ["floor=%s" % case["floor"], "n=%d" % n]


@facet(P, "inv2_quadratic_solve", lambda: common(cols=st.integers(1, 4), vec=st.booleans(), mixed=st.booleans()),
       quick=1000, thorough=20000, shards=2, rule="well-conditioned matrices; all evaluated")
def misc_facet(case):
    rng = rng_of(case)
    n, lead = case["n"], case["lead"]
    c = (lambda *s: gen.cnormal(rng, *s)) if case["cplx"] else (lambda *s: rng.standard_normal(s))
    M = gen.well_conditioned(rng, lead, 2)
    M = lay((M if case["cplx"] else gen.spd(rng, lead, 2) + np.triu(np.ones((2, 2)), 1) * 0.3)
            * 10.0 ** case["log_scale"], case)
    M0 = M.copy()
    close(inv2(M), np.linalg.inv(M), 1e-9, "inv2 differs from the inverse")
    unchanged((M, M0))
    x, A = c(*lead, n), c(*lead, n, n)
    if case.get("mixed"):  # real forms of complex vectors and complex forms of real vectors
        x, A = (x, A.real.copy()) if case["seed"] % 2 else (x.real.copy(), A)
    q = quadratic(x, A)
    ref = np.einsum("...i,...ij,...j->...", x.conj(), A, x)
    if q.shape != tuple(lead):
        raise Violation("quadratic form has shape %s" % (q.shape,))
    if not np.all(np.abs(q - ref) <= 1e-10 * (np.abs(ref) + np.sum(np.abs(x)) ** 2 * np.max(np.abs(A)))):
        raise Violation("quadratic form differs from x^H A x")
    a = gen.well_conditioned(rng, lead, n) if case["cplx"] else gen.spd(rng, lead, n)
    if case["vec"] and lead:
        b = c(*lead, n)
        s = solve(a, b)
        r = (a @ s[..., None])[..., 0]
    elif case["vec"]:
        b = c(n)
        s = solve(a, b)
        r = a @ s
    else:
        b = c(*lead, n, case["cols"])
        s = solve(a, b)
        r = a @ s
    if s.shape != b.shape:
        raise Violation("solve returned shape %s for right-hand side %s" % (s.shape, b.shape))
    close(r, b, 1e-9, "solve does not solve the system")
    return ["n=%d" % n, "vec" if case["vec"] else "mat"]
