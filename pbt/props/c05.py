"""Spatial update rules minimise the quadratic/log-determinant surrogate they are derived from."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt.gen import SEED, rng_of
from pbt.harness import Violation, facet
from ssspy.bss._update_spatial_model import (
    update_by_block_decomposition_vcd,
    update_by_ip1,
    update_by_ip2,
    update_by_ip2_one_pair,
    update_by_ipa,
    update_by_iss1,
    update_by_iss2,
)
from ssspy.utils.select_pair import combination_pair_selector, sequential_pair_selector

P = "C05"


def common(nmin=1, nmax=5, **kw):
    d = {"seed": SEED, "N": st.integers(nmin, nmax), "I": gen.mostly(1, 4, 20), "J": gen.mostly(15, 40, 160),
         "kind": st.sampled_from(gen.KINDS), "scale": st.sampled_from([1.0, 0.1, 10.0]),
         "layout": st.sampled_from(["C", "F", "view"]),
         "floor": st.sampled_from(["default", None, "max", "add"])}
    d.update(kw)
    return st.fixed_dictionaries(d)


def floor_kw(case):
    return {"default": {}, None: {"flooring_fn": None},
            "max": {"flooring_fn": lambda x: np.maximum(x, 1e-12)},
            "add": {"flooring_fn": lambda x: x + 1e-14}}[case["floor"]]


def weights(case, N, I, J, salt=5):
    rng = rng_of(case, salt)
    phi = np.exp(rng.uniform(-2, 2, size=(N, I, J)))
    if case.get("bcast"):
        phi = phi[:, :1, :]
    return phi


def close(a, b, tol, what):
    e = gen.rel_err(a, b)
    if not e < tol:
        raise Violation("%s: relative error %.3g" % (what, e))


def setup(case, w_salt=77):
    X = gen.mixture(case)
    N, I, J = X.shape
    W = gen.demix_init(case, I, N, w_salt)
    if case["layout"] == "F":
        W = np.asfortranarray(W)
    phi = weights(case, N, I, J)
    full = np.broadcast_to(phi, (N, I, J))
    return X, W, phi, full


def surrogate(W, U):
    """sum_i [ sum_n w^H U w - 2 log|det W| ]"""
    v = 0.0
    for i in range(W.shape[0]):
        for n in range(W.shape[1]):
            w = np.conj(W[i, n])
            v += np.real(np.conj(w) @ U[i, n] @ w)
        v -= 2 * np.log(np.abs(np.linalg.det(W[i])))
    return v


def pick_pairs(case, N):
    """(selector or None, explicit pairs) for a pairwise update."""
    k = case["pairs"]
    if k == "default" or N < 2:
        return None, None
    if k == "seq":
        return sequential_pair_selector, [(i, (i + 1) % N) for i in range(N)]
    if k == "comb":
        return combination_pair_selector, [(i, j) for i in range(N) for j in range(i + 1, N)]
    rng = rng_of(case, 9)
    pr = []
    for _ in range(int(rng.integers(1, 4))):
        m, n = rng.permutation(N)[:2]
        if k == "neg":
            m, n = int(m) - N * int(rng.integers(2)), int(n) - N * int(rng.integers(2))
        pr.append((int(m), int(n)))
    return (lambda n_sources: iter(pr)), pr


@facet(P, "ip1", lambda: common(overwrite=st.sampled_from([None, True, False])), quick=500, thorough=10000, shards=2,
       rule="random filters, data and weights; compared with the row-by-row closed form and with the stationarity "
            "conditions of the last row; all evaluated")
def ip1(case):
    X, W, phi, full = setup(case)
    N, I, J = X.shape
    U = refs.covs(X, full)
    W0, U0 = W.copy(), U.copy()
    kw = floor_kw(case)
    if case["overwrite"] is not None:
        kw["overwrite"] = case["overwrite"]
    out = update_by_ip1(W, U, **kw)
    if not np.array_equal(U, U0):
        raise Violation("covariances were modified")
    if case["overwrite"] is False:
        if not np.array_equal(W, W0):
            raise Violation("filter overwritten although overwrite=False")
    elif not np.array_equal(W, out):
        raise Violation("overwrite=True does not update the given filter")
    ref = refs.ip1(W0, U0)
    close(out, ref, 1e-7, "IP1 differs from the closed form")
    for i in range(I):
        w = np.conj(out[i, N - 1])
        c = out[i] @ U0[i, N - 1] @ w
        e = np.zeros(N)
        e[N - 1] = 1
        if not np.max(np.abs(c - e)) < 1e-6:
            raise Violation("stationarity of the last updated row violated")
    if not surrogate(out, U0) <= surrogate(W0, U0) + 1e-8 * (1 + abs(surrogate(W0, U0))):
        raise Violation("IP1 increased the surrogate")
    return ["N=%d" % N, "overwrite=%s" % case["overwrite"]]


@facet(P, "ip2", lambda: common(2, 5, overwrite=st.sampled_from([None, True, False]),
                                pairs=st.sampled_from(["default", "seq", "comb", "rand", "neg"])),
       quick=500, thorough=10000, shards=2,
       rule="random filters, data, weights and pair orders (incl. negative indices and descending pairs); "
            "compared up to phase with an output-domain reference; all evaluated")
def ip2(case):
    X, W, phi, full = setup(case)
    N, I, J = X.shape
    U = refs.covs(X, full)
    W0, U0 = W.copy(), U.copy()
    kw = floor_kw(case)
    sel, pairs = pick_pairs(case, N)
    if sel is not None:
        kw["pair_selector"] = sel
    else:
        pairs = [(i, (i + 1) % N) for i in range(N)]
    if case["overwrite"] is not None:
        kw["overwrite"] = case["overwrite"]
    out = update_by_ip2(W, U, **kw)
    if not np.array_equal(U, U0):
        raise Violation("covariances were modified")
    if case["overwrite"] is False:
        if not np.array_equal(W, W0):
            raise Violation("filter overwritten although overwrite=False")
    elif not np.array_equal(W, out):
        raise Violation("overwrite=True does not update the given filter")
    ref = refs.ip2(W0, U0, pairs)
    close(refs.align_phase(out, ref), ref, 1e-6, "IP2 differs from the pairwise minimiser")
    m, n = pairs[-1]
    for i in range(I):
        for k in (m, n):
            c = out[i] @ U0[i, k] @ np.conj(out[i, k])
            e = np.zeros(N)
            e[k] = 1
            if not np.max(np.abs(c - e)) < 1e-5:
                raise Violation("stationarity of the last updated pair violated")
    if not surrogate(out, U0) <= surrogate(W0, U0) + 1e-8 * (1 + abs(surrogate(W0, U0))):
        raise Violation("IP2 increased the surrogate")
    # optimality over the pair: no perturbation of the two rows is better
    rng = rng_of(case, 11)
    best = surrogate(out, U0)
    for _ in range(6):
        T = out.copy()
        eps = 10.0 ** rng.uniform(-3, 0.5)
        T[:, [m, n]] += eps * gen.cnormal(rng, I, 2, N) * np.mean(np.abs(out))
        if not surrogate(T, U0) >= best - 1e-8 * (1 + abs(best)):
            raise Violation("the updated pair does not minimise the surrogate")
    return ["N=%d" % N, "pairs=%s" % case["pairs"]]


@facet(P, "ip2_one_pair", lambda: common(2, 5), quick=300, thorough=5000,
       rule="one pair from given pair covariances; filter unmodified; all evaluated")
def ip2_one(case):
    X, W, phi, full = setup(case)
    N, I, J = X.shape
    rng = rng_of(case, 9)
    m, n = (int(v) for v in rng.permutation(N)[:2])
    U = refs.covs(X, full)
    W0 = W.copy()
    Up = U[:, [m, n]].copy()
    out = update_by_ip2_one_pair(W, Up, (m, n), **floor_kw(case))
    if not (np.array_equal(W, W0) and np.array_equal(Up, U[:, [m, n]])):
        raise Violation("an argument was modified")
    ref = refs.ip2_pair(W0, U[:, m], U[:, n], m, n)[:, [m, n]]
    close(refs.align_phase(out, ref), ref, 1e-6, "pair update differs from the pairwise minimiser")
    return ["N=%d" % N]


@facet(P, "iss1", lambda: common(bcast=st.booleans()), quick=500, thorough=10000, shards=2,
       rule="random separated signals and weights (per bin or shared over bins); compared with the source-by-source "
            "closed form; all evaluated")
def iss1(case):
    X, W, phi, full = setup(case)
    Y = refs.apply_w(W, X)
    Y0, p0 = Y.copy(), phi.copy()
    out = update_by_iss1(Y, phi, **floor_kw(case))
    if not (np.array_equal(Y, Y0) and np.array_equal(phi, p0)):
        raise Violation("an argument was modified")
    close(out, refs.iss1(Y0, full), 1e-7, "ISS1 differs from the closed form")
    check_descent(Y0, out, full, "ISS1")
    return ["N=%d" % X.shape[0], "bcast" if case["bcast"] else "full"]


def y_surrogate(Y, Y0, phi):
    W = refs.fit_w(Y, Y0)
    return float(np.sum(np.mean(phi * np.abs(Y) ** 2, axis=2)) - 2 * refs.logdet_sum(W))


def check_descent(Y0, out, full, what):
    a, b = y_surrogate(Y0, Y0, full), y_surrogate(out, Y0, full)
    if not b <= a + 1e-7 * (1 + abs(a)):
        raise Violation("%s increased the surrogate from %.9g to %.9g" % (what, a, b))


@facet(P, "iss2", lambda: common(2, 5, bcast=st.booleans(), pairs=st.sampled_from(["default", "seq", "comb", "rand", "neg"])),
       quick=500, thorough=10000, shards=2,
       rule="random separated signals, weights and pair orders; compared up to phase with the per-bin reference; "
            "the two main outputs must have unit weighted power; all evaluated")
def iss2(case):
    X, W, phi, full = setup(case)
    N, I, J = X.shape
    Y = refs.apply_w(W, X)
    Y0, p0 = Y.copy(), phi.copy()
    kw = floor_kw(case)
    sel, pairs = pick_pairs(case, N)
    if sel is not None:
        kw["pair_selector"] = sel
    else:
        pairs = [(i, (i + 1) % N) for i in range(0, N, 2)]
    out = update_by_iss2(Y, phi, **kw)
    if not (np.array_equal(Y, Y0) and np.array_equal(phi, p0)):
        raise Violation("an argument was modified")
    ref = refs.iss2(Y0, full, pairs)
    close(refs.align_phase(out, ref), ref, 1e-6, "ISS2 differs from the pairwise minimiser")
    check_descent(Y0, out, full, "ISS2")
    return ["N=%d" % N, "pairs=%s" % case["pairs"]]


@facet(P, "ipa", lambda: common(2, 5, bcast=st.booleans(), iters=st.sampled_from([1, 1, 2, 3, 100]),
                                norm=st.sampled_from([None, True, False])),
       quick=400, thorough=8000, shards=2,
       rule="random separated signals and weights, with few or many Newton iterations; compared with the exact "
            "minimiser (bisection) or the same number of Newton steps; all evaluated")
def ipa(case):
    X, W, phi, full = setup(case)
    Y = refs.apply_w(W, X)
    if case["floor"] == "add":
        case = dict(case, floor="default")
    Y0, p0 = Y.copy(), phi.copy()
    kw = floor_kw(case)
    if case["norm"] is not None:
        kw["normalization"] = case["norm"]
    out = update_by_ipa(Y, phi, max_iter=case["iters"], **kw)
    if not (np.array_equal(Y, Y0) and np.array_equal(phi, p0)):
        raise Violation("an argument was modified")
    ref = refs.ipa(Y0, full, None if case["iters"] >= 100 else case["iters"])
    close(out, ref, 1e-5, "IPA differs from the minimiser over one row and one column")
    check_descent(Y0, out, full, "IPA")
    return ["N=%d" % X.shape[0], "iters=%d" % case["iters"]]


def vcd_cases():
    return st.fixed_dictionaries({
        "seed": SEED, "N": gen.mostly(1, 4, 5), "B": gen.mostly(1, 3, 8), "L": gen.mostly(1, 4, 6),
        "J": st.integers(20, 40), "overwrite": st.sampled_from([None, True, False]),
        "diag": st.booleans()})


@facet(P, "vcd", vcd_cases, quick=400, thorough=8000, shards=2,
       rule="random filters and precisions over neighbouring bins (also exactly diagonal ones, where the cross term "
            "vanishes); compared with coordinate-wise closed form; surrogate never increases; all evaluated")
def vcd(case):
    rng = rng_of(case)
    B, L, N, J = case["B"], case["L"], case["N"], case["J"]
    X = gen.cnormal(rng, B, L, N, J)
    W = gen.well_conditioned(rng, (B, L), N)
    prec = gen.hpd(rng, (B, N, J), L, 0.3, 3.0)  # (B, N, J, L, L)
    if case["diag"]:
        prec = prec * np.eye(L)
    # R[b,i,k,n] = mean_j conj(P_ik) x_i x_k^H
    R = np.einsum("bnjik,bimj,bklj->biknml", prec.conj(), X, X.conj()) / J
    if case["diag"]:
        for i in range(L):
            for k in range(L):
                if i != k:
                    R[:, i, k] = 0
    W0, R0 = W.copy(), R.copy()
    kw = {}
    if case["overwrite"] is not None:
        kw["overwrite"] = case["overwrite"]
    out = update_by_block_decomposition_vcd(W, R, **kw)
    if not np.array_equal(R, R0):
        raise Violation("covariances were modified")
    if case["overwrite"] is False:
        if not np.array_equal(W, W0):
            raise Violation("filter overwritten although overwrite=False")
    elif not np.array_equal(W, out):
        raise Violation("overwrite=True does not update the given filter")
    close(out, refs.vcd(W0, R0), 1e-6, "coordinate descent differs from the closed form")

    def obj(W_):
        Y = np.einsum("blnm,blmj->bnjl", W_, X)
        q = np.real(np.einsum("bnji,bnjik,bnjk->", Y.conj(), prec, Y)) / J
        return q - 2 * np.sum(np.log(np.abs(np.linalg.det(W_))))

    a, b = obj(W0), obj(out)
    if not b <= a + 1e-8 * (1 + abs(a)):
        raise Violation("coordinate descent increased the surrogate from %.9g to %.9g" % (a, b))
    # last updated coordinate is a minimiser
    for _ in range(4):
        T = out.copy()
        T[:, L - 1, N - 1] += 10.0 ** rng.uniform(-3, 0) * gen.cnormal(rng, B, N)
        if not obj(T) >= b - 1e-8 * (1 + abs(b)):
            raise Violation("the last updated row does not minimise the surrogate")
    return ["L=%d" % L, "diag" if case["diag"] else "full"]
