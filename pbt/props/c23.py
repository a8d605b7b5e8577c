"""Permutation alignment between frequency bins."""
import itertools
import warnings

import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.gen import SEED
from pbt.harness import Skip, Violation, facet
from ssspy.algorithm.permutation_alignment import correlation_based_permutation_solver, score_based_permutation_solver
from ssspy.bss import _solve_permutation

P = "C23"
SOLVERS = {"correlation": correlation_based_permutation_solver, "score": score_based_permutation_solver}


def envelopes(rng, N, J):
    own = rng.permutation(np.arange(J) % N)
    return np.stack([np.where(own == n, 1.0, 0.1) for n in range(N)]) * (0.7 + 0.6 * rng.random((N, J)))


def make_args(rng, I, N, kinds, perm_of):
    """Companion arrays whose entries are labelled so that their own permutation can be read off."""
    out = []
    for k in kinds:
        tail = {"2d": (), "3d": (3,), "4d": (2, 3), "int": (2,), "complex": (3, 3)}[k]
        a = rng.random((I, N) + tail)
        if k == "int":
            a = np.arange(I * N * 2).reshape(I, N, 2)
        if k == "complex":
            a = a + 1j * rng.random(a.shape)
        out.append(a)
    return out


def call(solver, seq, args, kw):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        res = solver(seq, *args, **kw)
    if len(args) == 0:
        return res, ()
    if len(args) == 1:
        return res[0], (res[1],)
    if len(res) != 2 or len(res[1]) != len(args):
        raise Violation("unexpected return structure for %d companions" % len(args))
    return res[0], tuple(res[1])


def read_permutation(before, after):
    """Permutation per bin with after[i, n] == before[i, p[i, n]], or a violation."""
    I, N = before.shape[:2]
    out = np.zeros((I, N), dtype=int)
    for i in range(I):
        for p in itertools.permutations(range(N)):
            if np.array_equal(after[i], before[i][list(p)]):
                out[i] = p
                break
        else:
            raise Violation("bin %d of the result is not a permutation of the given one" % i)
    return out


def check_joint(seq, args, out, outs, kw_over, seq0, args0):
    """Joint permutation, overwrite semantics; returns the permutation."""
    p = read_permutation(seq0, out)
    for a, b in zip(args0, outs):
        if b.dtype != a.dtype or b.shape != a.shape:
            raise Violation("a companion array changed type or shape")
        for i in range(len(p)):
            if not np.array_equal(b[i], a[i][p[i]]):
                raise Violation("a companion array is not permuted like the sequence (bin %d)" % i)
    if kw_over:
        if not np.array_equal(seq, out) or not all(np.array_equal(a, b) for a, b in zip(args, outs)):
            raise Violation("overwrite=True does not leave the result in the given arrays")
    else:
        if not np.array_equal(seq, seq0) or not all(np.array_equal(a, b) for a, b in zip(args, args0)):
            raise Violation("overwrite=False modifies the given arrays")
    return p


def solver_cases(**kw):
    d = {
        "seed": SEED, "solver": st.sampled_from(list(SOLVERS)), "N": gen.mostly(2, 4, 5), "I": gen.mostly(1, 12, 40), "per": st.integers(8, 20),
        "args": st.lists(st.sampled_from(["2d", "3d", "4d", "int", "complex"]), max_size=6), "over": st.sampled_from([None, True, False]),
        "complex": st.booleans(), "gi": st.sampled_from([None, 1, 2, 5]), "li": st.sampled_from([None, 0, 1, 3]), "floor": st.booleans(),
        "levels": st.sampled_from([2, 2, 2, 14]),
    }
    d.update(kw)
    return st.fixed_dictionaries(d)


def keywords(case):
    kw = {}
    if case["over"] is not None:
        kw["overwrite"] = case["over"]
    if case["solver"] == "score":
        if case["gi"] is not None:
            kw["global_iter"] = case["gi"]
        if case["li"] is not None:
            kw["local_iter"] = case["li"]
    if not case["floor"]:
        kw["flooring_fn"] = None
    return kw


@facet(P, "recovers", solver_cases, quick=2500, thorough=40000, shards=3,
       rule="sources with clearly different activity, permuted at random in every bin (correlation) or in a minority of bins (score); all bins "
            "come back in one common order, companions are permuted alike, overwrite is honoured; all evaluated")
def recovers(case):
    rng = gen.rng_of(case)
    N, I = case["N"], case["I"]
    score = case["solver"] == "score"
    if score:
        I += 5
    J = N * case["per"]
    env = envelopes(rng, N, J)
    Y = env[None] * np.exp(0.2 * rng.standard_normal((I, N, J)))
    perms = np.tile(np.arange(N), (I, 1))
    hit = rng.permutation(I)[: I // 4] if score else np.arange(I)
    for i in hit:
        perms[i] = rng.permutation(N)
    if score:
        lev = case.get("levels", 2)
        Y = (Y + rng.uniform(-1, 1, (I, N, 1))) * np.exp(rng.uniform(-lev, lev, (I, N, 1)))
    else:
        lev = case.get("levels", 2)
        Y = Y * np.exp(rng.uniform(-lev, lev, (I, 1, J)))  # common gain of a time-frequency point
        if case["complex"]:
            Y = Y * np.exp(2j * np.pi * rng.random(Y.shape))
    Y = np.stack([Y[i][perms[i]] for i in range(I)])
    args = make_args(rng, I, N, case["args"], perms)
    seq0, args0 = Y.copy(), [a.copy() for a in args]
    kw = keywords(case)
    out, outs = call(SOLVERS[case["solver"]], Y, args, kw)
    p = check_joint(Y, args, out, outs, kw.get("overwrite", True), seq0, args0)
    final = np.stack([perms[i][p[i]] for i in range(I)])
    if not np.all(final == final[0]):
        raise Violation("bins remain in different orders: %s" % final.tolist())
    if score and not np.array_equal(final[0], np.arange(N)):
        raise Violation("the order of the majority of bins is lost")
    return [case["solver"], "args=%d" % len(args), "over=%s" % case["over"], "N=%d" % N]


@facet(P, "any_data", solver_cases, quick=1500, thorough=20000, shards=2,
       rule="arbitrary positive data: every bin is a permutation of the given one, companions follow, the score solver equals the global and local score "
            "search, the correlation solver equals the documented greedy search and does not depend on the orders it is given (cases with tied scores excluded from that part); all evaluated")
def any_data(case):
    rng = gen.rng_of(case)
    N, I = case["N"], case["I"]
    J = 5 + case["per"]
    Y = rng.random((I, N, J)) + 0.01
    if case["complex"] and case["solver"] == "correlation":
        Y = Y * np.exp(2j * np.pi * rng.random(Y.shape))
    if case.get("levels", 2) > 2:
        Y = Y * np.exp(rng.uniform(-14, 14, (I, 1, 1)))  # bins of very different levels
    args = make_args(rng, I, N, case["args"], None)
    seq0, args0 = Y.copy(), [a.copy() for a in args]
    kw = keywords(case)
    out, outs = call(SOLVERS[case["solver"]], Y, args, kw)
    p = check_joint(Y, args, out, outs, kw.get("overwrite", True), seq0, args0)
    if case["solver"] == "score":
        want = score_search(seq0, kw.get("global_iter", 1), kw.get("local_iter", 1))
        if want is not None and not np.array_equal(p, want):
            raise Violation("score-based alignment differs from the global and local search of the best score")
        return ["score", "args=%d" % len(args), "margin" if want is not None else "tie"]
    want = greedy(seq0)
    if want is not None and not np.array_equal(np.stack([seq0[i][want[i]] for i in range(I)]), out):
        raise Violation("correlation-based alignment differs from the documented greedy search")
    shuffled = np.stack([seq0[i][rng.permutation(N)] for i in range(I)])
    out2, _ = call(SOLVERS["correlation"], shuffled.copy(), [], {})
    if want is not None:
        same = [q for q in itertools.permutations(range(N)) if np.allclose(out2[:, list(q)], out)]
        if not same:
            raise Violation("the alignment depends on the order in which sources were given per bin")
    dep, _ = call(_solve_permutation.correlation_based_permutation_solver, seq0.copy(), [], {"overwrite": False})
    if not np.array_equal(dep, out):
        raise Violation("the deprecated entry point aligns differently")
    return ["correlation", "args=%d" % len(args), "margin" if want is not None else "tie"]


def score_search(Y, n_global, n_local):
    """Best score against the centroids, then against neighbouring and harmonic bins; None when a decision is a tie."""
    I, N, J = Y.shape
    Z = (Y - Y.mean(axis=2, keepdims=True)) / Y.std(axis=2, keepdims=True)
    orders = list(itertools.permutations(range(N)))
    perms = np.tile(np.arange(N), (I, 1))
    std = None

    def best(rows, targets):
        score = []
        for q in orders:
            total = 0.0
            for target in targets:
                for a in range(N):
                    for b in range(N):
                        c = np.dot(rows[q[a]], target[b]) / J / std[a]
                        total += c if a == b else -c
            score.append(total)
        first, second = sorted(score)[-1], sorted(score)[-2]
        if first - second < 1e-9 * np.max(np.abs(score)):
            raise Skip
        return list(orders[int(np.argmax(score))])

    try:
        for _ in range(n_global):
            centroid = Z.mean(axis=0)
            std = np.maximum(centroid.std(axis=1), 1e-10)
            found = [best(Z[i], [centroid]) for i in range(I)]
            Z = np.stack([Z[i][q] for i, q in enumerate(found)])
            perms = np.stack([perms[i][q] for i, q in enumerate(found)])
        for _ in range(n_local):
            for i in range(I):
                near = {k for k in range(i - 3, i + 4) if k != i}
                near |= set(range(i // 2 - 1, i // 2 + 2)) | set(range(2 * i - 1, min(2 * i + 1, I - 1) + 1))
                q = best(Z[i], [Z[k].copy() for k in sorted(near) if 0 <= k < I])
                Z[i], perms[i] = Z[i][q], perms[i][q]
    except Skip:
        return None
    return perms


def greedy(Y):
    """Documented search (least correlated bin first), None when a decision is a tie."""
    I, N, J = Y.shape
    A = np.abs(Y)
    A = A / np.sqrt(np.sum(A**2, axis=1, keepdims=True))
    corr = np.array([np.sum(A[i] @ A[i].T) for i in range(I)])
    order = np.argsort(corr)
    if np.any(np.diff(corr[order]) < 1e-9 * np.abs(corr).max()):
        return None
    perms = np.tile(np.arange(N), (I, 1))
    crit = A[order[0]].copy()
    for i in order[1:]:
        s = [(np.sum(crit * A[i][list(q)]), q) for q in itertools.permutations(range(N))]
        s.sort(key=lambda t: -t[0])
        if s[0][0] - s[1][0] < 1e-9 * abs(s[0][0]):
            return None
        perms[i] = s[0][1]
        crit = crit + A[i][perms[i]]
    return perms


def bad_cases():
    return st.fixed_dictionaries({"seed": SEED, "solver": st.sampled_from(list(SOLVERS)), "what": st.sampled_from(["bins", "sources", "ndim"])})


@facet(P, "rejections", bad_cases, quick=60, thorough=300, rule="companions of another shape and sequences of other dimensions are refused; all evaluated")
def rejections(case):
    rng = gen.rng_of(case)
    Y = rng.random((4, 3, 10))
    a = {"bins": rng.random((5, 3, 2)), "sources": rng.random((4, 2, 2)), "ndim": rng.random((4, 3))}[case["what"]]
    keep = Y.copy()
    try:
        if case["what"] == "ndim":
            SOLVERS[case["solver"]](a)
        else:
            SOLVERS[case["solver"]](Y, rng.random((4, 3)), a)
    except (ValueError, AssertionError):
        if not np.array_equal(Y, keep):
            raise Violation("refused call modified the sequence")
        return [case["what"]]
    raise Violation("an inadmissible argument (%s) was accepted" % case["what"])


def fdica_cases():
    return M.case_for(["GradFDICA", "GradLaplaceFDICA", "AuxFDICA", "AuxLaplaceFDICA"], N=(2, 4), I=(2, 7), J=(25, 45), n_iter=gen.iters(0, 3),
                      mode=st.sampled_from([True, "default", "spectrogram_correlation"]), scr=st.booleans())


@facet(P, "fdica", fdica_cases, quick=800, thorough=12000, shards=2,
       rule="FDICA with alignment gives the per-bin permuted outputs and filters of the run without, in the order of the documented search; all evaluated")
def fdica(case):
    cfg = case["cfg"]
    X = M.mixture_for(case)
    rng = gen.rng_of(case, 6)
    W0 = gen.demix_init(case, case["I"], case["N"])
    if case["scr"]:  # scramble the bins
        W0 = np.stack([w[rng.permutation(case["N"])] for w in W0])
    a = M.build(cfg, permutation_alignment=False, scale_restoration=False)
    Ya = a(X, n_iter=case["n_iter"], demix_filter=W0)
    kw = {} if case["mode"] == "default" else {"permutation_alignment": case["mode"]}
    b = M.build(cfg, scale_restoration=False, **kw)
    Yb = b(X, n_iter=case["n_iter"], demix_filter=W0)
    if not np.all(np.abs(Ya) < 1e100):
        raise Skip  # diverged gradient steps
    want = greedy(Ya.transpose(1, 0, 2))
    if want is None:
        raise Skip
    for i in range(case["I"]):
        if not gen.rel_err(Yb[:, i], Ya[want[i], i]) < 1e-9 or not gen.rel_err(b.demix_filter[i], a.demix_filter[i][want[i]]) < 1e-9:
            raise Violation("bin %d of the aligned result is not the bin of the unaligned run in the documented order" % i)
    if not np.allclose(a.loss, b.loss, rtol=1e-9, atol=1e-9):
        raise Violation("alignment changes the recorded losses")
    worst = np.max(np.linalg.cond(a.demix_filter))
    if not worst < 1e10:
        return [cfg["cls"], "diverging run: objective not compared"]
    if not abs(b.compute_loss() - a.compute_loss()) < 1e-8 * max(1, abs(a.loss[-1])) + 1e-13 * worst:
        raise Violation("alignment changes the objective")
    return [cfg["cls"], "moved" if np.any(want != np.arange(case["N"])) else "unmoved"]


def cacg_cases():
    d = gen.base_case(N=(2, 3), I=(6, 9), J=(40, 60))
    d.update({"n_iter": gen.iters(1, 4), "mode": st.sampled_from([True, "default", "posterior_score", "amplitude_score", "amplitude_correlation"]),
              "norm": st.booleans(), "src": gen.mostly(2, 3, 4), "ref": st.integers(0, 1), "gi": st.sampled_from([None, None, 1, 2, 4]),
              "li": st.sampled_from([None, None, 0, 1, 3])})
    return st.fixed_dictionaries(d)


@facet(P, "cacgmm", cacg_cases, quick=500, thorough=8000, shards=2,
       rule="CACGMM with alignment gives mixing, covariance, posterior and output of the run without, permuted jointly per bin in the order of the documented "
            "search (cases with tied scores excluded from that part); all evaluated")
def cacgmm(case):
    X = gen.mixture(case)
    cfg = {"cls": "CACGMM", "norm": case["norm"]}
    kw = {"n_sources": case["src"], "reference_id": case["ref"]}
    a = M.build(cfg, case["seed"] % 1000, permutation_alignment=False, **kw)
    a(X, n_iter=case["n_iter"])
    k2 = {} if case["mode"] == "default" else {"permutation_alignment": case["mode"]}
    if case["mode"] != "amplitude_correlation":
        k2.update({k: case[v] for k, v in (("global_iter", "gi"), ("local_iter", "li")) if case[v] is not None})
    b = M.build(cfg, case["seed"] % 1000, **k2, **kw)
    out = b(X, n_iter=case["n_iter"])
    if case["mode"] == "amplitude_correlation":
        want = greedy(a.output.transpose(1, 0, 2))
    else:
        target = np.abs(a.output) if case["mode"] == "amplitude_score" else a.posterior
        tight = np.min(target.std(axis=-1) / np.max(target, axis=-1)) < 1e-6  # constant over time: the standardisation is floored
        want = None if tight else score_search(target.transpose(1, 0, 2), k2.get("global_iter", 1), k2.get("local_iter", 1))
    if want is not None:
        for i in range(case["I"]):
            if not gen.rel_err(out[:, i], a.output[want[i], i]) < 1e-9 or not np.allclose(b.posterior[:, i], a.posterior[want[i], i], atol=1e-9):
                raise Violation("bin %d is not in the order of the documented search" % i)
    moved = False
    for i in range(case["I"]):
        for q in itertools.permutations(range(case["src"])):
            q = list(q)
            if np.allclose(b.posterior[:, i], a.posterior[q, i], atol=1e-9):
                break
        else:
            raise Violation("bin %d of the posterior is not a permutation of the unaligned one" % i)
        moved = moved or q != sorted(q)
        if not np.allclose(b.mixing[:, i], a.mixing[q, i], rtol=1e-9) or not np.allclose(b.covariance[:, i], a.covariance[q, i], rtol=1e-9, atol=1e-12):
            raise Violation("bin %d: mixing weights or covariances are not permuted like the posterior" % i)
        if not gen.rel_err(out[:, i], a.output[q, i]) < 1e-9:
            raise Violation("bin %d: the output is not permuted like the posterior" % i)
    if not np.array_equal(out, b.output):
        raise Violation("returned output differs from the attribute")
    return ["mode=%s" % case["mode"], "moved" if moved else "unmoved", "tie" if want is None else "margin"]
