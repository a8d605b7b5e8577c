"""Complex angular central Gaussian mixture model: EM iterations, posteriors and masked outputs."""
import itertools

import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.gen import H as herm
from pbt.harness import Violation, facet
from ssspy.bss.cacgmm import CACGMM

P = "C09"


def forms(Z, B):
    """z^H B^-1 z for all sources, bins, frames."""
    u = np.linalg.solve(B, np.broadcast_to(Z.transpose(1, 0, 2), B.shape[:2] + (Z.shape[0], Z.shape[2])))
    return np.real(np.einsum("mij,nimj->nij", np.conj(Z), u))


def log_joint(Z, alpha, B):
    _, ld = np.linalg.slogdet(B)
    return (np.log(alpha) - ld)[:, :, None] - Z.shape[0] * np.log(forms(Z, B))


def posterior(Z, alpha, B):
    a = log_joint(Z, alpha, B)
    a = np.exp(a - a.max(axis=0))
    return a / a.sum(axis=0)


def em_step(Z, alpha, B, norm):
    if not well(alpha, B):
        return None
    g = posterior(Z, alpha, B)
    q = forms(Z, B)
    tot = g.sum(axis=2)
    if np.min(tot) < 1e-3:
        return None
    new = np.einsum("nij,mij,lij->niml", g / q, Z, np.conj(Z)) * Z.shape[0] / tot[:, :, None, None]
    new = (new + herm(new)) / 2
    if norm:
        new = new / np.real(np.trace(new, axis1=-2, axis2=-1))[:, :, None, None]
    if not well(g.mean(axis=2), new):
        return None
    return g, g.mean(axis=2), new


def well(alpha, B):
    return np.min(alpha) > 1e-5 and np.min(np.linalg.eigvalsh((B + herm(B)) / 2)) > 1e-5


def cmp(got, want, tol, what):
    e = gen.rel_err(got, want)
    if not e < tol:
        raise Violation("%s: relative error %.3g" % (what, e))


def shortened(case):
    """One case in nine has few frames and often more bins than frames (and takes one step, as components collapse onto frames)."""
    if case["seed"] % 9 == 0:
        k = case["seed"] // 9
        case = dict(case, J=4 * case["M"] + k % 7, I=case["I"] + k // 7 % 20, n_iter=min(case["n_iter"], 1))
    return case


def cases():
    return st.fixed_dictionaries({
        "seed": gen.SEED, "cls": st.just("CACGMM"), "N": gen.mostly(1, 3, 5), "M": gen.mostly(2, 3, 4), "I": gen.mostly(1, 4, 20), "J": gen.mostly(40, 70, 200),
        "kind": st.sampled_from(gen.KINDS), "scale": st.sampled_from([1.0, 1e-3, 1e3]), "layout": st.sampled_from(["C", "F", "view"]),
        "norm": st.booleans(), "perm": st.sampled_from([False, False, True, "posterior_score", "amplitude_score", "amplitude_correlation"]),
        "n_iter": gen.iters(0, 4), "ref": st.integers(0, 4), "floor": st.sampled_from(["default", "default", None, "tiny"]), "explicit": st.booleans(),
    }).map(shortened)


@facet(P, "em", cases, quick=4000, thorough=60000, shards=8,
       rule="random mixtures, 1-3 sources x 2-3 channels; initial state, each EM iteration, final posterior and output recomputed; "
            "all evaluated, ill-conditioned steps are tagged")
def em(case):
    rng = gen.rng_of(case)
    N, Mc, I, J = case["N"], case["M"], case["I"], case["J"]
    S = gen.sources(rng, max(N, Mc), I, J, case["kind"])
    A = gen.well_conditioned(rng, (I,), Mc, max(N, Mc))
    X = (A @ S.transpose(1, 0, 2)).transpose(1, 0, 2) * case["scale"]
    if case["layout"] == "F":
        X = np.asfortranarray(X)
    elif case["layout"] == "view":
        X = np.repeat(X, 2, axis=2)[:, :, ::2]
    tr = M.Trace(["mixing", "covariance", "posterior"])
    ref = case["ref"] % Mc
    kw = dict(normalization=case["norm"], permutation_alignment=case["perm"], reference_id=ref, callbacks=tr,
              rng=np.random.default_rng(case["seed"]), record_loss=case["seed"] % 2 == 0)
    if case["explicit"] or N != Mc:
        kw["n_sources"] = N
    if case["floor"] is None:
        kw["flooring_fn"] = None
    elif case["floor"] == "tiny":
        kw["flooring_fn"] = lambda x: np.maximum(x, 1e-13)
    m = CACGMM(**kw)
    out = m(X, n_iter=case["n_iter"])
    St = tr.states
    if len(St) != case["n_iter"] + 1:
        raise Violation("%d callback calls for %d iterations" % (len(St), case["n_iter"]))
    Z = X / np.sqrt(np.sum(np.abs(X) ** 2, axis=0))
    s = St[0]
    a, B = s["mixing"], s["covariance"]
    if a.shape != (N, I) or B.shape != (N, I, Mc, Mc) or np.min(a) < 0:
        raise Violation("initial parameters have shapes %s, %s" % (a.shape, B.shape))
    cmp(a.sum(axis=0), np.ones(I), 1e-9, "initial mixing weights")
    d = np.diagonal(B, axis1=-2, axis2=-1)
    if np.max(np.abs(B - d[..., None] * np.eye(Mc))) > 0 or np.min(d.real) < 0 or np.max(np.abs(d.imag)) > 0:
        raise Violation("initial covariances are not non-negative diagonal matrices")
    cmp(d.sum(axis=-1), np.ones((N, I)), 1e-9, "traces of the initial covariances")
    tags = ["norm=%s" % case["norm"], "perm=%s" % case["perm"], "N-M=%d" % (N - Mc), "scale=%g" % case["scale"]]
    for k in range(case["n_iter"]):
        p, q = St[k], St[k + 1]
        want = refs.stable(lambda x: em_step(Z, x[0], x[1], case["norm"]), (p["mixing"], p["covariance"]))
        if want is None:
            tags.append("ill-conditioned step not compared")
            continue
        for key, v in zip(["posterior", "mixing", "covariance"], want):
            cmp(q[key], v, 1e-6, "%s after iteration %d differs from the reference" % (key, k + 1))
        tags.append("step compared")
    a, B = St[-1]["mixing"], St[-1]["covariance"]
    if not well(a, B):
        return tags + ["final state ill-conditioned"]
    g = posterior(Z, a, B)
    if not case["perm"]:
        cmp(m.posterior, g, 1e-6, "final posterior differs from Bayes' rule")
        cmp(m.mixing, a, 1e-12, "final mixing weights")
        cmp(m.covariance, B, 1e-12, "final covariances")
    else:
        for i in range(I):  # parameters and posterior of each bin permuted jointly
            ok = [q for q in itertools.permutations(range(N))
                  if gen.rel_err(m.posterior[:, i], g[list(q), i]) < 1e-6 and gen.rel_err(m.mixing[:, i], a[list(q), i]) < 1e-9
                  and gen.rel_err(m.covariance[:, i], B[list(q), i]) < 1e-9]
            if not ok:
                raise Violation("parameters and posterior of bin %d are not a joint permutation of the unaligned ones" % i)
        g = m.posterior
    cmp(m.posterior.sum(axis=0), np.ones((I, J)), 1e-9, "sum of the posteriors")
    cmp(out, g * X[ref], 1e-6, "output differs from the posterior times the reference channel")
    cmp(m.separate(X), out, 1e-6, "separate() without posterior differs from the output")
    cmp(m.separate(X, posterior=np.ones((N, I, J)) * 0.5), np.repeat(X[ref][None], N, axis=0) * 0.5, 1e-10, "separate() with a given posterior")
    return tags
