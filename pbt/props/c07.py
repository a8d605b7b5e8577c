"""Multichannel NMF: every iteration is the documented step, outputs are multichannel Wiener estimates."""
import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.gen import H as herm
from pbt.harness import Skip, Violation, facet
from ssspy.bss.mnmf import FastGaussMNMF, GaussMNMF

P = "C07"


def model_cov(L, H):
    """L (N, I, J), H (N, I, M, M) -> (I, J, M, M)."""
    return np.einsum("nij,niab->ijab", L, H)


def floor_free(*arrays):
    return all(np.all(np.isfinite(a)) and np.min(a) > 1e-7 for a in arrays)


def traces(X, L, H):
    """A_nij = x^H R^-1 H R^-1 x, B_nij = tr(R^-1 H)."""
    R = model_cov(L, H)
    if np.min(np.linalg.eigvalsh((R + herm(R)) / 2)) < 1e-4:
        raise Skip
    Ri = np.linalg.inv(R)
    u = np.einsum("ijab,bij->ija", Ri, X)
    A = np.real(np.einsum("ija,niab,ijb->nij", np.conj(u), H, u))
    B = np.real(np.einsum("ijab,niba->nij", Ri, H))
    return A, B, Ri, u


def mnmf_step(X, state, part, norm):
    T, V, H = state[:3]
    Z = state[3] if part else None
    A, B, _, _ = traces(X, refs.nmf_model(T, V, Z), H)
    if part:
        T = T * np.sqrt(np.einsum("nk,kj,nij->ik", Z, V, A) / np.einsum("nk,kj,nij->ik", Z, V, B))
    else:
        T = T * np.sqrt(np.einsum("nkj,nij->nik", V, A) / np.einsum("nkj,nij->nik", V, B))
    A, B, _, _ = traces(X, refs.nmf_model(T, V, Z), H)
    if part:
        V = V * np.sqrt(np.einsum("nk,ik,nij->kj", Z, T, A) / np.einsum("nk,ik,nij->kj", Z, T, B))
    else:
        V = V * np.sqrt(np.einsum("nik,nij->nkj", T, A) / np.einsum("nik,nij->nkj", T, B))
    L = refs.nmf_model(T, V, Z)
    _, _, Ri, u = traces(X, L, H)
    new = np.empty_like(H)
    for n in range(H.shape[0]):
        for i in range(H.shape[1]):
            Pm = np.einsum("j,jab->ab", L[n, i], Ri[i])
            Q = np.einsum("j,ja,jb->ab", L[n, i], u[i], np.conj(u[i]))
            C = H[n, i] @ Q @ H[n, i]
            # the positive definite solution of G P G = C
            s = scipy.linalg.sqrtm(Pm)
            si = np.linalg.inv(s)
            C = s @ C @ s
            G = si @ scipy.linalg.sqrtm((C + herm(C)) / 2) @ si
            new[n, i] = (G + herm(G)) / 2
    H = new
    if np.min(np.linalg.eigvalsh(H)) < 1e-4:
        raise Skip
    if norm:
        t = np.real(np.trace(H, axis1=-2, axis2=-1))
        H = H / t[..., None, None]
        if not part:
            T = T * t[..., None]
    if not part:
        return T, V, H
    A, B, _, _ = traces(X, refs.nmf_model(T, V, Z), H)
    Z = Z * np.sqrt(np.einsum("ik,kj,nij->nk", T, V, A) / np.einsum("ik,kj,nij->nk", T, V, B))
    return T, V, H, Z / Z.sum(axis=0)


def fast_power(Q, X):
    return np.abs(np.einsum("imc,cij->imj", Q, X)) ** 2


def fast_step(X, state, sa, pairs, norm):
    """T (N,I,K), V (N,K,J), Q (I,M,M), D (I,N,M)."""
    T, V, Q, D = state
    y2 = fast_power(Q, X)

    def ratios():
        S = np.einsum("nij,inm->imj", refs.nmf_model(T, V), D)
        return y2 / S**2, 1 / S

    a, b = ratios()
    T = T * np.sqrt(np.einsum("nkj,inm,imj->nik", V, D, a) / np.einsum("nkj,inm,imj->nik", V, D, b))
    a, b = ratios()
    V = V * np.sqrt(np.einsum("nik,inm,imj->nkj", T, D, a) / np.einsum("nik,inm,imj->nkj", T, D, b))
    S = np.einsum("nij,inm->imj", refs.nmf_model(T, V), D)
    U = refs.covs(X, (1 / S).transpose(1, 0, 2))
    if sa in ("IP", "IP1"):
        Q = refs.ip1(Q, U)
    else:
        margins = []
        Q = refs.ip2(Q, U, pairs, margins)
        if not min(margins) > 1e-6:
            return None
    y2 = fast_power(Q, X)
    a, b = ratios()
    L = refs.nmf_model(T, V)
    D = D * np.sqrt(np.einsum("nij,imj->inm", L, a) / np.einsum("nij,imj->inm", L, b))
    if norm:
        psi2 = np.mean(fast_power(Q, X), axis=(0, 2))
        Q = Q / np.sqrt(psi2)[None, :, None]
        D = D / psi2
    return T, V, Q, D


def shortened(case):
    """One case in nine has few frames and often more bins than frames (and takes one step, as these models collapse quickly)."""
    if case["seed"] % 9 == 0:
        k = case["seed"] // 9
        case = dict(case, J=2 * case["M"] + 1 + k % 7, I=case["I"] + k // 7 % 10, n_iter=min(case["n_iter"], 1))
    return case


def cases():
    return st.fixed_dictionaries({
        "seed": gen.SEED, "N": gen.mostly(1, 3, 5), "M": gen.mostly(2, 3, 4), "I": gen.mostly(1, 4, 20), "J": gen.mostly(20, 35, 160),
        "K": gen.mostly(1, 3, 6), "kind": st.sampled_from(gen.KINDS), "scale": st.sampled_from([1.0, 1.0, 0.3, 10.0, 1.0, 0.3, 10.0, 1e3, 1e-3]),
        "layout": st.sampled_from(["C", "F", "view"]), "norm": st.booleans(), "part": st.booleans(),
        "sa": st.sampled_from(["IP", "IP1", "IP2"]), "pairs": st.sampled_from(M.PAIRS), "n_iter": gen.iters(0, 3),
        "init": st.sampled_from(["default", "given"]), "ref": st.integers(0, 4), "floor": st.sampled_from(["default", "default", None, "tiny", "add"]),
        "explicit": st.booleans(),
    }).map(shortened)


def data(case):
    rng = gen.rng_of(case)
    N, Mc, I, J = case["N"], case["M"], case["I"], case["J"]
    S = gen.sources(rng, max(N, Mc), I, J, case["kind"])
    A = gen.well_conditioned(rng, (I,), Mc, max(N, Mc))
    X = (A @ S.transpose(1, 0, 2)).transpose(1, 0, 2) * case["scale"]
    if case["layout"] == "F":
        return np.asfortranarray(X)
    if case["layout"] == "view":
        return np.repeat(X, 2, axis=2)[:, :, ::2]
    return np.ascontiguousarray(X)


def setup(case, cls):
    X = data(case)
    N, Mc, I, J, K = case["N"], case["M"], case["I"], case["J"], case["K"]
    rng = gen.rng_of(case, 1)
    tr = M.Trace()
    kw = dict(n_basis=K, normalization=case["norm"], reference_id=case["ref"] % Mc, callbacks=tr, rng=np.random.default_rng(case["seed"]),
              record_loss=case["seed"] % 2 == 0)
    if case["explicit"] or N != Mc:
        kw["n_sources"] = N
    if case["floor"] is None:
        kw["flooring_fn"] = None
    elif case["floor"] == "tiny":
        kw["flooring_fn"] = lambda x: np.maximum(x, 1e-13)
    elif case["floor"] == "add":
        kw["flooring_fn"] = lambda x: x + 1e-13
    call = {}
    part = case["part"] and cls is GaussMNMF
    s2 = case["scale"] ** 2
    if case["init"] == "given":
        def pos(*s):
            return np.exp(rng.uniform(-1.5, 1, s))
        if part:
            call = {"basis": pos(I, K) * s2, "activation": pos(K, J), "latent": pos(N, K)}
            call["latent"] /= call["latent"].sum(axis=0)
        else:
            call = {"basis": pos(N, I, K) * s2, "activation": pos(N, K, J)}
        if cls is GaussMNMF:
            call["spatial"] = gen.hpd(rng, (N, I), Mc)
        else:
            call["spatial"] = pos(I, N, Mc)
            call["diagonalizer"] = gen.well_conditioned(rng, (I,), Mc)
    if cls is GaussMNMF:
        kw["partitioning"] = part
    else:
        kw["diagonalizer_algorithm"] = case["sa"]
        if case["sa"] == "IP2" and M.pair_selector(case["pairs"]) is not None:
            kw["pair_selector"] = M.pair_selector(case["pairs"])
    return X, cls(**kw), tr, call, part


def cmp(got, want, tol, what):
    e = gen.rel_err(got, want)
    if not e < tol:
        raise Violation("%s: relative error %.3g" % (what, e))


def check_initial(s, call, case, part):
    N, Mc, I, J, K = case["N"], case["M"], case["I"], case["J"], case["K"]
    for k, v in call.items():
        if not np.array_equal(s[k], v):
            raise Violation("the given %s is not the starting point" % k)
    if call:
        return
    shapes = {"basis": (I, K), "activation": (K, J), "latent": (N, K)} if part else {"basis": (N, I, K), "activation": (N, K, J)}
    for k, shp in shapes.items():
        if s[k].shape != shp or np.min(s[k]) < 0 or np.max(s[k]) > 1 + 1e-9:
            raise Violation("initial %s is not a random array in [0, 1) of shape %s" % (k, shp))
    if part:
        cmp(s["latent"].sum(axis=0), np.ones(K), 1e-6, "columns of the initial latent variables")


def compare(case, X, tr, step, keys, align, tags):
    for k in range(case["n_iter"]):
        a = tuple(tr.states[k][x] for x in keys)
        b = tuple(tr.states[k + 1][x] for x in keys)
        if not floor_free(*[v for x, v in zip(keys, a) if x in ("basis", "activation", "latent")]):
            tags.append("floored step not compared")
            continue

        def stepper(state):
            try:
                return step(state)
            except Skip:
                return None
        ref = refs.stable(stepper, a)
        if ref is None or not floor_free(*[v for x, v in zip(keys, ref) if x in ("basis", "activation", "latent")]):
            tags.append("ill-conditioned step not compared")
            continue
        for x, u, v in zip(keys, b, ref):
            if align and x == "diagonalizer":
                u = refs.align_phase(u, v)
            cmp(u, v, 1e-5, "%s after iteration %d differs from the reference" % (x, k + 1))
        tags.append("step compared")


def wiener(X, Rn, ref):
    R = Rn.sum(axis=0)
    if np.max(np.linalg.cond(R)) > 1e7 or np.min(np.linalg.eigvalsh((R + herm(R)) / 2)) < 1e-4:
        raise Skip
    u = np.einsum("ijab,bij->ija", np.linalg.inv(R), X)
    return np.einsum("nijb,ijb->nij", Rn[:, :, :, ref, :], u)


RULE = ("random full-rank mixtures, 1-3 sources x 2-3 channels, default and given starting points; each iteration recomputed from the "
        "previous public state, the output recomputed as Wiener estimate; all evaluated, ill-conditioned or floored steps are tagged")


@facet(P, "gauss_mnmf", cases, quick=4000, thorough=60000, shards=4, rule=RULE)
def gauss_mnmf(case):
    X, m, tr, call, part = setup(case, GaussMNMF)
    out = m(X, n_iter=case["n_iter"], **call)
    if len(tr.states) != case["n_iter"] + 1:
        raise Violation("%d callback calls for %d iterations" % (len(tr.states), case["n_iter"]))
    check_initial(tr.states[0], call, case, part)
    if "spatial" not in call:
        cmp(tr.states[0]["spatial"], np.tile(np.eye(case["M"]) / case["M"], (case["N"], case["I"], 1, 1)), 1e-12, "initial spatial covariance")
    keys = ["basis", "activation", "spatial"] + (["latent"] if part else [])
    tags = ["partitioning" if part else "no partitioning", "norm=%s" % case["norm"], "floor=%s" % case["floor"], "N-M=%d" % (case["N"] - case["M"])]
    compare(case, X, tr, lambda s: mnmf_step(X, s, part, case["norm"]), keys, False, tags)
    s = tr.states[-1]
    L = refs.nmf_model(s["basis"], s["activation"], s.get("latent") if part else None)
    want = wiener(X, np.einsum("nij,niab->nijab", L, s["spatial"]), m.reference_id)
    cmp(out, want, 1e-6, "output differs from the multichannel Wiener estimate")
    cmp(out.sum(axis=0), X[m.reference_id], 1e-5, "the estimates do not add up to the reference channel")
    return tags


@facet(P, "fast_gauss_mnmf", cases, quick=5000, thorough=80000, shards=4, rule=RULE)
def fast_gauss_mnmf(case):
    X, m, tr, call, _ = setup(case, FastGaussMNMF)
    out = m(X, n_iter=case["n_iter"], **call)
    if len(tr.states) != case["n_iter"] + 1:
        raise Violation("%d callback calls for %d iterations" % (len(tr.states), case["n_iter"]))
    check_initial(tr.states[0], call, case, False)
    if not call:
        cmp(tr.states[0]["diagonalizer"], np.tile(np.eye(case["M"]), (case["I"], 1, 1)), 1e-12, "initial diagonalizer")
        if tr.states[0]["spatial"].shape != (case["I"], case["N"], case["M"]):
            raise Violation("initial spatial diagonal has shape %s" % (tr.states[0]["spatial"].shape,))
    tags = [case["sa"], "pairs=%s" % case["pairs"], "norm=%s" % case["norm"], "floor=%s" % case["floor"], "N-M=%d" % (case["N"] - case["M"])]
    pairs = M.pair_list(case["pairs"], case["M"])
    compare(case, X, tr, lambda s: fast_step(X, s, case["sa"], pairs, case["norm"]), ["basis", "activation", "diagonalizer", "spatial"],
            case["sa"] == "IP2", tags)
    s = tr.states[-1]
    Qi = np.linalg.inv(s["diagonalizer"])
    L = refs.nmf_model(s["basis"], s["activation"])
    Rn = np.einsum("nij,inm,iam,ibm->nijab", L, s["spatial"], Qi, np.conj(Qi))
    want = wiener(X, Rn, m.reference_id)
    cmp(out, want, 1e-6, "output differs from the multichannel Wiener estimate")
    cmp(out.sum(axis=0), X[m.reference_id], 1e-5, "the estimates do not add up to the reference channel")
    return tags
