"""IPSDTA: every iteration is the documented source and spatial step over the documented bin blocks."""
import numpy as np
import scipy.linalg
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.gen import H as herm
from pbt.harness import Skip, Violation, facet
from ssspy.bss.ipsdta import GaussIPSDTA, TIPSDTA

P = "C08"


def block_slices(I, B):
    """The first blocks have I // B bins, the last I % B have one more."""
    L, r = divmod(I, B)
    sizes = [L] * (B - r) + [L + 1] * r
    out, at = [], 0
    for s in sizes:
        out.append(slice(at, at + s))
        at += s
    return out


def unpack(basis):
    """List over blocks of (N, K, L, L)."""
    parts = basis if isinstance(basis, tuple) else (basis,)
    return [p[:, :, b] for p in parts for b in range(p.shape[2])]


def chol_ok(*mats):
    return all(np.min(np.linalg.eigvalsh((m + herm(m)) / 2)) > 1e-6 for m in mats)


def stats(T, V, Y, sl, dof):
    """Per block R^-1 (N, J, L, L), u = R^-1 y (N, J, L), and frame weights pi (N, J)."""
    Ri, U, q = [], [], 0
    for t, s in zip(T, sl):
        R = np.einsum("nkab,nkj->njab", t, V)
        if R.shape[-1] and not chol_ok(R):
            raise Skip
        ri = np.linalg.inv(R)
        y = Y[:, s].transpose(0, 2, 1)
        u = np.einsum("njab,njb->nja", ri, y)
        q = q + np.real(np.sum(np.conj(y) * u, axis=-1))
        Ri.append(ri)
        U.append(u)
    pi = np.ones_like(q) if dof is None else (dof + 2 * Y.shape[1]) / (dof + 2 * q)
    return Ri, U, pi


def riccati(Pm, C):
    """Positive definite G with G Pm G = C."""
    s = scipy.linalg.sqrtm((Pm + herm(Pm)) / 2)
    si = np.linalg.inv(s)
    m = s @ C @ s
    G = si @ scipy.linalg.sqrtm((m + herm(m)) / 2) @ si
    return (G + herm(G)) / 2


def step(X, W, V, T, sl, dof, norm):
    T = list(T)
    N, K, J = V.shape
    Y = refs.apply_w(W, X)
    Ri, U, pi = stats(T, V, Y, sl, dof)
    new = []
    for t, ri, u in zip(T, Ri, U):
        g = np.empty_like(t)
        for n in range(N):
            for k in range(K):
                Pm = np.einsum("j,jab->ab", V[n, k], ri[n]) / J
                Q = np.einsum("j,ja,jb->ab", V[n, k] * pi[n], u[n], np.conj(u[n])) / J
                g[n, k] = riccati(Pm, t[n, k] @ Q @ t[n, k])
        # the geometric mean squares the condition of the bases
        if not chol_ok(g) or max(np.max(np.linalg.cond(g), initial=1), np.max(np.linalg.cond(t), initial=1)) > 2e4:
            raise Skip
        new.append(g)
    T = new
    Ri, U, pi = stats(T, V, Y, sl, dof)
    num = sum(np.einsum("nja,nkab,njb->nkj", np.conj(u), t, u) for t, u in zip(T, U)).real * pi[:, None]
    den = sum(np.einsum("njab,nkba->nkj", ri, t) for t, ri in zip(T, Ri)).real
    V = V * np.sqrt(num / den)
    if norm:
        tr = sum(np.trace(t, axis1=-2, axis2=-1).real.sum(axis=-1) if t.ndim == 5 else np.trace(t, axis1=-2, axis2=-1).real for t in T)
        T = [t / tr[:, :, None, None] for t in T]
        V = V * tr[:, :, None]
    Ri, _, pi = stats(T, V, Y, sl, dof)
    W = W.copy()
    for ri, s in zip(Ri, sl):
        x = X[:, s]
        if x.shape[1] == 0:
            continue
        R = np.einsum("nj,njki,aij,bkj->iknab", pi, ri, x, np.conj(x)) / J
        W[s] = refs.vcd(W[s][None], R[None])[0]
    return (W, V) + tuple(T)


def shortened(case):
    """One case in nine has few frames (and takes one step)."""
    if case["seed"] % 9 == 0:
        k = case["seed"] // 9
        I = case["I"] + k // 7 % 6
        case = dict(case, J=case["N"] * I + 3 + k % 7, I=I, n_iter=min(case["n_iter"], 1))
    if case["dof"] and case["scale"] > 10:  # frames far out in the tail of the t distribution
        case = dict(case, scale=10.0)
    if case["scale"] < 0.1:  # likewise when the default parameters, which do not depend on the recording, are far from it
        case = dict(case, init="given", dof=None)
    return case


def cases():
    return st.fixed_dictionaries({
        **gen.base_case(N=(2, 3), I=(1, 6), J=(30, 45), scales=(1.0, 0.3, 10.0, 1.0, 0.3, 10.0, 1e3, 1e-3)),
        "cls": st.just("GaussIPSDTA"), "K": gen.mostly(1, 3, 6), "blocks": gen.mostly(1, 4, 8), "norm": st.booleans(), "dof": st.sampled_from([None, None, 1, 4, 100]),
        "n_iter": gen.iters(0, 3), "init": st.sampled_from(["default", "given", "given"]), "floor": st.sampled_from(["default", "default", None, "tiny"]),
    }).map(shortened)


def cmp(got, want, tol, what):
    e = gen.rel_err(got, want)
    if not e < tol:
        raise Violation("%s: relative error %.3g" % (what, e))


@facet(P, "ipsdta_step", cases, quick=3000, thorough=50000, shards=8,
       rule="random mixtures, block counts (with and without remainder), Gauss and t models, default and given starting points; initial state "
            "and each iteration recomputed from the previous public state; all evaluated, ill-conditioned steps are tagged")
def ipsdta_step(case):
    N, I, J, K, B = (case[k] for k in ("N", "I", "J", "K", "blocks"))
    if B > I:
        B = I
    X = gen.mixture(case)
    rng = gen.rng_of(case, 1)
    sl = block_slices(I, B)
    tr = M.Trace(["demix_filter", "basis", "activation"])
    kw = dict(n_basis=K, n_blocks=B, source_normalization=case["norm"], callbacks=tr, rng=np.random.default_rng(case["seed"]),
              scale_restoration=False, record_loss=case["seed"] % 2 == 0)
    if case["floor"] is None:
        kw["flooring_fn"] = None
    elif case["floor"] == "tiny":
        kw["flooring_fn"] = lambda x: np.maximum(x, 1e-13)
    m = GaussIPSDTA(**kw) if case["dof"] is None else TIPSDTA(dof=case["dof"], **kw)
    call = {}
    if case["init"] == "given":
        L, r = divmod(I, B)
        s2 = case["scale"] ** 2
        T = gen.hpd(rng, (N, K, B - r), L) * s2
        T = (T, gen.hpd(rng, (N, K, r), L + 1) * s2) if r else T
        call = {"demix_filter": gen.demix_init(case, I, N), "basis": T, "activation": np.exp(rng.uniform(-1.5, 1.5, (N, K, J)))}
    out = m(X, n_iter=case["n_iter"], **call)
    S = tr.states
    if len(S) != case["n_iter"] + 1:
        raise Violation("%d callback calls for %d iterations" % (len(S), case["n_iter"]))
    s = S[0]
    T0 = unpack(s["basis"])
    if [t.shape for t in T0] != [(N, K, q.stop - q.start, q.stop - q.start) for q in sl]:
        raise Violation("blocks of the initial bases have shapes %s" % [t.shape for t in T0])
    tot = sum(np.trace(t, axis1=-2, axis2=-1).real for t in T0)
    if call:
        cmp(s["demix_filter"], call["demix_filter"], 1e-12, "initial filter")
        G = unpack(call["basis"])
        V = call["activation"]
        if case["norm"]:
            g = sum(np.trace(t, axis1=-2, axis2=-1).real for t in G)
            G, V = [t / g[:, :, None, None] for t in G], V * g[:, :, None]
        for a, b in zip(T0, G):
            cmp(a, b, 1e-10, "initial bases")
        cmp(s["activation"], V, 1e-10, "initial activations")
    else:
        cmp(s["demix_filter"], np.tile(np.eye(N), (I, 1, 1)), 1e-12, "initial filter")
        for t in T0:
            d = np.real(np.diagonal(t, axis1=-2, axis2=-1))
            if np.any(np.abs(t - d[..., None] * np.eye(t.shape[-1])) > 1e-9) or np.min(d, initial=1) < 0 or np.max(d, initial=0) > 1 + 1e-9:
                raise Violation("initial bases are not random non-negative diagonal matrices")
        v = s["activation"] / tot[:, :, None] if case["norm"] else s["activation"]
        if case["norm"]:
            cmp(tot, np.ones_like(tot), 1e-9, "traces of the initial bases")
            v = s["activation"]
        elif np.max(v) > 1 + 1e-9:
            raise Violation("initial activations exceed one")
        if s["activation"].shape != (N, K, J) or np.min(v) < 0:
            raise Violation("initial activations are not non-negative of shape %s" % ((N, K, J),))
    tags = ["Gauss" if case["dof"] is None else "t", "remainder" if I % B else "even", "blocks=%d" % B, "norm=%s" % case["norm"]]
    for k in range(case["n_iter"]):
        a = (S[k]["demix_filter"], S[k]["activation"]) + tuple(unpack(S[k]["basis"]))
        b = (S[k + 1]["demix_filter"], S[k + 1]["activation"]) + tuple(unpack(S[k + 1]["basis"]))
        if refs.collapsed(refs.apply_w(a[0], X)):
            return tags + ["collapsed run not compared further"]

        def run(state):
            try:
                return step(X, state[0], state[1], state[2:], sl, case["dof"], case["norm"])
            except Skip:
                return None
        ref = refs.stable(run, a)
        if ref is None:
            tags.append("ill-conditioned step not compared")
            continue
        for i, (u, v) in enumerate(zip(b, ref)):
            cmp(u, v, 1e-6 if J >= 20 else 3e-5, "%s after iteration %d differs from the reference" % (["filter", "activations"][i] if i < 2 else "bases", k + 1))
        tags.append("step compared")
    cmp(out, refs.apply_w(S[-1]["demix_filter"], X), 1e-10, "output")
    return tags
