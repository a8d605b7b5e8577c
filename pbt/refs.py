"""Independent reference models of the update rules (plain formulas, small sizes).

Everything is written from the published/documented update equations with explicit loops
over bins and sources; nothing here imports the code under test.
"""

import numpy as np
import scipy.linalg

from pbt.gen import H


def apply_w(W, X):
    """(I, N, M), (M, I, J) -> (N, I, J)."""
    return np.stack([W[i] @ X[:, i, :] for i in range(X.shape[1])], axis=1)


def fit_w(Y, X):
    """Least-squares filter W (I, N, M) with Y = W X."""
    out = []
    for i in range(X.shape[1]):
        x, y = X[:, i], Y[:, i]
        out.append(np.linalg.lstsq(x.T, y.T, rcond=None)[0].T)
    return np.stack(out)


def wcov(x, w):
    """Weighted covariance of x (M, J) with weights w (J,)."""
    J = x.shape[1]
    c = np.zeros((x.shape[0], x.shape[0]), dtype=complex)
    for j in range(J):
        c += w[j] * np.outer(x[:, j], np.conj(x[:, j]))
    return c / J


def wcov_fast(x, w):
    return (x * w) @ np.conj(x.T) / x.shape[1]


def covs(X, phi):
    """X (M, I, J), phi (N, I, J) -> U (I, N, M, M)."""
    N, I = phi.shape[0], X.shape[1]
    return np.stack([np.stack([wcov_fast(X[:, i], phi[n, i]) for n in range(N)]) for i in range(I)])


# ----------------------------------------------------------------------------------- IP1 / IP2
def ip1(W, U):
    W = W.copy()
    I, N, _ = W.shape
    for i in range(I):
        for n in range(N):
            e = np.zeros(N)
            e[n] = 1
            w = np.linalg.inv(W[i] @ U[i, n]) @ e
            w = w / np.sqrt(np.real(np.conj(w) @ U[i, n] @ w))
            W[i, n] = np.conj(w)
    return W


def ip2_pair(W, Um, Un, m, n, margins=None):
    """Rows m, n of every bin replaced by the minimiser of the pair's surrogate.

    ``margins`` collects relative eigenvalue gaps (no gap: the minimiser is not unique).
    """
    W = W.copy()
    I, N, _ = W.shape
    for i in range(I):
        # The new rows lie in the span of the current two rows, seen in the output domain:
        # y = W x, surrogate covariances of the outputs.
        Vm = W[i] @ Um[i] @ np.conj(W[i].T)
        Vn = W[i] @ Un[i] @ np.conj(W[i].T)
        Am = np.linalg.inv(Vm)[:, [m, n]]  # candidates for row m: orthogonal (in Vm) to the others
        An = np.linalg.inv(Vn)[:, [m, n]]
        Gm = np.conj(Am.T) @ Vm @ Am
        Gn = np.conj(An.T) @ Vn @ An
        lam, z = scipy.linalg.eigh(Gm, Gn)
        if margins is not None:
            margins.append((lam[1] - lam[0]) / lam[1])
        hm, hn = z[:, 1], z[:, 0]
        cm, cn = Am @ hm, An @ hn
        cm = cm / np.sqrt(np.real(np.conj(cm) @ Vm @ cm))
        cn = cn / np.sqrt(np.real(np.conj(cn) @ Vn @ cn))
        rm, rn = np.conj(cm) @ W[i], np.conj(cn) @ W[i]
        W[i, m], W[i, n] = rm, rn
    return W


def ip2(W, U, pairs, margins=None):
    for m, n in pairs:
        W = ip2_pair(W, U[:, m], U[:, n], m, n, margins)
    return W


# ------------------------------------------------------------------------------------ ISS / IPA
def iss1(Y, phi):
    Y = Y.copy()
    N, I, J = Y.shape
    for n in range(N):
        for i in range(I):
            yn = Y[n, i].copy()
            for k in range(N):
                d = np.mean(phi[k, i] * np.abs(yn) ** 2)
                if k == n:
                    v = 1 - 1 / np.sqrt(d)
                else:
                    v = np.mean(phi[k, i] * Y[k, i] * np.conj(yn)) / d
                Y[k, i] = Y[k, i] - v * yn
    return Y


def iss2(Y, phi, pairs, margins=None):
    Y = Y.copy()
    N, I, J = Y.shape
    for m, n in pairs:
        m, n = m % N, n % N
        for i in range(I):
            main = Y[[m, n], i].copy()
            for k in range(N):
                if k in (m, n):
                    continue
                # least squares: remove the best linear combination of the pair from source k
                G = wcov_fast(main, phi[k, i])
                c = np.conj(main) @ (phi[k, i] * Y[k, i]) / J  # E[phi conj(main) y]
                coef = np.linalg.solve(G.T, c)
                Y[k, i] = Y[k, i] - coef @ main
            Gm, Gn = wcov_fast(main, phi[m, i]), wcov_fast(main, phi[n, i])
            lam, z = scipy.linalg.eigh(Gm, Gn)
            if margins is not None:
                margins.append((lam[1] - lam[0]) / lam[1])
            a, b = z[:, 0], z[:, 1]
            a = a / np.sqrt(np.real(np.conj(a) @ Gm @ a))
            b = b / np.sqrt(np.real(np.conj(b) @ Gn @ b))
            Y[m, i] = np.conj(a) @ main
            Y[n, i] = np.conj(b) @ main
    return Y


def lq_lambda_exact(phi, c, z):
    w = phi * np.abs(c) ** 2

    def f(lam):
        return lam**2 * np.sum(w / (lam - phi) ** 2) - lam + z

    lo, hi = phi[-1], 2 * phi[-1] + z + 4 * np.sum(w) + 1.0
    while f(hi) > 0:
        hi *= 2
    for _ in range(300):
        mid = 0.5 * (lo + hi)
        if mid <= lo or mid >= hi:
            break
        if f(mid) > 0:
            lo = mid
        else:
            hi = mid
    return 0.5 * (lo + hi)


def lq_lambda_newton(phi, c, z, iters):
    pm = phi[-1]
    phi, z = phi / pm, z / pm
    w = phi * np.abs(c) ** 2
    vm = np.abs(c[-1]) ** 2
    roots = np.roots([1.0, -(vm + 2 + z), 1 + 2 * z, -z])
    lam = max(np.real(r) for r in roots if abs(np.imag(r)) < 1e-7 * max(1, abs(r)))
    if not lam > 1:
        lam = 1 + 1e-10
    lam = max(lam, z)
    for _ in range(iters):
        f = lam**2 * np.sum(w / (lam - phi) ** 2) - lam + z
        df = -2 * lam * np.sum(phi * w / (lam - phi) ** 3) - 1
        mu = lam - f / df
        lam = mu if mu > 1 else (1 + lam) / 2
    return lam * pm


def ipa(Y, phi, iters=None, margins=None):
    """iters: Newton iterations, None for the exact minimiser.

    ``margins`` collects how far each subproblem is from having no unique minimiser.
    """
    Y = Y.copy()
    N, I, J = Y.shape
    for n in range(N):
        rest = [k for k in range(N) if k != n]
        for i in range(I):
            y = Y[:, i].copy()
            U = wcov_fast(y, phi[n, i])
            V = np.linalg.inv(U)
            V = (V + np.conj(V.T)) / 2
            a = np.array([np.mean(phi[k, i] * np.abs(y[n]) ** 2) for k in rest])
            b = np.array([np.mean(phi[k, i] * y[n] * np.conj(y[k])) for k in rest])
            C = V[np.ix_(rest, rest)]
            d = V[rest, n]
            Cd = np.linalg.solve(C, d)
            z = np.real(V[n, n] - np.conj(d) @ Cd)
            ra = np.sqrt(a)
            Hm = C / np.outer(ra, ra)
            vv = -np.conj(b) / ra - ra * Cd
            ph, S = np.linalg.eigh((Hm + np.conj(Hm.T)) / 2)
            c = np.conj(S.T) @ vv
            if margins is not None:
                w = np.min(ph * np.abs(c) ** 2)
                margins.append(min(w, 1e3 * w / np.sum(ph)))  # terms below the floor 1e-10 are left out by the library
            lam = lq_lambda_exact(ph, c, z) if iters is None else lq_lambda_newton(ph, c, z, iters)
            t = S @ (ph * c / (lam - ph))
            s = t / ra - np.conj(b) / a
            q = np.zeros(N, dtype=complex)
            q[n] = 1
            q[rest] = -s
            p = V @ q
            p = p / np.sqrt(np.real(np.conj(q) @ V @ q))
            Y[n, i] = np.conj(p) @ y
            for k, sk in zip(rest, s):
                Y[k, i] = y[k] + sk * y[n]
    return Y


def vcd(W, R):
    """Coordinate descent with full covariance over neighbouring bins.

    W (B, L, N, M); R (B, L, L, N, M, M): R[b, i, k, n] = E[conj(P_ik) x_i x_k^H], P the precision
    of source n over the bins of block b.
    """
    W = W.copy()
    B, L, N, M = W.shape
    for b in range(B):
        for i in range(L):
            for n in range(N):
                U = R[b, i, i, n]
                gamma = np.zeros(M, dtype=complex)
                for k in range(L):
                    if k != i:
                        gamma += R[b, i, k, n] @ np.conj(W[b, k, n])
                e = np.zeros(N)
                e[n] = 1
                eta = np.linalg.solve(W[b, i] @ U, e)
                hat = np.linalg.solve(U, gamma)
                xi = np.real(np.conj(eta) @ U @ eta)
                xh = np.conj(eta) @ U @ hat
                if xh == 0:
                    coef = 1 / np.sqrt(xi)
                else:
                    coef = xh / (2 * xi) * (1 - np.sqrt(1 + 4 * xi / np.abs(xh) ** 2))
                W[b, i, n] = np.conj(coef * eta - hat)
    return W


# ------------------------------------------------------------------------------ scale restoration
def projection_back_scale(Y, X, ref):
    """(N, I) factors d with X_ref = sum_n d_n y_n in the least-squares sense."""
    N, I, J = Y.shape
    d = np.zeros((N, I), dtype=complex)
    for i in range(I):
        d[:, i] = np.linalg.lstsq(Y[:, i].T, X[ref, i], rcond=None)[0]
    return d


def mdp_scale(Y, X, ref):
    return np.mean(X[ref][None] * np.conj(Y), axis=2) / np.mean(np.abs(Y) ** 2, axis=2)


def align_phase(A, B):
    """Rotate rows of A (..., J) to best match B."""
    s = np.sum(B * np.conj(A), axis=-1, keepdims=True)
    m = np.abs(s)
    return A * np.where(m > 0, s / np.where(m > 0, m, 1), 1)


def stable(step, state, align=False, limit=1e4, eps=1e-9):
    """step(state), or None where the step amplifies rounding (relative) by more than ``limit``.

    ``state`` is an array or a tuple of arrays, ``step`` returns the same structure kind.
    """
    rng = np.random.default_rng(0)
    single = isinstance(state, np.ndarray)
    pert = [
        a * (1 + eps * (rng.uniform(-1, 1, a.shape) + (1j * rng.uniform(-1, 1, a.shape) if np.iscomplexobj(a) else 0)))
        for a in ((state,) if single else state)
    ]
    try:
        a = step(state)
        b = step(pert[0] if single else tuple(pert))
    except (np.linalg.LinAlgError, ValueError):  # the reference itself breaks down
        return None
    if a is None or b is None:
        return None
    for x, y in zip((a,) if isinstance(a, np.ndarray) else a, (b,) if isinstance(b, np.ndarray) else b):
        if align:
            y = align_phase(y, x)
        d = np.max(np.abs(x - y)) / max(np.max(np.abs(x)), 1e-300)
        if not d < limit * eps:
            return None
    return a


def collapsed(Y):
    """Has an output vanished at some frame?  (Likelihoods unbounded from above drive runs there; rounding and floors then rule.)"""
    a = np.abs(Y)
    return not np.min(a) > 1e-5 * np.sqrt(np.mean(a**2))


def logdet_sum(W):
    return float(sum(np.log(np.abs(np.linalg.det(W[i]))) for i in range(W.shape[0])))


# ------------------------------------------------------------------------------------- NMF models
def nmf_model(T, V, Z=None):
    if Z is None:
        return np.stack([T[n] @ V[n] for n in range(T.shape[0])])
    return np.einsum("nk,ik,kj->nij", Z, T, V)
