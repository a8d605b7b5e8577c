"""Generators of numeric data.  Everything is a pure function of the drawn case."""

import numpy as np
from hypothesis import strategies as st

SEED = st.integers(0, 2**31 - 1)


def rng_of(case, salt=0):
    return np.random.default_rng([int(case["seed"]), int(salt)])


def cnormal(rng, *shape):
    return (rng.standard_normal(shape) + 1j * rng.standard_normal(shape)) / np.sqrt(2)


def unitary(rng, *shape):
    n = shape[-1]
    q, _ = np.linalg.qr(cnormal(rng, *shape[:-1], n, n))
    return q


def well_conditioned(rng, lead, n, m=None, lo=0.4, hi=2.5):
    """Complex matrices (*lead, n, m) with singular values in [lo, hi]."""
    m = n if m is None else m
    k = min(n, m)
    u = unitary(rng, *lead, n)[..., :, :k]
    v = unitary(rng, *lead, m)[..., :k, :]
    s = np.exp(rng.uniform(np.log(lo), np.log(hi), size=(*lead, k)))
    return (u * s[..., None, :]) @ v


def hpd(rng, lead, n, lo=0.2, hi=5.0):
    """Hermitian positive definite matrices with eigenvalues in [lo, hi]."""
    u = unitary(rng, *lead, n)
    s = np.exp(rng.uniform(np.log(lo), np.log(hi), size=(*lead, n)))
    a = (u * s[..., None, :]) @ np.conj(np.swapaxes(u, -1, -2))
    return (a + np.conj(np.swapaxes(a, -1, -2))) / 2


def spd(rng, lead, n, lo=0.2, hi=5.0):
    """Real symmetric positive definite matrices."""
    q, _ = np.linalg.qr(rng.standard_normal((*lead, n, n)))
    s = np.exp(rng.uniform(np.log(lo), np.log(hi), size=(*lead, n)))
    a = (q * s[..., None, :]) @ np.swapaxes(q, -1, -2)
    return (a + np.swapaxes(a, -1, -2)) / 2


def sources(rng, N, I, J, kind="bursty"):
    """Source spectrograms (N, I, J)."""
    if kind == "gauss":
        return cnormal(rng, N, I, J) * (0.5 + rng.random((N, I, 1)))
    if kind == "laplace":
        return cnormal(rng, N, I, J) * rng.exponential(size=(N, I, J)) * (0.5 + rng.random((N, I, 1)))
    if kind == "bursty":
        act = rng.random((N, 1, J)) ** 3 + 0.05
        return cnormal(rng, N, I, J) * act * (0.3 + rng.random((N, I, 1)))
    if kind == "lowrank":
        T = rng.random((N, I, 2)) ** 2 + 0.05
        V = rng.random((N, 2, J)) ** 2 + 0.05
        return cnormal(rng, N, I, J) * np.sqrt(T @ V)
    if kind == "steep":  # bins of very different level, as in speech
        act = rng.random((N, 1, J)) ** 2 + 0.05
        return cnormal(rng, N, I, J) * act * 10.0 ** rng.uniform(-1, 0, (1, I, 1)) * (0.5 + rng.random((N, I, 1)))
    raise ValueError(kind)


KINDS = ["bursty", "gauss", "laplace", "lowrank", "steep"]


def mixture(case, n_channels=None, salt=0):
    """Mixture (channels, bins, frames) described by case: seed, N, I, J, kind, scale."""
    rng = rng_of(case, salt)
    N, I, J = case["N"], case["I"], case["J"]
    M = n_channels or case.get("M", N)
    S = sources(rng, N, I, J, case.get("kind", "bursty"))
    A = well_conditioned(rng, (I,), M, N)
    X = (A @ S.transpose(1, 0, 2)).transpose(1, 0, 2)
    if M > N:  # keep the spatial covariance full rank
        X = X + 0.1 * cnormal(rng, M, I, J)
    X = X * case.get("scale", 1.0)
    layout = case.get("layout", "C")
    if layout == "F":
        X = np.asfortranarray(X)
    elif layout == "view":
        X = np.repeat(X, 2, axis=2)[:, :, ::2]
    else:
        X = np.ascontiguousarray(X)
    return X


def demix_init(case, I, N, salt=77):
    rng = rng_of(case, salt)
    return well_conditioned(rng, (I,), N)


def mostly(lo, hi, big):
    """Integers lo..hi, now and then hi+1..big."""
    if big <= hi:
        return st.integers(lo, hi)
    return st.integers(0, 14).flatmap(lambda k: st.integers(hi + 1, big) if k == 14 else st.integers(lo, hi))


def iters(lo, hi, big=9):
    """Iteration counts; one in eight is long."""
    return st.integers(0, 7).flatmap(lambda k: st.integers(hi + 1, big) if k == 7 else st.integers(lo, hi))


def base_case(N=(2, 4), I=(1, 5), J=(30, 50), kinds=KINDS, scales=(1.0, 0.1, 10.0), layouts=("C", "F", "view"), wide=True):
    big = (lambda lo, hi, b: mostly(lo, hi, b)) if wide else (lambda lo, hi, b: st.integers(lo, hi))
    return {
        "seed": SEED,
        "N": big(*N, 5 if N[1] > 2 else N[1]),
        "I": big(*I, 20) if I[0] > 1 or not wide else st.one_of(st.just(1), big(2, max(I[1], 2), 20), big(2, max(I[1], 2), 20), big(2, max(I[1], 2), 20)),
        "J": big(*J, 160),
        "kind": st.sampled_from(list(kinds)),
        "scale": st.sampled_from(list(scales)),
        "layout": st.sampled_from(list(layouts)),
    }


def rel_err(a, b):
    a, b = np.asarray(a), np.asarray(b)
    if a.shape != b.shape:
        return float("inf")
    if a.size == 0:
        return 0.0
    if not (np.all(np.isfinite(a)) and np.all(np.isfinite(b))):
        return float("inf")
    den = max(float(np.max(np.abs(b))), 1e-300)
    return float(np.max(np.abs(a - b))) / den


def H(a):
    return np.conj(np.swapaxes(a, -1, -2))
