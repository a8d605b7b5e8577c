"""ILRMA family: every iteration is the documented source, spatial and normalisation step."""
import numpy as np
from hypothesis import strategies as st

from pbt import gen, refs
from pbt import methods as M
from pbt.harness import Violation, facet

P = "C04"
FLOOR = 1e-10


def model(cfg, T, V, Z):
    return refs.nmf_model(T, V, Z if cfg["part"] else None)


def ratio_weights(cfg, Y, ZTV):
    """q with multiplicative ratio sum(q c) / sum(c / ZTV) for component c."""
    p = cfg["p"]
    A2 = np.abs(Y) ** 2
    if cfg["cls"] == "GaussILRMA":
        return A2 / ZTV ** ((p + 2) / p)
    if cfg["cls"] == "TILRMA":
        nu = cfg["dof"]
        R = nu / (nu + 2) * ZTV ** (2 / p) + 2 / (nu + 2) * A2
        return A2 / (R * ZTV)
    b = cfg["beta"]
    return b / 2 * np.abs(Y) ** b / ZTV ** ((b + p) / p)


def exponent(cfg):
    p = cfg["p"]
    if cfg["cls"] == "GGDILRMA":
        return p / (cfg["beta"] + p)
    return 1.0 if cfg["src"] == "ME" else p / (p + 2)


def spatial_weights(cfg, Y, ZTV):
    p = cfg["p"]
    A = np.abs(Y)
    if cfg["cls"] == "GaussILRMA":
        return 1 / ZTV ** (2 / p)
    if cfg["cls"] == "TILRMA":
        nu = cfg["dof"]
        return 1 / (nu / (nu + 2) * ZTV ** (2 / p) + 2 / (nu + 2) * A**2)
    b = cfg["beta"]
    return b / 2 * A ** (b - 2) / ZTV ** (b / p)


def source_step(cfg, Y, T, V, Z, floor):
    e = exponent(cfg)
    part = cfg["part"]
    if part:
        R = model(cfg, T, V, Z)
        q = ratio_weights(cfg, Y, R)
        c = "nij,ik,kj->nk"
        Z = Z * (np.einsum(c, q, T, V) / np.einsum(c, 1 / R, T, V)) ** e
        Z = Z / Z.sum(axis=0)
    R = model(cfg, T, V, Z)
    q = ratio_weights(cfg, Y, R)
    if part:
        c = "nij,nk,kj->ik"
        T = T * (np.einsum(c, q, Z, V) / np.einsum(c, 1 / R, Z, V)) ** e
    else:
        c = "nij,nkj->nik"
        T = T * (np.einsum(c, q, V) / np.einsum(c, 1 / R, V)) ** e
    T = np.maximum(T, floor)
    R = model(cfg, T, V, Z)
    q = ratio_weights(cfg, Y, R)
    if part:
        c = "nij,nk,ik->kj"
        V = V * (np.einsum(c, q, Z, T) / np.einsum(c, 1 / R, Z, T)) ** e
    else:
        c = "nij,nik->nkj"
        V = V * (np.einsum(c, q, T) / np.einsum(c, 1 / R, T)) ** e
    return T, np.maximum(V, floor), Z


def step(cfg, state, X, free, floor, ref):
    """state = (T, V, Z, S) with S the output (filterless algorithms) or the filter."""
    T, V, Z, S = state
    N = X.shape[0]
    Y = S if free else refs.apply_w(S, X)
    T, V, Z = source_step(cfg, Y, T, V, Z, floor)
    phi = spatial_weights(cfg, Y, model(cfg, T, V, Z))
    sa = cfg["sa"]
    margins = [1.0]
    pairs = M.pair_list(cfg["pairs"], N)
    if sa in ("ISS", "ISS1"):
        S = refs.iss1(S, phi)
    elif sa == "ISS2":
        S = refs.iss2(S, phi, pairs, margins)
    elif sa == "IPA":
        S = refs.ipa(S, phi, cfg.get("newton") or 1, margins)
    else:
        U = refs.covs(X, phi)
        S = refs.ip1(S, U) if sa in ("IP", "IP1") else refs.ip2(S, U, pairs, margins)
    if not min(margins) > 1e-6:
        return None  # the subproblem has no unique minimiser
    return normalise(cfg, T, V, Z, S, X, free, ref)


def normalise(cfg, T, V, Z, S, X, free, ref):
    p, norm = cfg["p"], cfg["norm"]
    Y = S if free else refs.apply_w(S, X)
    if norm in (True, "power"):
        psi = np.sqrt(np.mean(np.abs(Y) ** 2, axis=(1, 2)))
        S = S / psi[:, None, None] if free else S / psi[None, :, None]
        if cfg["part"]:
            Z = Z / psi[:, None] ** p
            s = Z.sum(axis=0)
            Z, T = Z / s, T * s
        else:
            T = T / psi[:, None, None] ** p
    elif norm == "projection_back":
        if free:
            d = refs.projection_back_scale(Y, X, ref)  # (N, I)
            S = S * d[:, :, None]
        else:
            d = np.linalg.inv(S)[:, ref, :].T
            S = S * d.T[:, :, None]
        T = T * np.abs(d)[:, :, None] ** p
    return T, V, Z, S


def unique(case):
    """Extreme parameters lead away from regular states.  A single shared basis makes the weights of all sources proportional: no unique minimiser."""
    cfg = case["cfg"]
    if case.get("far"):
        case = dict(case, n_iter=1)
    if cfg["cls"] == "GGDILRMA" and case["scale"] < 0.01:  # magnitudes near the floor of the weights
        case = dict(case, scale=1e3)
    if cfg["part"] and cfg["K"] == 1 and cfg["sa"] in ("IP2", "ISS2", "IPA"):
        case = dict(case, cfg=dict(cfg, K=2))
    return case


def cases(fam):
    def mk():
        return M.case_for([fam], N=(2, 3), I=(1, 4), J=(20, 40), short=2, far=True, level=True, n_iter=gen.iters(1, 3),
                          init=st.booleans(), floor=st.sampled_from(["default", None, "big"]),
                          ref=st.integers(0, 4)).map(unique)
    return mk


def run(case):
    cfg = case["cfg"]
    if case["floor"] == "big":
        cfg = dict(cfg, norm=False)
    X = gen.mixture(case)
    N, I, J = X.shape
    K = cfg["K"]
    ref = min(case["ref"], N - 1)
    floor = {"default": FLOOR, None: 0.0, "big": 1e-4}[case["floor"]]
    tr = M.Trace()
    kw = {"callbacks": tr, "scale_restoration": False, "reference_id": ref, "record_loss": case["seed"] % 2 == 0}
    if case["floor"] is None:
        kw["flooring_fn"] = None
    elif case["floor"] == "big":
        kw["flooring_fn"] = lambda x: np.maximum(x, 1e-4)
    m = M.build(cfg, seed=case["seed"], **kw)
    free = M.is_free(cfg)
    rng = gen.rng_of(case, 5)
    call = {}
    if case["init"]:
        if cfg["part"]:
            Z = rng.random((N, K)) + 0.1
            call["latent"] = Z / Z.sum(axis=0)
            call["basis"] = rng.random((I, K)) + 0.05
            call["activation"] = rng.random((K, J)) + 0.05
        else:
            call["basis"] = rng.random((N, I, K)) + 0.05
            call["activation"] = rng.random((N, K, J)) + 0.05
        if K > 1 and case["seed"] // 5 % 3 == 0:  # components that are off for a source, a bin or a frame
            k = rng.integers(K)
            if cfg["part"]:
                call["latent"][rng.integers(N), k] = 0
            call["basis"][..., rng.integers(I), k] = 1e-13
            call["activation"][..., k, rng.integers(J)] = 1e-12
        call["demix_filter"] = gen.demix_init(case, I, N)
    keep = {k: v.copy() for k, v in call.items()}
    out = m(X, n_iter=case["n_iter"], **call)
    S = tr.states
    if len(S) != case["n_iter"] + 1:
        raise Violation("%d callback calls for %d iterations" % (len(S), case["n_iter"]))
    key = "output" if free else "demix_filter"
    W0 = keep.get("demix_filter", np.tile(np.eye(N, dtype=complex), (I, 1, 1)))
    e = gen.rel_err(S[0][key], refs.apply_w(W0, X) if free else W0)
    if not e < 1e-10:
        raise Violation("initial filter/output differs from the given one: %.3g" % e)
    for k in ("basis", "activation", "latent"):
        if k in keep and not np.array_equal(S[0][k], keep[k]):
            raise Violation("given initial %s is not used" % k)
    tags = []
    align = cfg["sa"] in ("IP2", "ISS2")
    z1 = np.ones((1, 1))
    get = lambda s: (s["basis"], s["activation"], s["latent"] if cfg["part"] else z1, s[key])  # noqa: E731
    for k in range(case["n_iter"]):
        a = get(S[k])
        Y = a[3] if free else refs.apply_w(a[3], X)
        if refs.collapsed(Y):
            return tags + ["collapsed run not compared further"]
        if case["floor"] == "big":
            # the spatial step floors as well; compare the source model only
            b = source_step(cfg, Y, a[0], a[1], a[2], floor)
            tags.append("source model only")
        else:
            b = refs.stable(lambda s: step(cfg, s, X, free, floor, ref), a, align)
        if b is None:
            tags.append("ill-conditioned step not compared: %s part=%s K=%d" % (cfg["sa"], cfg["part"], K))
            continue
        for name, got, want in zip(("basis", "activation", "latent", key), get(S[k + 1]), b):
            if align and name == key:
                got = refs.align_phase(got, want)
            e = gen.rel_err(got, want)
            if not e < (3e-5 if J < 20 or case.get("far") else 1e-6):
                raise Violation("iteration %d: %s differs from the documented update (relative error %.3g)" % (k + 1, name, e))
    if case["floor"] is None and not np.all(np.isfinite(S[-1][key])):
        return tags + ["underflow without a floor"]
    e = gen.rel_err(out, S[-1]["output"] if free else refs.apply_w(S[-1]["demix_filter"], X))
    if not e < 1e-9:
        raise Violation("final output differs from the separated input: %.3g" % e)
    return tags + [cfg["cls"], cfg["sa"], "part=%s" % cfg["part"], "norm=%s" % cfg["norm"], "p=%s" % cfg["p"],
                   "src=%s" % cfg.get("src", "MM"), "floor=%s" % case["floor"]]


RULE = ("random mixtures, bases, activations, latents, filters; all spatial algorithms, source algorithms, "
        "domains, normalisations and partitioning; each iteration recomputed from the previous public state")


@facet(P, "gauss", cases("GaussILRMA"), quick=1500, thorough=20000, shards=3, rule=RULE)
def gauss(case):
    return run(case)


@facet(P, "student_t", cases("TILRMA"), quick=1000, thorough=15000, shards=3, rule=RULE)
def student_t(case):
    return run(case)


@facet(P, "ggd", cases("GGDILRMA"), quick=1000, thorough=15000, shards=2, rule=RULE)
def ggd(case):
    return run(case)
