"""Documented objectives, computed from the public state of a method (independent of the code under test)."""
import numpy as np

from pbt import methods as M
from pbt import refs
from pbt.gen import H as herm
from pbt.harness import Skip


def scalar_contrast(cfg):
    """G of the magnitude for FDICA / IVA families."""
    return M.G[cfg.get("contrast", "laplace")][0]


def unpack_basis(basis):
    parts = basis if isinstance(basis, tuple) else (basis,)
    return [p[:, :, b] for p in parts for b in range(p.shape[2])]


def pos_def(R, lo=1e-6):
    R = (R + herm(R)) / 2
    if R.size and not np.min(np.linalg.eigvalsh(R)) > lo:
        raise Skip
    return R


def separated(cfg, X, s, white=None):
    """(W or None, Y) of a state."""
    if cfg["cls"] in M.ICA_CLS:
        W = s["demix_filter"]
        base = white if cfg["cls"] in M.WHITE else X
        return W, W @ base
    if M.is_free(cfg):
        Y = s["output"]
        return refs.fit_w(Y, X), Y
    W = s["demix_filter"]
    return W, refs.apply_w(W, white if cfg["cls"] in M.WHITE else X)


def objective(cfg, X, s, white=None, variance=None, penalties=None):
    """Value of the documented objective; raises Skip where the library's flooring may act."""
    c = cfg["cls"]
    if c == "GaussMNMF":
        L = refs.nmf_model(s["basis"], s["activation"], s.get("latent") if cfg["part"] else None)
        R = pos_def(np.einsum("nij,niab->ijab", L, s["spatial"]), 1e-5)
        u = np.linalg.solve(R, X.transpose(1, 2, 0)[..., None])[..., 0]
        q = np.real(np.einsum("bij,ijb->ij", np.conj(X), u))
        return float(np.sum(np.mean(q + np.linalg.slogdet(R)[1], axis=1)))
    if c == "FastGaussMNMF":
        S = np.einsum("nij,inm->imj", refs.nmf_model(s["basis"], s["activation"]), s["spatial"])
        if not np.min(S) > 1e-8:
            raise Skip
        y2 = np.abs(np.einsum("imc,cij->imj", s["diagonalizer"], X)) ** 2
        return float(np.sum(np.mean(y2 / S + np.log(S), axis=2)) - 2 * refs.logdet_sum(s["diagonalizer"]))
    if c == "CACGMM":
        B = pos_def(s["covariance"], 1e-5)
        Z = X / np.sqrt(np.sum(np.abs(X) ** 2, axis=0))
        u = np.linalg.solve(B, np.broadcast_to(Z.transpose(1, 0, 2), B.shape[:2] + (Z.shape[0], Z.shape[2])))
        q = np.real(np.einsum("mij,nimj->nij", np.conj(Z), u))
        if not (np.min(q) > 1e-8 and np.min(s["mixing"]) > 1e-8):
            raise Skip
        a = (np.log(s["mixing"]) - np.linalg.slogdet(B)[1])[:, :, None] - Z.shape[0] * np.log(q)
        top = a.max(axis=0)
        return float(-np.sum(np.mean(top + np.log(np.sum(np.exp(a - top), axis=0)), axis=1)))
    W, Y = separated(cfg, X, s, white)
    if c in M.ICA_CLS:
        g = M.G[cfg.get("rcontrast", "laplace")][0](np.abs(Y)) / 2
        val = np.sum(np.mean(g, axis=1))
        return float(val if c in M.WHITE else val - np.log(np.abs(np.linalg.det(W))))
    if c in M.PROX:
        return float(sum(f(Y) for f in penalties) - refs.logdet_sum(W))
    ld = 2 * refs.logdet_sum(W)
    if "FDICA" in c:
        return float(np.sum(np.mean(scalar_contrast(cfg)(np.abs(Y)), axis=2)) - ld)
    if "GaussIVA" in c:
        v = s["variance"] if variance is None else variance
        if not np.min(v) > 1e-8:
            raise Skip
        return float(np.sum(np.mean(Y.shape[1] * np.log(v) + np.sum(np.abs(Y) ** 2, axis=1) / v, axis=1)) - ld)
    if "IVA" in c:
        val = np.sum(np.mean(scalar_contrast(cfg)(np.linalg.norm(Y, axis=1)), axis=1))
        return float(val if c in M.WHITE else val - ld)
    if "ILRMA" in c:
        L = refs.nmf_model(s["basis"], s["activation"], s.get("latent") if cfg.get("part") else None)
        if not np.min(L) > 1e-8:
            raise Skip
        p = cfg["p"]
        y2 = np.abs(Y) ** 2
        if c == "GaussILRMA":
            t = y2 / L ** (2 / p)
        elif c == "TILRMA":
            nu = cfg["dof"]
            t = (1 + nu / 2) * np.log(1 + (2 / nu) * y2 / L ** (2 / p))
        else:
            t = (y2 / L ** (2 / p)) ** (cfg["beta"] / 2)
        return float(np.sum(np.mean(t + (2 / p) * np.log(L), axis=2)) - ld)
    if "IPSDTA" in c:
        T, V = unpack_basis(s["basis"]), s["activation"]
        q, ldr, at = 0, 0, 0
        for t in T:
            n = t.shape[-1]
            R = pos_def(np.einsum("nkab,nkj->njab", t, V))
            y = Y[:, at:at + n].transpose(0, 2, 1)
            at += n
            u = np.linalg.solve(R, y[..., None])[..., 0]
            q = q + np.real(np.sum(np.conj(y) * u, axis=-1))
            ldr = ldr + np.linalg.slogdet(R)[1]
        if c == "TIPSDTA":
            nu, I = cfg["dof"], Y.shape[1]
            q = (nu + 2 * I) / 2 * np.log(1 + 2 / nu * q)
        return float(np.sum(np.mean(q + ldr, axis=1)) - ld)
    raise KeyError(c)
