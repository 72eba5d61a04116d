"""Reference EM iteration of the complex angular central Gaussian mixture model."""

import numpy as np

from . import spatial
from .lowrank import psd


def unit(X):
    nrm = np.sqrt(np.sum(np.abs(X) ** 2, axis=0))
    return X / spatial.flo(nrm)


def quad(B, Z):
    """(N, F, T) z^H B^{-1} z"""
    N, F = B.shape[:2]
    out = np.zeros((N, F, Z.shape[2]))
    for n in range(N):
        for f in range(F):
            V = np.linalg.solve(B[n, f], Z[:, f])
            out[n, f] = spatial.flo(np.maximum(np.sum(Z[:, f].conj() * V, axis=0).real, 0))
    return out


def posterior(alpha, B, X):
    Z = unit(X)
    C = X.shape[0]
    q = quad(B, Z)
    lp = np.log(alpha)[:, :, None] - np.linalg.slogdet(B)[1][:, :, None] - C * np.log(q)
    lp = lp - lp.max(axis=0)
    p = np.exp(lp)
    return p / p.sum(axis=0)


def step(cfg, pre, X):
    alpha, B = pre["mixing"], pre["covariance"]
    Z = unit(X)
    C, F, T = X.shape
    g = posterior(alpha, B, X)
    q = quad(B, Z)
    Bn = np.zeros_like(B)
    for n in range(B.shape[0]):
        for f in range(F):
            S = sum(g[n, f, t] / q[n, f, t] * np.outer(Z[:, f, t], Z[:, f, t].conj()) for t in range(T))
            Bn[n, f] = psd(C * S / g[n, f].sum())
            if cfg["kw"].get("normalization", True):
                Bn[n, f] = Bn[n, f] / np.trace(Bn[n, f]).real
    return {"posterior": g, "mixing": g.mean(axis=2), "covariance": Bn}
