"""Documented objectives, accumulated with scalar loops from the parameters alone (no code shared with the package)."""

import math

import numpy as np

from . import lowrank as L
from .aux import OUT, demix, nmf

DELTA = 0.3


def logabsdet(M):
    return math.log(abs(np.linalg.det(np.asarray(M, complex))))


def contrast(cfg, Y, s):
    """sum over sources of the mean over frames of G"""
    cls, fn = cfg["cls"], cfg.get("fn")
    N, F, T = Y.shape
    tot = 0.0
    for n in range(N):
        for t in range(T):
            y = Y[n, :, t]
            if cls in ("GradGaussIVA", "NaturalGradGaussIVA", "AuxGaussIVA"):
                v = s["variance"][n, t]
                tot += F * math.log(v) + sum(abs(c) ** 2 for c in y) / v
            elif cls.endswith("FDICA"):
                tot += sum(2 * math.sqrt(abs(c) ** 2 + (DELTA if fn == "smooth" else 0)) for c in y)
            else:  # spherical contrasts
                tot += 2 * math.sqrt(sum(abs(c) ** 2 for c in y) + (DELTA if fn == "smooth" else 0))
    return tot / T


def penalty(name, Y):
    if name == "l1":
        return sum(abs(c) for c in Y.ravel())
    return sum(math.sqrt(sum(abs(c) ** 2 for c in Y[n, :, t])) for n in range(Y.shape[0]) for t in range(Y.shape[2]))


def ilrma(cfg, s, X):
    kw = cfg["kw"]
    p = kw.get("domain", 2)
    out_based = kw.get("spatial_algorithm", "IP") in OUT
    Y = s["output"] if out_based else demix(s["demix_filter"], X)
    r = nmf(s)
    N, F, T = Y.shape
    tot = 0.0
    for n in range(N):
        for f in range(F):
            for t in range(T):
                y, lam = abs(Y[n, f, t]), r[n, f, t]
                if cfg["cls"] == "GaussILRMA":
                    tot += y**2 / lam ** (2 / p) + 2 / p * math.log(lam)
                elif cfg["cls"] == "TILRMA":
                    nu = kw["dof"]
                    tot += (1 + nu / 2) * math.log(1 + 2 / nu * y**2 / lam ** (2 / p)) + 2 / p * math.log(lam)
                else:
                    b = kw["beta"]
                    tot += y**b / lam ** (b / p) + 2 / p * math.log(lam)
    return tot / T - 2 * sum(logabsdet(W) for W in filters(cfg, s, X))


def filters(cfg, s, X):
    if cfg["kw"].get("spatial_algorithm", "IP") in OUT and "demix_filter" not in s:
        return [np.linalg.lstsq(X[:, f].T, s["output"][:, f].T, rcond=None)[0].T for f in range(X.shape[1])]
    return list(s["demix_filter"])


def cacgmm(cfg, s, X):
    C, F, T = X.shape
    tot = 0.0
    for f in range(F):
        inv = [np.linalg.inv(B) for B in s["covariance"][:, f]]
        ld = [logabsdet(B) for B in s["covariance"][:, f]]
        for t in range(T):
            z = X[:, f, t] / np.linalg.norm(X[:, f, t])
            p = sum(s["mixing"][n, f] * math.exp(-ld[n]) * (z.conj() @ inv[n] @ z).real ** (-C) for n in range(len(inv)))
            tot -= math.log(p) / T
    return tot


def objective(cfg, s, X, Z=None):
    """s: snapshot of the parameters; X: mixture (waveform for ICA); Z: whitened mixture for the fixed-point methods"""
    cls = cfg["cls"]
    if "ICA" in cls and X.ndim == 2:
        W = s["demix_filter"]
        if cls == "FastICA":
            X = Z
        Y = W @ X
        if "Laplace" in cls:
            G = [abs(v) for v in Y.ravel()]
        elif cfg["fn"] == "logcosh":
            G = [math.log(math.cosh(v)) for v in Y.ravel()]
        else:
            G = [math.sqrt(v * v + DELTA) for v in Y.ravel()]
        return sum(G) / X.shape[1] - (0 if cls == "FastICA" else logabsdet(W))
    if cls in ("FastIVA", "FasterIVA"):
        return contrast(cfg, demix(s["demix_filter"], Z), s)
    if cls.endswith("FDICA") or (cls.endswith("IVA") and cls not in ("PDSIVA", "ADMMIVA")):
        out_based = cfg["kw"].get("spatial_algorithm") in OUT
        Y = s["output"] if out_based else demix(s["demix_filter"], X)
        return contrast(cfg, Y, s) - 2 * sum(logabsdet(W) for W in filters(cfg, s, X))
    if cls.endswith("ILRMA"):
        return ilrma(cfg, s, X)
    if cls.endswith("IPSDTA"):
        return L.ipsdta_loss(cfg, s, X)
    if cls == "GaussMNMF":
        return L.mnmf_loss(s, X)
    if cls == "FastGaussMNMF":
        return L.fastmnmf_loss(s, X)
    if cls == "CACGMM":
        return cacgmm(cfg, s, X)
    Y = demix(s["demix_filter"], X)
    if cls in ("PDSIVA", "ADMMIVA"):
        names = ["l21"]
    else:
        names = (cfg.get("penalty") or cfg["fn"]).split("+")
    return sum(penalty(k, Y) for k in names) - sum(logabsdet(W) for W in s["demix_filter"])
