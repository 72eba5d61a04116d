"""One reference iteration of the auxiliary-function FDICA / IVA methods and of the ILRMA family."""

import numpy as np

from . import spatial as S

OUT = ("ISS", "ISS1", "ISS2", "IPA")


def demix(W, X):
    """W: (F, N, C), X: (C, F, T) -> Y: (N, F, T)"""
    return np.stack([W[f] @ X[:, f] for f in range(X.shape[1])], axis=1)


def pairs_for(alg, sel, n):
    """documented pair order of the classes"""
    if sel is None or sel == "sequential":
        return [(i % n, (i + 1) % n) for i in range(n)]
    if sel == "combination":
        return [(i, j) for i in range(n) for j in range(i + 1, n)]
    if sel == "reversed":
        return [(m, m - 1) for m in range(n - 1, 0, -1)] + ([(0, n - 1)] if n > 2 else [])
    raise KeyError(sel)


def iva_weight(dfn, Y, variance=None):
    """G'(r)/(2r) with r the norm over frequencies, (N, T); Gauss: 1/variance"""
    r = np.sqrt(np.sum(np.abs(Y) ** 2, axis=1))
    if variance is not None:
        d = 2 * r / variance
    else:
        d = dfn(r)
    return d / S.flo(2 * r)


DFN = {
    "laplace": lambda r: 2 * np.ones_like(r),
    "smooth": lambda r: 2 * r / np.sqrt(r**2 + 0.3),
}


def spatial_step(alg, X, W, Y, weight, pairs, reweight=None, newton=1, normalization=True):
    """weight: (N, F, T).  reweight(W, pair) gives the weights again before each pair (IVA/FDICA IP2)."""
    F = X.shape[1]
    if alg in ("IP", "IP1"):
        return np.stack([S.ip1(W[f], S.weighted_cov(X[:, f], weight[:, f])) for f in range(F)])
    if alg == "IP2":
        W = np.array(W)
        for m, n in pairs:
            w = weight[[m, n]] if reweight is None else reweight(W, (m, n))
            for f in range(F):
                U = S.weighted_cov(X[:, f], w[:, f])
                W[f] = S.ip2_pair(W[f], U[0], U[1], m, n)
        return W
    if alg in ("ISS", "ISS1"):
        return np.stack([S.iss1(Y[:, f], weight[:, f]) for f in range(F)], axis=1)
    if alg == "ISS2":
        return np.stack([S.iss2(Y[:, f], weight[:, f], pairs) for f in range(F)], axis=1)
    if alg == "IPA":
        return np.stack([S.ipa(Y[:, f], weight[:, f], newton, normalization) for f in range(F)], axis=1)
    raise KeyError(alg)


def fdica_step(cfg, pre, X):
    """AuxFDICA / AuxLaplaceFDICA"""
    dfn = DFN[cfg.get("fn") or "laplace"]
    alg = cfg["kw"].get("spatial_algorithm", "IP")
    W = pre["demix_filter"]

    def weights(W, rows):
        Y = demix(W, X)[list(rows)]
        r = np.abs(Y)
        return dfn(r) / S.flo(2 * r)

    n = W.shape[1]
    return {"demix_filter": spatial_step(alg, X, W, None, weights(W, range(n)), pairs_for(alg, cfg.get("sel"), n),
                                         reweight=weights)}


def iva_step(cfg, pre, X):
    """AuxIVA / AuxLaplaceIVA / AuxGaussIVA"""
    alg = cfg["kw"].get("spatial_algorithm", "IP")
    gauss = cfg["cls"] == "AuxGaussIVA"
    dfn = None if gauss else DFN[cfg.get("fn") or "laplace"]
    out_based = alg in OUT
    W = pre.get("demix_filter")
    Y = pre["output"] if out_based else demix(W, X)
    n, F, T = Y.shape
    new = {}
    var = None
    if gauss:
        var = S.flo(np.mean(np.abs(Y) ** 2, axis=1))
        new["variance"] = var
    w = np.repeat(iva_weight(dfn, Y, var)[:, None, :], F, axis=1)

    def reweight(W, rows):
        Yp = demix(W, X)[list(rows)]
        v = None if var is None else var[list(rows)]
        return np.repeat(iva_weight(dfn, Yp, v)[:, None, :], F, axis=1)

    res = spatial_step(alg, X, W, Y, w, pairs_for(alg, cfg.get("sel"), n), reweight,
                       cfg["kw"].get("newton_iter", 1), cfg["kw"].get("lqpqm_normalization", True))
    new["output" if out_based else "demix_filter"] = res
    return new


# ---------------------------------------------------------------- ILRMA
def nmf(pre):
    T, V = pre["basis"], pre["activation"]
    if "latent" in pre:
        return np.einsum("nk,ik,kt->nit", pre["latent"], T, V)
    return np.einsum("nik,nkt->nit", T, V)


def ilrma_terms(cfg, r, Y):
    """(A, exponent): theta <- theta (sum D A / sum D/r)^exponent for r = sum theta D"""
    p = cfg["kw"].get("domain", 2)
    me = cfg["kw"].get("source_algorithm", "MM") == "ME"
    Y2 = np.abs(Y) ** 2
    if cfg["cls"] == "GaussILRMA":
        return Y2 / r ** (1 + 2 / p), (1.0 if me else p / (p + 2))
    if cfg["cls"] == "TILRMA":
        nu = cfg["kw"]["dof"]
        rt = nu / (nu + 2) * r ** (2 / p) + 2 / (nu + 2) * Y2
        return Y2 / (rt * r), (1.0 if me else p / (p + 2))
    beta = cfg["kw"]["beta"]
    return beta / 2 * np.abs(Y) ** beta / r ** (1 + beta / p), p / (beta + p)


def ilrma_weight(cfg, r, Y):
    p = cfg["kw"].get("domain", 2)
    if cfg["cls"] == "GaussILRMA":
        return 1 / r ** (2 / p)
    if cfg["cls"] == "TILRMA":
        nu = cfg["kw"]["dof"]
        return 1 / (nu / (nu + 2) * r ** (2 / p) + 2 / (nu + 2) * np.abs(Y) ** 2)
    beta = cfg["kw"]["beta"]
    return beta / 2 / (S.flo(np.abs(Y) ** (2 - beta)) * r ** (beta / p))


def ilrma_step(cfg, pre, X, reference_id=0, stage=None):
    kw = cfg["kw"]
    alg = kw.get("spatial_algorithm", "IP")
    out_based = alg in OUT
    p = kw.get("domain", 2)
    st = {k: np.array(v) for k, v in pre.items() if k in ("basis", "activation", "latent", "demix_filter", "output")}
    Y = st["output"] if out_based else demix(st["demix_filter"], X)
    part = kw.get("partitioning", False)
    fl = S.flo
    if part:
        r = nmf(st)
        A, e = ilrma_terms(cfg, r, Y)
        num = np.einsum("ik,kt,nit->nk", st["basis"], st["activation"], A)
        den = np.einsum("ik,kt,nit->nk", st["basis"], st["activation"], 1 / r)
        Z = st["latent"] * (num / den) ** e
        st["latent"] = Z / Z.sum(axis=0)
        r = nmf(st)
        A, e = ilrma_terms(cfg, r, Y)
        num = np.einsum("nk,kt,nit->ik", st["latent"], st["activation"], A)
        den = np.einsum("nk,kt,nit->ik", st["latent"], st["activation"], 1 / r)
        st["basis"] = fl(st["basis"] * (num / den) ** e)
        r = nmf(st)
        A, e = ilrma_terms(cfg, r, Y)
        num = np.einsum("nk,ik,nit->kt", st["latent"], st["basis"], A)
        den = np.einsum("nk,ik,nit->kt", st["latent"], st["basis"], 1 / r)
        st["activation"] = fl(st["activation"] * (num / den) ** e)
    else:
        r = nmf(st)
        A, e = ilrma_terms(cfg, r, Y)
        num = np.einsum("nkt,nit->nik", st["activation"], A)
        den = np.einsum("nkt,nit->nik", st["activation"], 1 / r)
        st["basis"] = fl(st["basis"] * (num / den) ** e)
        r = nmf(st)
        A, e = ilrma_terms(cfg, r, Y)
        num = np.einsum("nik,nit->nkt", st["basis"], A)
        den = np.einsum("nik,nit->nkt", st["basis"], 1 / r)
        st["activation"] = fl(st["activation"] * (num / den) ** e)
    r = nmf(st)
    w = ilrma_weight(cfg, r, Y)
    n = Y.shape[0]
    res = spatial_step(alg, X, st.get("demix_filter"), Y, w, pairs_for(alg, cfg.get("sel"), n), None,
                       kw.get("newton_iter", 1), kw.get("lqpqm_normalization", True))
    st["output" if out_based else "demix_filter"] = res
    norm = kw.get("normalization", True)
    if norm:
        Y = st["output"] if out_based else demix(st["demix_filter"], X)
        if norm is True or norm == "power":
            psi = fl(np.sqrt(np.mean(np.abs(Y) ** 2, axis=(1, 2))))
            if part:
                Z = st["latent"] / psi[:, None] ** p
                s = Z.sum(axis=0)
                st["latent"], st["basis"] = Z / s, st["basis"] * s
            else:
                st["basis"] = st["basis"] / psi[:, None, None] ** p
            if out_based:
                st["output"] = Y / psi[:, None, None]
            else:
                st["demix_filter"] = st["demix_filter"] / psi[None, :, None]
        else:
            F = X.shape[1]
            for f in range(F):
                if out_based:
                    yf = Y[:, f]
                    sc = (X[reference_id, f] @ yf.conj().T) @ np.linalg.inv(yf @ yf.conj().T)
                    st["output"][:, f] = yf * sc[:, None]
                else:
                    sc = np.linalg.inv(st["demix_filter"][f])[reference_id]
                    st["demix_filter"][f] = st["demix_filter"][f] * sc[:, None]
                st["basis"][:, f] = st["basis"][:, f] * (np.abs(sc) ** p)[:, None]
    return {k: v for k, v in st.items() if k != ("demix_filter" if out_based else "output")}
