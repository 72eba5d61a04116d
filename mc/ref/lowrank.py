"""One reference iteration of IPSDTA, MNMF and FastMNMF: loops over sources, bins and frames, textbook formulas."""

import numpy as np

from . import spatial as S
from .aux import demix, pairs_for

EPS = 1e-10


def herm_fn(A, fn):
    lam, P = np.linalg.eigh((A + A.conj().T) / 2)
    return (P * fn(lam)) @ P.conj().T


def psd(A):
    return herm_fn(A, S.flo)


def psd0(A):
    """with the fixed floor of the PSDTF reconstruction"""
    return herm_fn(A, lambda v: np.maximum(v, EPS))


def riccati(P, Q):
    """the positive definite X with X P X = Q"""
    r = herm_fn(P, np.sqrt)
    ri = np.linalg.inv(r)
    return ri @ herm_fn(r @ Q @ r, lambda v: np.sqrt(np.maximum(v, 0))) @ ri


# ---------------------------------------------------------------- IPSDTA
def blocks(n_bins, n_blocks):
    """list of bin index lists; the last n_bins % n_blocks blocks are one bin larger"""
    q, r = divmod(n_bins, n_blocks)
    out, at = [], 0
    for b in range(n_blocks):
        size = q + (1 if b >= n_blocks - r else 0)
        out.append(list(range(at, at + size)))
        at += size
    return out


def get_basis(pre):
    """basis as list over blocks of (N, K, size, size)"""
    if "basis" in pre:
        return [pre["basis"][:, :, b] for b in range(pre["basis"].shape[2])]
    lo, hi = pre["basis.0"], pre["basis.1"]
    return [lo[:, :, b] for b in range(lo.shape[2])] + [hi[:, :, b] for b in range(hi.shape[2])]


def put_basis(T, like):
    sizes = [t.shape[-1] for t in T]
    if len(set(sizes)) == 1 and "basis" in like:
        return {"basis": np.stack(T, axis=2)}
    lo = [t for t in T if t.shape[-1] == min(sizes)]
    hi = [t for t in T if t.shape[-1] == max(sizes)]
    return {"basis.0": np.stack(lo, axis=2), "basis.1": np.stack(hi, axis=2)}


def psdtf(T, V):
    """R[b][n][t]"""
    return [[[psd0(np.tensordot(V[n, :, t], Tb[n], axes=(0, 0))) for t in range(V.shape[2])] for n in range(V.shape[0])] for Tb in T]


def ipsdta_pi(cfg, Y, R, bl):
    n, F, t = Y.shape
    if cfg["cls"] == "GaussIPSDTA":
        return np.ones((n, t))
    nu = cfg["kw"]["dof"]
    pi = np.zeros((n, t))
    for s in range(n):
        for j in range(t):
            q = 0.0
            for b, idx in enumerate(bl):
                y = Y[s, idx, j]
                q += max((y.conj() @ np.linalg.inv(R[b][s][j]) @ y).real, 0)
            pi[s, j] = (nu + 2 * F) / (nu + 2 * q)
    return pi


def ipsdta_step(cfg, pre, X):
    kw = cfg["kw"]
    W, V, T = np.array(pre["demix_filter"]), np.array(pre["activation"]), [np.array(t) for t in get_basis(pre)]
    F, n_t = X.shape[1], X.shape[2]
    bl = blocks(F, kw["n_blocks"])
    N, K = V.shape[:2]
    Y = demix(W, X)
    # basis
    R = psdtf(T, V)
    pi = ipsdta_pi(cfg, Y, R, bl)
    new = []
    for b, idx in enumerate(bl):
        Tb = np.zeros_like(T[b])
        for n in range(N):
            Ri = [np.linalg.inv(R[b][n][t]) for t in range(n_t)]
            M = [Ri[t] @ np.outer(Y[n, idx, t], Y[n, idx, t].conj()) @ Ri[t] * pi[n, t] for t in range(n_t)]
            for k in range(K):
                P = sum(V[n, k, t] * Ri[t] for t in range(n_t)) / n_t
                Q = sum(V[n, k, t] * M[t] for t in range(n_t)) / n_t
                Tb[n, k] = psd(riccati(psd(P), psd(T[b][n, k] @ Q @ T[b][n, k])))
        new.append(Tb)
    T = new
    # activation
    R = psdtf(T, V)
    pi = ipsdta_pi(cfg, Y, R, bl)
    Vn = np.zeros_like(V)
    for n in range(N):
        for t in range(n_t):
            num, den = np.zeros(K), np.zeros(K)
            for b, idx in enumerate(bl):
                Ri = np.linalg.inv(R[b][n][t])
                y = Ri @ Y[n, idx, t]
                for k in range(K):
                    num[k] += pi[n, t] * (y.conj() @ T[b][n, k] @ y).real
                    den[k] += np.trace(Ri @ T[b][n, k]).real
            Vn[n, :, t] = V[n, :, t] * np.sqrt(num / den)
    V = Vn
    if kw.get("source_normalization", True):
        tr = sum(np.trace(Tb, axis1=-2, axis2=-1).real for Tb in T)  # over all frequencies
        T = [Tb / tr[:, :, None, None] for Tb in T]
        V = V * tr[:, :, None]
    # demixing filter
    R = psdtf(T, V)
    pi = ipsdta_pi(cfg, Y, R, bl)
    for b, idx in enumerate(bl):
        m, C = len(idx), X.shape[0]
        cov = np.zeros((m, m, N, C, C), complex)
        for n in range(N):
            for t in range(n_t):
                Ri = np.linalg.inv(R[b][n][t]) * pi[n, t]
                for i in range(m):
                    for j in range(m):
                        cov[i, j, n] += Ri[j, i] * np.outer(X[:, idx[i], t], X[:, idx[j], t].conj()) / n_t
        W[idx] = S.vcd(W[idx], cov)
    return dict(put_basis(T, pre), activation=V, demix_filter=W)


def ipsdta_loss(cfg, s, X):
    kw = cfg["kw"]
    T, V, W = get_basis(s), s["activation"], s["demix_filter"]
    F, n_t = X.shape[1], X.shape[2]
    bl = blocks(F, kw["n_blocks"])
    R = psdtf(T, V)
    Y = demix(W, X)
    tot = 0.0
    for t in range(n_t):
        for n in range(V.shape[0]):
            q = ld = 0.0
            for b, idx in enumerate(bl):
                y = Y[n, idx, t]
                q += (y.conj() @ np.linalg.inv(R[b][n][t]) @ y).real
                ld += np.linalg.slogdet(R[b][n][t])[1]
            if cfg["cls"] == "GaussIPSDTA":
                tot += q + ld
            else:
                nu = kw["dof"]
                tot += (nu + 2 * F) / 2 * np.log(1 + 2 / nu * q) + ld
    return tot / n_t - 2 * sum(np.log(abs(np.linalg.det(W[f]))) for f in range(F))


# ---------------------------------------------------------------- MNMF
def variances(s):
    """(N, F, T) modelled variances"""
    T, V = s["basis"], s["activation"]
    if "latent" in s:
        return np.einsum("nk,fk,kt->nft", s["latent"], T, V)
    return np.einsum("nfk,nkt->nft", T, V)


def mnmf_R(s):
    L, H = variances(s), s["spatial"]
    N, F, n_t = L.shape
    return [[psd(sum(L[n, f, t] * H[n, f] for n in range(N))) for t in range(n_t)] for f in range(F)]


def instant(X):
    F, n_t = X.shape[1:]
    return [[psd(np.outer(X[:, f, t], X[:, f, t].conj())) for t in range(n_t)] for f in range(F)]


def mnmf_traces(s, XX):
    R, H = mnmf_R(s), s["spatial"]
    N, F = H.shape[:2]
    n_t = len(R[0])
    a, b = np.zeros((N, F, n_t)), np.zeros((N, F, n_t))
    for f in range(F):
        for t in range(n_t):
            Ri = np.linalg.inv(R[f][t])
            M = Ri @ XX[f][t] @ Ri
            for n in range(N):
                a[n, f, t] = np.trace(M @ H[n, f]).real
                b[n, f, t] = np.trace(Ri @ H[n, f]).real
    return a, b


def mnmf_step(cfg, pre, X):
    s = {k: np.array(pre[k]) for k in ("basis", "activation", "spatial", "latent") if k in pre}
    part = "latent" in s
    XX = instant(X)
    fl = S.flo
    a, b = mnmf_traces(s, XX)
    if part:
        num, den = (np.einsum("nk,kt,nft->fk", s["latent"], s["activation"], q) for q in (a, b))
    else:
        num, den = (np.einsum("nkt,nft->nfk", s["activation"], q) for q in (a, b))
    s["basis"] = fl(s["basis"] * np.sqrt(num / den))
    a, b = mnmf_traces(s, XX)
    if part:
        num, den = (np.einsum("nk,fk,nft->kt", s["latent"], s["basis"], q) for q in (a, b))
    else:
        num, den = (np.einsum("nfk,nft->nkt", s["basis"], q) for q in (a, b))
    s["activation"] = fl(s["activation"] * np.sqrt(num / den))
    L, R, H = variances(s), mnmf_R(s), s["spatial"]
    N, F, n_t = L.shape
    Hn = np.zeros_like(H, dtype=complex)
    for n in range(N):
        for f in range(F):
            Ri = [np.linalg.inv(R[f][t]) for t in range(n_t)]
            P = sum(L[n, f, t] * Ri[t] for t in range(n_t))
            Q = sum(L[n, f, t] * Ri[t] @ XX[f][t] @ Ri[t] for t in range(n_t))
            Hn[n, f] = psd(riccati(psd(P), psd(H[n, f] @ Q @ H[n, f])))
    s["spatial"] = Hn
    if cfg["kw"].get("normalization", True):
        tr = np.trace(Hn, axis1=-2, axis2=-1).real
        s["spatial"] = Hn / tr[..., None, None]
        if not part:
            s["basis"] = s["basis"] * tr[:, :, None]
    if part:
        a, b = mnmf_traces(s, XX)
        num, den = (np.einsum("fk,kt,nft->nk", s["basis"], s["activation"], q) for q in (a, b))
        Z = s["latent"] * np.sqrt(num / den)
        s["latent"] = Z / Z.sum(axis=0)
    return s


def mnmf_loss(s, X):
    R, XX = mnmf_R(s), instant(X)
    F, n_t = X.shape[1:]
    return sum(np.trace(XX[f][t] @ np.linalg.inv(R[f][t])).real + np.linalg.slogdet(R[f][t])[1]
               for f in range(F) for t in range(n_t)) / n_t


def wiener(L, H, X, ref):
    """images at channel ref: (N, F, T); L variances, H (N, F, C, C) spatial covariances"""
    N, F, n_t = L.shape
    Y = np.zeros((N, F, n_t), complex)
    for f in range(F):
        for t in range(n_t):
            R = psd(sum(L[n, f, t] * H[n, f] for n in range(N)))
            z = np.linalg.inv(R) @ X[:, f, t]
            for n in range(N):
                Y[n, f, t] = L[n, f, t] * (H[n, f] @ z)[ref]
    return Y


# ---------------------------------------------------------------- FastMNMF
def fast_terms(s, X):
    """QX2 (F, C, T), lam (F, C, T) modelled variances of the diagonalized channels"""
    L, D, Q = variances(s), s["spatial"], s["diagonalizer"]
    F = X.shape[1]
    QX2 = np.stack([np.abs(Q[f] @ X[:, f]) ** 2 for f in range(F)])
    lam = np.einsum("nft,fnc->fct", L, D)
    return L, QX2, lam


def fastmnmf_step(cfg, pre, X):
    s = {k: np.array(pre[k]) for k in ("basis", "activation", "spatial", "diagonalizer")}
    fl = S.flo
    _, q, lam = fast_terms(s, X)
    num = np.einsum("nkt,fnc,fct->nfk", s["activation"], s["spatial"], q / lam**2)
    den = np.einsum("nkt,fnc,fct->nfk", s["activation"], s["spatial"], 1 / lam)
    s["basis"] = fl(s["basis"] * np.sqrt(num / den))
    _, q, lam = fast_terms(s, X)
    num = np.einsum("nfk,fnc,fct->nkt", s["basis"], s["spatial"], q / lam**2)
    den = np.einsum("nfk,fnc,fct->nkt", s["basis"], s["spatial"], 1 / lam)
    s["activation"] = fl(s["activation"] * np.sqrt(num / den))
    _, q, lam = fast_terms(s, X)
    F, C = lam.shape[:2]
    alg = cfg["kw"].get("diagonalizer_algorithm", "IP")
    Qn = []
    for f in range(F):
        U = S.weighted_cov(X[:, f], 1 / lam[f])
        Q = s["diagonalizer"][f]
        Qn.append(S.ip1(Q, U) if alg in ("IP", "IP1") else S.ip2(Q, U, pairs_for("IP2", cfg.get("sel"), C)))
    s["diagonalizer"] = np.stack(Qn)
    L, q, lam = fast_terms(s, X)
    num = np.einsum("nft,fct->fnc", L, q / lam**2)
    den = np.einsum("nft,fct->fnc", L, 1 / lam)
    s["spatial"] = s["spatial"] * np.sqrt(num / den)
    if cfg["kw"].get("normalization", True):
        _, q, _ = fast_terms(s, X)
        psi = fl(np.sqrt(np.mean(q, axis=(0, 2))))
        s["diagonalizer"] = s["diagonalizer"] / psi[None, :, None]
        s["spatial"] = s["spatial"] / psi**2
    return s


def fastmnmf_loss(s, X):
    _, q, lam = fast_terms(s, X)
    F, _, n_t = lam.shape
    return float(np.sum(q / lam + np.log(lam)) / n_t - 2 * sum(np.log(abs(np.linalg.det(s["diagonalizer"][f]))) for f in range(F)))


def fast_cov(s):
    """(N, F, C, C) spatial covariances"""
    Qi = np.linalg.inv(s["diagonalizer"])
    return np.einsum("fac,fnc,fbc->nfab", Qi, s["spatial"], Qi.conj())
