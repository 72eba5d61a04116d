"""One reference iteration of the gradient, fixed-point and proximal splitting methods (one bin / source at a time)."""

import numpy as np

from . import lowrank as L
from . import spatial as S
from .aux import demix

DELTA = 0.3


# ---------------------------------------------------------------- gradient methods
def score(cfg, Y, var=None):
    """dG/dy*, documented score function; Y: (N, F, T), real (N, T) for ICA"""
    cls, fn = cfg["cls"], cfg.get("fn")
    if Y.ndim == 2:
        if "Laplace" in cls:
            return np.sign(Y)
        return np.tanh(Y) if fn == "logcosh" else Y / np.sqrt(Y**2 + DELTA)
    d = DELTA if fn == "smooth" else 0.0
    if cls.endswith("FDICA"):
        r = np.sqrt(np.abs(Y) ** 2 + d)
    elif var is not None:
        r = var[:, None, :]
    else:
        r = np.sqrt(np.sum(np.abs(Y) ** 2, axis=1, keepdims=True) + d)
    return Y / S.flo(r) if var is None else Y / r


def gradient_step(cfg, pre, X, step, holonomic):
    W = pre["demix_filter"]
    natural = cfg["cls"].startswith("Natural")
    new = {}
    if X.ndim == 2:
        Ws, Xs = W[None], [X]
        Phi = [score(cfg, W @ X)]
    else:
        Ws, Xs = W, [X[:, f] for f in range(X.shape[1])]
        Y = demix(W, X)
        var = None
        if "Gauss" in cfg["cls"]:
            new["variance"] = var = S.flo(np.mean(np.abs(Y) ** 2, axis=1))
        P = score(cfg, Y, var)
        Phi = [P[:, f] for f in range(X.shape[1])]
    out = []
    for w, x, phi in zip(Ws, Xs, Phi):
        n = w.shape[0]
        y = w @ x
        M = np.zeros((n, n), w.dtype if np.isrealobj(x) else complex)
        for a in range(n):
            for b in range(n):
                M[a, b] = np.sum(phi[a] * y[b].conj()) / x.shape[1]
        D = M - np.eye(n) if holonomic else M - np.diag(np.diag(M))
        out.append(w - step * D @ (w if natural else np.linalg.inv(w).conj().T))
    new["demix_filter"] = out[0] if X.ndim == 2 else np.stack(out)
    return new


# ---------------------------------------------------------------- fixed-point methods
def sym_orth(W):
    return L.herm_fn(W @ W.conj().T, lambda v: 1 / np.sqrt(v)) @ W


def g1(fn, r):
    return 2 * np.ones_like(r) if fn == "laplace" else 2 * r / np.sqrt(r**2 + DELTA)


def g2(fn, r):
    return np.zeros_like(r) if fn == "laplace" else 2 * DELTA / (r**2 + DELTA) ** 1.5


def fastica_step(cfg, pre, Z):
    W = np.array(pre["demix_filter"])
    for n in range(W.shape[0]):
        y = W[n] @ Z
        if cfg["fn"] == "logcosh":
            phi, d = np.tanh(y), 1 - np.tanh(y) ** 2
        else:
            phi, d = y / np.sqrt(y**2 + DELTA), DELTA / (y**2 + DELTA) ** 1.5
        w = np.mean(d) * W[n] - Z @ phi / Z.shape[1]
        for k in range(n):  # deflation
            w = w - (W[k] @ w) * W[k]
        W[n] = w / np.sqrt(w @ w)
    return {"demix_filter": W}


def fastiva_step(cfg, pre, Z):
    W = pre["demix_filter"]
    fn = cfg["fn"]
    Y = demix(W, Z)
    N, F, T = Y.shape
    r = np.sqrt(np.sum(np.abs(Y) ** 2, axis=1))
    phi = g1(fn, r) / S.flo(2 * r)
    dphi = (2 * phi - g2(fn, r)) / S.flo(2 * r)
    out = np.zeros_like(W)
    for f in range(F):
        for n in range(N):
            z, y = Z[:, f], Y[n, f]
            w = W[f, n].conj()  # column
            u = np.zeros(N, complex)
            for t in range(T):
                u += phi[n, t] * (w - z[:, t] * y[t].conj()) / T
            u -= np.mean(dphi[n] * np.abs(y) ** 2) * w
            out[f, n] = u.conj()
        out[f] = sym_orth(out[f])
    return {"demix_filter": out}


def fasteriva_step(cfg, pre, Z):
    """largest eigenvector of the weighted covariance per source (unit factor free), then symmetric orthonormalization"""
    W = pre["demix_filter"]
    Y = demix(W, Z)
    N, F, T = Y.shape
    r = np.sqrt(np.sum(np.abs(Y) ** 2, axis=1))
    phi = g1(cfg["fn"], r) / S.flo(2 * r)
    out = np.zeros_like(W)
    gap = np.inf
    for f in range(F):
        for n in range(N):
            U = sum(phi[n, t] * np.outer(Z[:, f, t], Z[:, f, t].conj()) for t in range(T)) / T
            lam, P = np.linalg.eigh(U)
            out[f, n] = P[:, -1].conj()
        out[f] = sym_orth(out[f])
    return {"demix_filter": out}


# ---------------------------------------------------------------- proximal splitting
def prox_logdet(M, mu):
    """argmin -mu log|det| + 1/2 distance^2: V = M + mu V^(-H), same singular vectors"""
    out = np.zeros_like(M, dtype=complex)
    for f in range(M.shape[0]):
        U, s, Vh = np.linalg.svd(M[f])
        out[f] = (U * ((s + np.sqrt(s * s + 4 * mu)) / 2)) @ Vh
    return out


def soft(kind, Z, mu):
    """proximal operator of mu * (l1 or group norm over frequencies)"""
    out = np.zeros_like(Z)
    N, F, T = Z.shape
    for n in range(N):
        for t in range(T):
            if kind == "l1":
                for f in range(F):
                    a = abs(Z[n, f, t])
                    out[n, f, t] = 0 if a <= mu else Z[n, f, t] * (1 - mu / a)
            else:
                a = np.sqrt(np.sum(np.abs(Z[n, :, t]) ** 2))
                out[n, :, t] = 0 if a <= mu else Z[n, :, t] * (1 - mu / a)
    return out


def hva_mask(Z, attenuation=None, iters=1):
    N, F, T = Z.shape
    gamma = 1 / N if attenuation is None else attenuation
    L_ = 2 * (F - 1)
    logs = np.log(S.flo(np.abs(Z)))
    v = np.zeros((N, F, T))
    for n in range(N):
        for t in range(T):
            mean = np.mean(logs[n, :, t])
            rho = logs[n, :, t] - mean
            # cepstrum: real even transform of the one-sided log spectrum
            nu = np.array([(rho[0] + (-1) ** q * rho[F - 1] + 2 * sum(rho[f] * np.cos(2 * np.pi * f * q / L_) for f in range(1, F - 1))) / L_
                           for q in range(F)])
            s = np.minimum(1, nu)
            for _ in range(iters):
                s = (1 - np.cos(np.pi * s)) / 2
            c = s * nu
            xi = np.array([c[0] + (-1) ** f * c[F - 1] + 2 * sum(c[q] * np.cos(2 * np.pi * f * q / L_) for q in range(1, F - 1))
                           for f in range(F)])
            v[n, :, t] = np.exp(2 * (xi + mean))
    return (v / v.sum(axis=0)) ** gamma


def denoisers(cfg):
    """list of functions Z, mu -> proximal point (or masked signal)"""
    cls, kw = cfg["cls"], cfg["kw"]
    if "HVA" in cls:
        return [lambda Z, mu: hva_mask(Z, kw.get("attenuation"), kw.get("mask_iter", 1)) * Z]
    if cls in ("PDSIVA", "ADMMIVA"):
        return [lambda Z, mu: soft("l21", Z, mu)]
    names = cfg["fn"].split("+")
    if names[0] == "phase":  # a user mask with complex values
        return [lambda Z, mu: np.array([[[z * (0.3 + 0.5 * abs(z) / (1 + abs(z))) * complex(np.cos(0.8 / (1 + abs(z))), np.sin(0.8 / (1 + abs(z))))
                                          for z in b] for b in a] for a in Z])]
    if cls.startswith("Masking"):  # masks ignore the step size
        return [lambda Z, mu: soft(names[0], Z, 1.0)]
    return [lambda Z, mu, k=k: soft(k, Z, mu) for k in names]


def pds_step(cfg, pre, X):
    kw = cfg["kw"]
    mu1, mu2, al = kw.get("mu1", 1), kw.get("mu2", 1), kw.get("relaxation", 1)
    W, Y = pre["demix_filter"], pre["dual"]
    fns = denoisers(cfg)
    single = Y.ndim == 3
    Ys = [Y] if single else list(Y)
    G = np.zeros_like(W)
    for f in range(X.shape[1]):
        G[f] = sum(y[:, f] @ X[:, f].conj().T for y in Ys)
    Wt = prox_logdet(W - mu1 * mu2 * G, mu1)
    R = demix(2 * Wt - W, X)
    Yn = []
    for y, fn in zip(Ys, fns):
        z = y + R
        Yn.append(al * (z - fn(z, 1 / mu2)) + (1 - al) * y)
    return {"demix_filter": al * Wt + (1 - al) * W, "dual": Yn[0] if single else np.stack(Yn)}


def admm_step(cfg, pre, X):
    kw = cfg["kw"]
    rho, al = kw.get("rho", 1), kw.get("relaxation", 1)
    V, Vt, D, Dt = (pre[k] for k in ("auxiliary1", "auxiliary2", "dual1", "dual2"))
    fns = denoisers(cfg)
    single = Vt.ndim == 3
    if single:
        Vt, Dt = Vt[None], Dt[None]
    q = len(fns)
    n, F, _ = X.shape
    W = np.zeros_like(V)
    for f in range(F):
        # argmin |W - (V - D)|^2 + sum_q |W x - (Vt_q - Dt_q)|^2, row by row
        x = X[:, f]
        A = np.vstack([np.eye(n)] + [x.T] * q)
        for s in range(n):
            b = np.concatenate([(V - D)[f, s]] + [(Vt - Dt)[k, s, f] for k in range(q)])
            W[f, s] = np.linalg.lstsq(A, b, rcond=None)[0]
    U = al * W + (1 - al) * V
    R = demix(W, X)
    Vn = prox_logdet(U + D, 1 / rho)
    new = {"demix_filter": W, "auxiliary1": Vn, "dual1": D + U - Vn}
    a2, d2 = [], []
    for k, fn in enumerate(fns):
        Ut = al * R + (1 - al) * Vt[k]
        v = fn(Ut + Dt[k], 1 / rho)
        a2.append(v)
        d2.append(Dt[k] + Ut - v)
    new["auxiliary2"] = a2[0] if single else np.stack(a2)
    new["dual2"] = d2[0] if single else np.stack(d2)
    return new
