"""Reference spatial updates, one frequency bin at a time, from the textbook formulas.

W: (N, N) rows are w_n^H;  U: (N, C, C) weighted covariances;  Y: (N, T) separated;  phi: (N, T) weights.
"""

import numpy as np

EPS = 1e-10
NOISE = 0.0  # relative rounding noise put on accumulated covariances when the conditioning of a step is probed


def weighted_cov(x, phi):
    """x: (C, T), phi: (N, T) -> U_n = mean_t phi_nt x_t x_t^H"""
    n_frames = x.shape[1]
    U = np.array([sum(p[t] * np.outer(x[:, t], x[:, t].conj()) for t in range(n_frames)) / n_frames for p in phi])
    if NOISE:
        c = np.arange(U.shape[1])
        U = U * (1 + NOISE * np.cos(c[:, None] + c[None, :] + 0.3))
    return U


DENOM = None
FLOOR = None  # flooring function of the method (None: the default, maximum with 1e-10)


def flo(v):
    """the flooring function in effect"""
    return np.maximum(v, EPS) if FLOOR is None else FLOOR(v)


class flooring:
    """with flooring(f): every reference floors by f instead of the default (denom: another one for the normalization of filters)"""

    def __init__(self, f, denom=None):
        self.f = f, denom

    def __enter__(self):
        global FLOOR, DENOM
        self.saved, (FLOOR, DENOM) = (FLOOR, DENOM), self.f

    def __exit__(self, *a):
        global FLOOR, DENOM
        FLOOR, DENOM = self.saved


def floor(v, fl=None):
    if fl is None:
        return flo(v) if DENOM is None else DENOM(v)
    return fl(v)


def ip1(W, U, sources=None, fl=None):
    W = np.array(W, complex)
    n = W.shape[0]
    for k in range(n) if sources is None else sources:
        w = np.linalg.inv(W @ U[k])[:, k]
        w = w / floor(np.sqrt(max((w.conj() @ U[k] @ w).real, 0)), fl)
        W[k] = w.conj()
    return W


def _geig(A, B):
    """eigenvalues (ascending) and vectors of A h = l B h, 2x2"""
    lam, Q = np.linalg.eigh(B)
    R = (Q / np.sqrt(lam)) @ Q.conj().T  # B^(-1/2)
    val, vec = np.linalg.eigh(R @ A @ R)
    return val, R @ vec


def ip2_pair(W, U_m, U_n, m, n, fl=None):
    """globally optimal rows m, n given all others (phases arbitrary)"""
    W = np.array(W, complex)
    P = [np.linalg.inv(W @ V)[:, [m, n]] for V in (U_m, U_n)]
    V = [p.conj().T @ u @ p for p, u in zip(P, (U_m, U_n))]
    _, vec = _geig(V[0], V[1])
    h = [vec[:, 1], vec[:, 0]]
    for i, k in enumerate((m, n)):
        hi = h[i] / floor(np.sqrt(max((h[i].conj() @ V[i] @ h[i]).real, 0)), fl)
        W[k] = (P[i] @ hi).conj()
    return W


def ip2(W, U, pairs, fl=None):
    for m, n in pairs:
        W = ip2_pair(W, U[m], U[n], m, n, fl)
    return W


def iss1(Y, phi, fl=None):
    Y = np.array(Y, complex)
    n, t = Y.shape
    for k in range(n):
        yk = Y[k].copy()
        new = Y.copy()
        for j in range(n):
            d = floor(np.mean(phi[j] * np.abs(yk) ** 2), fl)
            if j == k:
                v = 1 - 1 / np.sqrt(d)
            else:
                v = np.mean(phi[j] * Y[j] * yk.conj()) / d
            new[j] = Y[j] - v * yk
        Y = new
    return Y


def iss2_pair(Y, phi, m, n, fl=None):
    Y = np.array(Y, complex)
    N = Y.shape[0]
    m, n = m % N, n % N
    Z = Y[[m, n]]
    new = Y.copy()
    for j in range(N):
        if j in (m, n):
            continue
        # least squares of source j on the two addressed sources in the metric phi_j
        A = (phi[j] * Z) @ Z.conj().T / Z.shape[1]
        b = (phi[j] * Y[j]) @ Z.conj().T / Z.shape[1]
        new[j] = Y[j] - b @ np.linalg.inv(A) @ Z
    G = [(phi[k] * Z) @ Z.conj().T / Z.shape[1] for k in (m, n)]
    _, vec = _geig(G[0], G[1])
    for i, k in enumerate((m, n)):
        h = vec[:, i]
        h = h / floor(np.sqrt(max((h.conj() @ G[i] @ h).real, 0)), fl)
        new[k] = h.conj() @ Z
    return new


def iss2(Y, phi, pairs, fl=None):
    for m, n in pairs:
        Y = iss2_pair(Y, phi, m, n, fl)
    return Y


# ---------------------------------------------------------------- iterative projection with adjustment
def secular(lam, phi, v, z):
    return lam**2 * np.sum(phi * np.abs(v) ** 2 / (lam - phi) ** 2) - lam + z


def ipa_objective(Y, phi, T):
    """J(T) = sum_k mean_t phi_k |(T Y)_k|^2 - 2 log|det T|"""
    Z = T @ Y
    return float(np.sum(np.mean(phi * np.abs(Z) ** 2, axis=1)) - 2 * np.log(abs(np.linalg.det(T))))


def ipa_reduced(Y, phi, k):
    """objective of q (steering of the other sources), with row k optimized out; returns (J(q), build T(q))"""
    N, t = Y.shape
    U = (phi[k] * Y) @ Y.conj().T / t
    Ui = np.linalg.inv(U)
    others = [j for j in range(N) if j != k]
    a = np.array([np.mean(phi[j] * np.abs(Y[k]) ** 2) for j in others])
    b = np.array([np.mean(phi[j] * Y[j] * Y[k].conj()) for j in others])
    c = np.array([np.mean(phi[j] * np.abs(Y[j]) ** 2) for j in others])

    def J(q):  # y_j <- y_j + conj(q_j) y_k
        qt = np.zeros(N, complex)
        qt[k] = 1
        qt[others] = -q.conj()
        lin = np.sum(a * np.abs(q) ** 2 + 2 * (q * b).real + c)
        return float(lin + 1 - np.log((qt.conj() @ Ui @ qt).real))

    def T(q):
        t_ = np.eye(N, dtype=complex)
        qt = np.zeros(N, complex)
        qt[k] = 1
        qt[others] = -q.conj()
        p = Ui @ qt
        p = p / np.sqrt((p.conj() @ U @ p).real)
        t_[others, k] = q.conj()
        t_[k] = p.conj()
        return t_

    return J, T, (a, b, Ui, others)


def _largest_real_root(coef):
    r = np.roots(coef)
    r = r[np.abs(r.imag) <= 1e-6 * np.maximum(1, np.abs(r))].real
    return r.max()


def ipa_q(Y, phi, k, newton=None, normalization=True):
    """minimizer of the reduced objective; newton=None: exact (bisection), else that many safeguarded Newton steps"""
    _, _, (a, b, Ui, others) = ipa_reduced(Y, phi, k)
    # log term: Ui_kk - 2 Re(q^H g) + q^H C q, g and C from the conjugate inverse
    g = Ui[others, k].conj()
    Cm = Ui[np.ix_(others, others)].conj()
    Cg = np.linalg.solve(Cm, g)
    z = (Ui[k, k] - g.conj() @ Cg).real
    s = np.sqrt(a)
    # q = u / s - conj(b)/a ; u minimizes |u|^2 - log((u + v)^H H (u + v) + z)
    H = Cm / np.outer(s, s)
    v = -b.conj() / s - s * Cg
    if normalization:
        tr = np.trace(H).real
        H, z = H / tr, z / tr
    u = lqpqm(H, v, z, newton)
    return u / s - b.conj() / a


def lqpqm(H, v, z, newton=None):
    """min_y |y|^2 - log((y + v)^H H (y + v) + z)"""
    ph, S = np.linalg.eigh(H)
    if np.linalg.norm(v) < EPS:
        lam = max(z, ph[-1])
        return np.sqrt(max((lam - z) / ph[-1], 0)) * S[:, -1]
    vt = S.conj().T @ v
    keep = ph * np.abs(vt) ** 2 >= EPS
    p_, v_ = np.where(keep, ph, 0), np.where(keep, vt, 0)
    i = int(np.argmax(p_))
    pm = max(p_[i], EPS)
    p, w, zz = p_ / pm, v_, z / pm
    wm = w[i]
    if newton is None:
        lo = max(1.0, zz)
        hi = lo + 1.0
        while secular(hi, p, w, zz) > 0:
            hi = 2 * hi
        lo = lo + 1e-15
        for _ in range(300):
            mid = (lo + hi) / 2
            if secular(mid, p, w, zz) > 0:
                lo = mid
            else:
                hi = mid
        lam = (lo + hi) / 2
    else:
        lam = _largest_real_root([1, -(abs(wm) ** 2 + 2 + zz), 1 + 2 * zz, -zz])
        if not lam > 1:
            lam = 1 + EPS
        lam = max(lam, zz)
        for _ in range(newton):
            f = secular(lam, p, w, zz)
            df = -2 * lam * np.sum((p * np.abs(w)) ** 2 / (lam - p) ** 3) - 1
            mu = lam - f / df
            lam = mu if mu > 1 else (1 + lam) / 2
    lam = lam * pm
    if lam <= ph[-1]:  # the linear term vanishes in the leading direction: its size closes the secular equation, its phase is free
        if NOISE:
            return np.full(len(v), np.nan)
        lam = ph[-1]
        y = np.where(keep, ph * vt / np.where(keep, lam - ph, 1), 0)
        quad = np.sum(ph * np.abs(y + vt) ** 2) + z
        y[-1] += np.sqrt(max(lam - quad, 0) / lam)
        return S @ y
    return S @ (ph * vt / (lam - ph))


def ipa(Y, phi, newton=None, normalization=True):
    Y = np.array(Y, complex)
    for k in range(Y.shape[0]):
        _, T, _ = ipa_reduced(Y, phi, k)
        Y = T(ipa_q(Y, phi, k, newton, normalization)) @ Y
    return Y


# ---------------------------------------------------------------- comparison up to row phases
def align_rows(got, ref, axis=-1):
    """multiply every row of got by the unit factor that matches ref best"""
    ip = np.sum(ref * got.conj(), axis=axis, keepdims=True)
    mag = np.abs(ip)
    return got * np.where(mag > 0, ip / np.where(mag > 0, mag, 1), 1)


# ---------------------------------------------------------------- objectives and optimality
def ip_objective(W, U):
    """sum_n w_n^H U_n w_n - 2 log|det W|"""
    q = sum((W[n].conj().conj() @ U[n] @ W[n].conj()).real for n in range(len(W)))
    return float(q - 2 * np.log(abs(np.linalg.det(W))))


def vcd(W, R):
    """block coordinate descent of  sum_n sum_ij w_in^H R_ijn w_jn - 2 sum_i log|det W_i|, one row at a time.

    W: (I, N, N) rows w_in^H;  R: (I, I, N, C, C).  Every row is replaced by the better of the two stationary points.
    """
    W = np.array(W, complex)
    I, N, C = W.shape
    for i in range(I):
        for n in range(N):
            Uin = R[i, i, n]
            gamma = sum((R[i, j, n] @ W[j, n].conj() for j in range(I) if j != i), np.zeros(C, complex))
            u = np.linalg.inv(W[i])[:, n]  # |det W_i| is proportional to |w^H u|
            A = np.linalg.inv(Uin)
            eta, etah = A @ u, A @ gamma
            x, xh = (u.conj() @ A @ u).real, u.conj() @ A @ gamma
            # w = c eta - etah,  c (conj(c) x - conj(xh))... = 1  with c on the line through xh
            if abs(xh) <= 1e-14 * max(1.0, np.linalg.norm(gamma)):
                cands = [1 / np.sqrt(x)]
            else:
                ph = xh / abs(xh)
                a = abs(xh)
                # w^H u = conj(c) x - conj(xh);  stationarity c = 1 / (w^H u)
                cands = [ph * r for r in ((a + np.sqrt(a * a + 4 * x)) / (2 * x), (a - np.sqrt(a * a + 4 * x)) / (2 * x))]

            def J(c):
                w = c * eta - etah
                return (w.conj() @ Uin @ w + 2 * (w.conj() @ gamma)).real - 2 * np.log(abs(w.conj() @ u))

            c = min(cands, key=J)
            W[i, n] = (c * eta - etah).conj()
    return W


def vcd_objective(W, R):
    I, N, C = W.shape
    q = 0.0
    for n in range(N):
        for i in range(I):
            for j in range(I):
                q += (W[i, n] @ R[i, j, n] @ W[j, n].conj()).real
    return float(q - 2 * sum(np.log(abs(np.linalg.det(W[i]))) for i in range(I)))
