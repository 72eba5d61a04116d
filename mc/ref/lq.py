"""Reference for the log-quadratically penalized quadratic minimization
min_q q^H q - log((q+v)^H H (q+v) + z), by enumeration of all stationary points."""

import numpy as np


def objective(q, H, v, z):
    w = q + v
    a = np.vdot(w, H @ w).real + z
    return (np.vdot(q, q).real - np.log(a)) if a > 0 else np.inf


def gradient(q, H, v, z):
    w = q + v
    return q - H @ w / (np.vdot(w, H @ w).real + z)


def minimum(phi, v, z, tol=0.0):
    """smallest value over all stationary points; phi: eigenvalues, v: coefficients in the eigenbasis.

    Stationary points satisfy (lam - phi_j) q_j = phi_j v_j with lam the value of the quadratic function: either lam is a
    root of the secular equation, or lam = phi_k for a component k that v does not excite and q_k is free.
    """
    phi, v = np.asarray(phi, float), np.asarray(v, complex)
    n = len(phi)
    D = np.diag(phi)
    act = [k for k in range(n) if phi[k] * abs(v[k]) ** 2 > tol]
    groups = {}  # equal eigenvalues share one pole
    for k in act:
        groups.setdefault(phi[k], 0.0)
        groups[phi[k]] += phi[k] * abs(v[k]) ** 2
    poles = sorted(groups)
    num, den = np.poly1d([0.0]), np.poly1d([1.0])
    for p in poles:
        t = np.poly1d([groups[p]])
        for r in poles:
            if r != p:
                t = t * np.poly1d([1, -r]) ** 2
        num = num + t
        den = den * np.poly1d([1, -p]) ** 2
    poly = np.poly1d([1, 0, 0]) * num - np.poly1d([1, -z]) * den
    f = lambda l: l * l * sum(groups[p] / (l - p) ** 2 for p in poles) - l + z
    lams = [r.real for r in poly.roots if r.real > 0]
    # the largest root by bisection (f is convex and decreasing beyond the largest pole)
    top = poles[-1] if poles else 0.0
    lo, hi = top, max(top, z, 1e-300) * 2 + sum(groups.values()) + 1
    while f(hi) > 0:
        hi *= 2
    for _ in range(300):
        mid = (lo + hi) / 2
        if mid <= lo or mid >= hi:
            break
        if mid == top or f(mid) > 0:
            lo = mid
        else:
            hi = mid
    lams.append(hi)
    best = (objective(np.zeros(n), D, v, z), np.zeros(n, complex))
    for l in lams:
        if any(l == p for p in poles):
            continue
        q = np.array([phi[k] * v[k] / (l - phi[k]) if k in act else 0 for k in range(n)], complex)
        best = min(best, (objective(q, D, v, z), q), key=lambda t: t[0])
    for k in range(n):
        if k in act or phi[k] <= 0 or phi[k] in groups:
            continue
        l = phi[k]
        q = np.array([phi[j] * v[j] / (l - phi[j]) if j in act else 0 for j in range(n)], complex)
        free = (l - z - sum(phi[j] * abs(q[j] + v[j]) ** 2 for j in act)) / phi[k]
        if free >= 0:
            q[k] = np.sqrt(free)
            best = min(best, (objective(q, D, v, z), q), key=lambda t: t[0])
    return best
