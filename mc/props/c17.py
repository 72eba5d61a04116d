"""Every nonsingular small-integer 2x2 filter, and filters/signals for every combination of sources x channels x bins x
frames x batch shape x field x reference channel (also negative, all) x memory layout: results are compared with
entry-by-entry reference computations (cofactor/solve based inverse row, normal equations solved frequency by frequency,
scalar least squares), together with invariance, sum and consistency laws."""

import itertools

import numpy as np

ID = "C17"
TITLE = "Rescaling functions: projection back and minimal distortion principle"
BOUNDS = {
    "quick": "all nonsingular integer 2x2 filters (-3..3, and Gaussian integers), 1-7 sources, 6 seeds, 4 batch shapes, 1-4 channels for references, 3 kinds of signals, all reference channels, a silent frame at each position",
    "thorough": "1-9 sources, 20 seeds, integer filters -4..4",
}
ASSUMPTIONS = ["filters are invertible and signals have full rank in every frequency"]


def cases(tier):
    q = tier == "quick"
    out = [{"kind": "lattice", "fld": f, "m": 3 if q else 4} for f in ("int", "real", "complex")]
    for seed in range(6 if q else 20):
        for n in range(1, 8 if q else 10):
            for fld in ("real", "complex"):
                for b in ([], [1], [3], [2, 3], [2, 1, 2]):
                    out.append({"kind": "filter", "n": n, "fld": fld, "batch": b, "seed": seed})
                for M in (1, 2, n, n + 1):
                    for F in (1, 3):
                        for T in (n, 3 * n + 1, 20):
                            for sig in ("free", "filtered", "int"):
                                c = {"kind": "data", "n": n, "M": M, "F": F, "T": T, "fld": fld, "sig": sig, "seed": seed}
                                if c not in out:
                                    out.append(c)
    return out


def case_name(c):
    return "/".join("%s" % (v,) for v in c.values()).replace(" ", "")


def inv_entry(W, c, k):
    """(W^-1)[c, k] by Cramer's rule"""
    n = W.shape[0]
    minor = np.delete(np.delete(W, k, axis=0), c, axis=1)
    return (-1) ** (c + k) * (np.linalg.det(minor) if n > 1 else 1) / np.linalg.det(W)


def layouts(x):
    return [("C", x.copy()), ("F", np.asfortranarray(x)), ("strided", np.repeat(x, 2, axis=-1)[..., ::2])]


def check_filter(ctx, key, W, seed=0):
    from ssspy.algorithm import projection_back

    n, batch = W.shape[-1], W.shape[:-2]
    exp = np.zeros((n,) + W.shape, dtype=np.result_type(W, float))
    for c in range(n):
        for i in np.ndindex(*batch):
            for k in range(n):
                exp[(c,) + i + (k,)] = inv_entry(W[i], c, k) * W[i][k]
    tol = 1e-13 * np.max(np.linalg.cond(W)) * 100 + 1e-12
    for ref in [None, "default"] + list(range(-n, n)):
        for tag, w in layouts(W):
            keep = w.copy()
            got = projection_back(w) if ref == "default" else projection_back(w, reference_id=ref)
            ctx.step()
            e = exp if ref is None else exp[0 if ref == "default" else ref]
            ctx.close(got, e, "%s:ref=%s:%s" % (key, ref, tag), rtol=tol)
            ctx.check(np.array_equal(w, keep), key + ":mutated", "argument changed")
    # prior rescaling of the sources is undone; reference images of all channels invert the filter
    d = np.random.default_rng(seed).uniform(0.3, 3, n) * (np.exp(1j * np.arange(n)) if np.iscomplexobj(W) else (-1.0) ** np.arange(n))
    ctx.close(projection_back(d[:, None] * W, reference_id=n - 1), projection_back(W, reference_id=n - 1), key + ":invariant", rtol=tol)
    full = projection_back(W, reference_id=None)
    for c in range(n):
        row = np.zeros(n)
        row[c] = 1
        ctx.close(full[c].sum(axis=-2), np.broadcast_to(row, batch + (n,)) + 0 * full[c].sum(axis=-2), key + ":sum%d" % c, rtol=tol * 10, atol=tol * 10)
    if np.abs(exp[0]).max(axis=-1).min() > 1e-6:  # otherwise a row vanishes and the rescaled filter is singular
        ctx.close(projection_back(projection_back(W)), projection_back(W), key + ":idempotent", rtol=tol * 1e3)


def expected(Y, X):
    """images of the estimated signals at every channel: joint and separate least squares"""
    (n, F, _), M = Y.shape, len(X)
    # joint least squares, frequency by frequency: X[c, f] ~ sum_k a[c, f, k] Y[k, f]
    a = np.zeros((M, F, n), dtype=np.result_type(X, Y, float))
    b = np.zeros((M, F, n), dtype=a.dtype)
    for c in range(M):
        for f in range(F):
            a[c, f] = np.linalg.lstsq(Y[:, f].T, X[c, f], rcond=None)[0]
            for k in range(n):
                b[c, f, k] = np.vdot(Y[k, f], X[c, f]) / np.vdot(Y[k, f], Y[k, f])
    return np.einsum("cfk,kft->ckft", a, Y), np.einsum("cfk,kft->ckft", b, Y), b


def run(case, ctx):
    from ssspy.algorithm import minimal_distortion_principle, projection_back

    kind = case["kind"]
    ctx.outcome(kind)
    ctx.trace()
    if kind == "lattice":
        m = case["m"]
        A = [0, 1, -1, 1j, 1 + 1j] if case["fld"] == "complex" else range(-m, m + 1)
        W = np.array(list(itertools.product(A, repeat=4))).reshape(-1, 2, 2)
        W = W[np.abs(W[:, 0, 0] * W[:, 1, 1] - W[:, 0, 1] * W[:, 1, 0]) > 0]
        W = W.astype({"int": np.int64, "real": float, "complex": complex}[case["fld"]])
        check_filter(ctx, "lattice", W)
        for w in W:
            ctx.state(w)
            ctx.step()
        return
    rng = np.random.default_rng([case["n"], case["seed"], 11])

    def draw(*shape):
        return rng.standard_normal(shape) + (1j * rng.standard_normal(shape) if case["fld"] == "complex" else 0)

    if kind == "filter":
        W = draw(*case["batch"], case["n"], case["n"])
        ctx.state(W)
        check_filter(ctx, "filter", W, case["seed"])
        check_filter(ctx, "quiet", W * 1e-6, case["seed"])
        return check_filter(ctx, "loud", W * 1e5, case["seed"])
    n, M, F, T, sig = case["n"], case["M"], case["F"], case["T"], case["sig"]
    X = draw(M, F, T)
    W = None
    if sig == "filtered":
        if M != n:
            X = draw(n, F, T)
            M = n
        W = draw(F, n, n)
        Y = (W @ X.transpose(1, 0, 2)).transpose(1, 0, 2)
    else:
        Y = draw(n, F, T)
        if sig == "int":
            Y, X = (np.rint(4 * a.real) + (1j * np.rint(4 * a.imag) if case["fld"] == "complex" else 0) for a in (Y, X))
    cond = max(np.linalg.cond(Y[:, f] @ Y[:, f].conj().T) for f in range(F))
    if cond > 1e9:
        return ctx.outcome("singular")
    ctx.state(Y, X)
    tol = 1e-14 * cond * 100 + 1e-10
    PB, MD, b = expected(Y, X)
    for name, fn, exp in (("pb", projection_back, PB), ("mdp", minimal_distortion_principle, MD)):
        for ref in [None, "default"] + list(range(-M, M)):
            for (tag, y), (_, x) in zip(layouts(Y), layouts(X)):
                ky, kx = y.copy(), x.copy()
                got = fn(y, reference=x) if ref == "default" else fn(y, reference=x, reference_id=ref)
                ctx.step()
                e = exp if ref is None else exp[0 if ref == "default" else ref]
                ctx.close(got, e, "%s:ref=%s:%s" % (name, ref, tag), rtol=tol, atol=tol)
                ctx.check(np.array_equal(y, ky) and np.array_equal(x, kx), name + ":mutated", "argument changed")
        d = rng.uniform(0.1, 5, (n, F, 1)) * (np.exp(2j * np.pi * rng.random((n, F, 1))) if case["fld"] == "complex" else rng.choice([-1, 1], (n, F, 1)))
        ctx.close(fn(d * Y, reference=X, reference_id=M - 1), fn(Y, reference=X, reference_id=M - 1), name + ":invariant", rtol=tol * 100, atol=tol * 100)
        ctx.close(fn(Y, reference=3 * X), 3 * fn(Y, reference=X), name + ":homogeneous", rtol=tol * 10, atol=tol * 10)
        for gy, gx in ((1e-6, 1), (1e5, 1), (1, 1e-6), (1, 1e5), (1e-6, 1e-6), (1e-8, 1e-8), (1e5, 1e5)):  # quiet and loud signals
            for ref in (None, 0, M - 1):
                got = fn(gy * Y, reference=gx * X, reference_id=ref) / gx
                ctx.step()
                ctx.close(got, exp if ref is None else exp[ref], "%s:gain%g,%g:ref=%s" % (name, gy, gx, ref), rtol=tol * 10, atol=tol * 10)
    if T > n + 1:  # silent frames at every position: in both, in the estimated signals, in the reference
        for t in range(T) if T <= 10 else (0, 1, T // 2, T - 2, T - 1):
            for who in (0, 1, 2):
                y, x = Y.copy(), X.copy()
                if who != 2:
                    y[..., t] = 0
                if who != 1:
                    x[..., t] = 0
                c1 = max(np.linalg.cond(y[:, f] @ y[:, f].conj().T) for f in range(F))
                if c1 > 1e9:
                    continue
                ctx.state(y, x)
                pb, md, _ = expected(y, x)
                ctx.step(2)
                for c in (None, M - 1):
                    ctx.close(projection_back(y, reference=x, reference_id=c), pb if c is None else pb[c], "pb:silent", rtol=1e-12 * c1 + 1e-10, atol=1e-12 * c1 + 1e-10)
                    ctx.close(minimal_distortion_principle(y, reference=x, reference_id=c), md if c is None else md[c], "mdp:silent", rtol=1e-9, atol=1e-10)
    if sig == "filtered":
        for c in range(M):
            S = projection_back(Y, reference=X, reference_id=c)
            ctx.close(S.sum(axis=0), X[c], "pb:sum%d" % c, rtol=tol * 100)
            Ws = projection_back(W, reference_id=c)
            tw = tol * 100 * np.max(np.linalg.cond(W))
            ctx.close((Ws @ X.transpose(1, 0, 2)).transpose(1, 0, 2), S, "pb:agree%d" % c, rtol=tw)
            # residual of each source to the reference is uncorrelated with the source
            Z = minimal_distortion_principle(Y, reference=X, reference_id=c)
            r = np.abs(np.sum((X[c] - Z) * Y.conj(), axis=-1)) / np.sum(np.abs(Y) ** 2, axis=-1)
            ctx.check((r < 1e-9 * (1 + np.abs(b[c]).max())).all(), "mdp:orthogonal", "residual correlated")
