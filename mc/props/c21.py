"""Every small integer 2x2 matrix, and every combination of spectrum x basis x field x batch shape x scale for sizes 1-5,
is pushed through each matrix function; the results are substituted into the defining equations (and, where the equations
determine the result uniquely, into sign and order conditions); batched calls equal elementwise ones."""

import itertools

import numpy as np

ID = "C21"
TITLE = "Matrix functions satisfy their defining equations"
BOUNDS = {
    "quick": "all integer 2x2 Hermitian pairs (entries -3..3), sizes 1-6, 7 spectra, 4 fields, 5 batch shapes, 3 scales",
    "thorough": "sizes 1-9, 24 spectra, entries -4..4",
}
ASSUMPTIONS = ["matrices are Hermitian (and the second matrix positive definite) up to rounding; condition numbers up to 1e6"]
SPECTRA = ["ones", "linear", "wide", "double", "tiny", "random", "random2"]
BATCH = [(), (1,), (3,), (2, 3), (2, 1, 2)]
FIELDS = ["real", "complex", "mixed", "mixed2"]


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(1, 7 if q else 10):
        for sp in SPECTRA if q else SPECTRA + ["random%d" % k for k in range(3, 20)]:
            for fld in FIELDS:
                for b in BATCH:
                    for sc in (1, 1e-6, 1e6):
                        out.append({"kind": "family", "n": n, "sp": sp, "fld": fld, "batch": b, "sc": sc})
    m = 3 if q else 4
    for fn in ("eigh", "inv2", "sqrt", "gmean", "quadratic", "solve"):
        for fld in ("int", "real", "complex"):
            out.append({"kind": "lattice", "fn": fn, "fld": fld, "m": m})
    out.append({"kind": "invalid"})
    return out


def case_name(c):
    if c["kind"] == "family":
        return "family/%d/%s/%s/%s/%g" % (c["n"], c["sp"], c["fld"], "x".join(map(str, c["batch"])), c["sc"])
    if c["kind"] == "lattice":
        return "lattice/%s/%s" % (c["fn"], c["fld"])
    return c["kind"]


def herm(A):
    return np.swapaxes(A, -1, -2).conj()


def rel(ctx, key, got, exp, scale, tol=1e-9):
    """scale: array (*batch) of magnitudes"""
    if not ctx.check(np.shape(got) == np.shape(exp), key, lambda: "shape %s, expected %s" % (np.shape(got), np.shape(exp))):
        return
    err = np.abs(got - exp) / np.reshape(scale, np.shape(scale) + (1,) * (np.ndim(got) - np.ndim(scale)))
    ctx.check(np.isfinite(got).all() and (err <= tol).all(), key, lambda: "relative residual %g" % np.max(err))


def norm(A):
    return np.maximum(np.linalg.norm(A, axis=(-2, -1)), 1e-60)


def check_eig(ctx, key, fn, A, B, typ):
    keep = A.copy(), None if B is None else B.copy()
    lam, Z = fn(A) if B is None else (fn(A, B) if typ is None else fn(A, B, type=typ))
    t = typ or 1
    n = A.shape[-1]
    ctx.step()
    ctx.check(np.array_equal(A, keep[0]) and (B is None or np.array_equal(B, keep[1])), key + ":mutated", "argument changed")
    bs = np.broadcast_shapes(A.shape[:-2], () if B is None else B.shape[:-2])
    ctx.check(lam.shape == bs + (n,) and Z.shape == bs + (n, n), key + ":shape", lambda: "%s %s" % (lam.shape, Z.shape))
    ctx.check(np.isrealobj(lam), key + ":real", "complex eigenvalues")
    ctx.check((np.diff(lam, axis=-1) >= -1e-9 * norm(lam[..., None])[..., None]).all(), key + ":ascending", lambda: str(lam))
    I = np.broadcast_to(np.eye(n), Z.shape)
    if B is None:
        rel(ctx, key + ":equation", A @ Z, Z * lam[..., None, :], norm(A))
        rel(ctx, key + ":normalization", herm(Z) @ Z, I, np.ones(bs))
        return
    cond = np.linalg.cond(B)
    tol = 1e-13 * np.max(cond) * n * 10 + 1e-10
    lhs = {1: A @ Z, 2: A @ B @ Z, 3: B @ A @ Z}[t]
    rhs = (B @ Z if t == 1 else Z) * lam[..., None, :]
    sc = {1: norm(A), 2: norm(A) * norm(B), 3: norm(A) * norm(B)}[t] * norm(Z)
    rel(ctx, key + ":equation", lhs, rhs, sc, tol)
    M = B if t < 3 else np.linalg.inv(B)
    rel(ctx, key + ":normalization", herm(Z) @ M @ Z, I, np.ones(bs), tol)


def check_sqrt(ctx, key, X, singular=False):
    from ssspy.linalg import invsqrtmh, sqrtmh

    keep = X.copy()
    R = sqrtmh(X)
    ctx.step()
    cond = 1 if singular else np.max(np.linalg.cond(X))
    rel(ctx, key + ":sqrt", R @ R, X, norm(X))
    rel(ctx, key + ":sqrt:hermitian", R, herm(R), norm(R))
    if np.isfinite(R).all():
        ctx.check((np.linalg.eigvalsh((R + herm(R)) / 2) >= -1e-7 * norm(R)[..., None]).all(), key + ":sqrt:psd", "negative eigenvalue")
    ctx.check(np.iscomplexobj(R) == np.iscomplexobj(X), key + ":sqrt:dtype", "dtype %s" % R.dtype)
    if not singular:
        for tag, fl in (("", None), (":floored", lambda v: np.maximum(v, 1e-30)), (":explicit", lambda v: v)):
            Ri = invsqrtmh(X) if fl is None else invsqrtmh(X, flooring_fn=fl)
            ctx.step()
            I = np.broadcast_to(np.eye(X.shape[-1]), X.shape)
            rel(ctx, key + ":invsqrt" + tag, Ri @ X @ Ri, I, np.ones(X.shape[:-2]), 1e-13 * cond * 100 + 1e-10)
            rel(ctx, key + ":invsqrt:hermitian" + tag, Ri, herm(Ri), norm(Ri))
            if np.isfinite(Ri).all():
                ctx.check((np.linalg.eigvalsh((Ri + herm(Ri)) / 2) > 0).all(), key + ":invsqrt:pd" + tag, "not positive")
    # a flooring function bounds the eigenvalues of the square root from below
    lam = np.linalg.eigvalsh(X)
    f = float(np.sqrt(max(np.max(lam), 1e-300))) / 2
    Rf = invsqrtmh(X + 0, flooring_fn=lambda v: np.maximum(np.nan_to_num(v), f))
    got = np.linalg.eigvalsh((Rf + herm(Rf)) / 2)
    exp = np.sort(1 / np.maximum(np.sqrt(np.maximum(lam, 0)), f), axis=-1)
    rel(ctx, key + ":invsqrt:floor", got, exp, np.max(exp, axis=-1), 1e-6)
    ctx.check(np.array_equal(X, keep), key + ":mutated", "argument changed")


def check_gmean(ctx, key, A, B):
    from ssspy.linalg import gmeanmh

    keep = A.copy(), B.copy()
    cond = max(np.max(np.linalg.cond(A)), np.max(np.linalg.cond(B)))
    inv = np.linalg.inv
    for t in (None, 1, 2, 3):
        G = gmeanmh(A, B) if t is None else gmeanmh(A, B, type=t)
        ctx.step()
        P = inv(A) if t == 2 else A
        Q = inv(B) if t == 3 else B
        k = "%s:gmean%s" % (key, t)
        tol = 1e-14 * cond**1.5 * 1000 + 1e-9
        rel(ctx, k, G @ inv(P) @ G, np.broadcast_to(Q, G.shape), np.broadcast_to(norm(Q), G.shape[:-2]), tol)
        rel(ctx, k + ":hermitian", G, herm(G), norm(G), tol)
        ctx.check((np.linalg.eigvalsh((G + herm(G)) / 2) > 0).all(), k + ":positive", "not positive definite")
    ctx.check(np.array_equal(A, keep[0]) and np.array_equal(B, keep[1]), key + ":mutated", "argument changed")


def check_inv2(ctx, key, X):
    from ssspy.linalg import inv2

    keep = X.copy()
    Y = inv2(X)
    ctx.step()
    I = np.broadcast_to(np.eye(2), X.shape)
    c = np.linalg.cond(X)
    rel(ctx, key + ":left", Y @ X, I, c)
    rel(ctx, key + ":right", X @ Y, I, c)
    ctx.check(np.array_equal(X, keep), key + ":mutated", "argument changed")


def check_quad(ctx, key, x, A):
    from ssspy.linalg import quadratic

    keep = x.copy(), A.copy()
    y = quadratic(x, A)
    ctx.step()
    bs = np.broadcast_shapes(x.shape[:-1], A.shape[:-2])
    xb, Ab = np.broadcast_to(x, bs + x.shape[-1:]), np.broadcast_to(A, bs + A.shape[-2:])
    exp = np.zeros(bs, dtype=np.result_type(x, A))
    for i in np.ndindex(*bs):
        exp[i] = sum(np.conj(xb[i][a]) * Ab[i][a, b] * xb[i][b] for a in range(x.shape[-1]) for b in range(x.shape[-1]))
    sc = np.broadcast_to(norm(A) * np.maximum(np.linalg.norm(x, axis=-1), 1e-60) ** 2, bs)
    rel(ctx, key, y, exp, sc, 1e-10)
    ctx.check(np.array_equal(x, keep[0]) and np.array_equal(A, keep[1]), key + ":mutated", "argument changed")


def check_solve(ctx, key, A, b, vec):
    from ssspy.linalg import solve

    keep = A.copy(), b.copy()
    x = solve(A, b)
    ctx.step()
    ctx.check(x.shape == b.shape, key + ":shape", lambda: "%s" % (x.shape,))
    if x.shape == b.shape:
        bs = A.shape[:-2]
        for i in np.ndindex(*bs):
            n = A.shape[-1]
            cols = [(x[i], b[i])] if vec else [(x[i][:, k], b[i][:, k]) for k in range(b.shape[-1])]
            for xs, bb in cols:
                r = np.array([sum(A[i][p, q] * xs[q] for q in range(n)) for p in range(n)])
                ctx.check(np.abs(r - bb).max() <= 1e-10 * max(norm(A[i]) * np.linalg.norm(xs), 1e-300) * 10, key, lambda: "residual %g" % np.abs(r - bb).max())
    ctx.check(np.array_equal(A, keep[0]) and np.array_equal(b, keep[1]), key + ":mutated", "argument changed")


def pd(n, sp, batch, cplx, rng):
    m = int(np.prod(batch)) if batch else 1
    out = []
    for k in range(m):
        Q = rng.standard_normal((n, n)) + (1j * rng.standard_normal((n, n)) if cplx else 0)
        Q = np.linalg.qr(Q)[0]
        lam = {"ones": np.ones(n), "linear": 1.0 + np.arange(n), "wide": 10.0 ** np.linspace(-2, 2, n), "double": np.array([2.0, 2.0, 5.0, 5.0, 7, 7] * 2)[:n],
               "tiny": np.r_[1e-5, np.ones(n - 1)]}.get(sp)
        if lam is None:
            lam = rng.uniform(0.1, 3, n)
        A = (Q * lam) @ Q.conj().T
        out.append((A + A.conj().T) / 2)
    return np.reshape(out, tuple(batch) + (n, n))


def run(case, ctx):
    from ssspy.linalg import eigh, eigh2

    if case["kind"] == "family":
        n, batch = case["n"], tuple(case["batch"])
        rng = np.random.default_rng([n, SPECTRA.index(case["sp"]) if case["sp"] in SPECTRA else 50 + int(case["sp"][6:])])
        ca, cb = {"real": (0, 0), "complex": (1, 1), "mixed": (1, 0), "mixed2": (0, 1)}[case["fld"]]
        A = pd(n, case["sp"], batch, ca, rng) * case["sc"]
        B = pd(n, "random", batch, cb, rng)
        Ind = A - 1.5 * np.mean(np.linalg.eigvalsh(A)) * np.eye(n)  # indefinite first matrix
        for tag, M in (("pd", A), ("indefinite", Ind)):
            for fn in (eigh, eigh2) if n == 2 else (eigh,):
                k = "%s:%s" % (fn.__name__, tag)
                check_eig(ctx, k, fn, M, None, None)
                for t in (None, 1, 2, 3):
                    check_eig(ctx, "%s:%s" % (k, t), fn, M, B, t)
        if case["sp"] != "tiny" or case["sc"] == 1:
            check_sqrt(ctx, "pd", A)
        x = rng.standard_normal((n, max(n - 1, 1))) + (1j * rng.standard_normal((n, max(n - 1, 1))) if ca else 0)
        S = x @ x.conj().T if n > 1 else np.zeros((1, 1))
        check_sqrt(ctx, "psd", np.broadcast_to(S, batch + (n, n)) * case["sc"], singular=True)
        check_gmean(ctx, "pd", A, B)
        check_gmean(ctx, "swapped", B, A)
        if n == 2:
            G = rng.standard_normal(batch + (2, 2)) + (1j * rng.standard_normal(batch + (2, 2)) if ca else 0)
            check_inv2(ctx, "inv2", G * case["sc"])
        G = rng.standard_normal(batch + (n, n)) + (1j * rng.standard_normal(batch + (n, n)) if ca else 0)
        v = rng.standard_normal(batch + (n,)) + (1j * rng.standard_normal(batch + (n,)) if cb else 0)
        check_quad(ctx, "quadratic", v * case["sc"], G)
        check_quad(ctx, "quadratic:hermitian", v, A)
        if len(batch) > 1:
            check_quad(ctx, "quadratic:broadcast", v, G[(0,) * len(batch)])
        check_solve(ctx, "solve:vector", G * case["sc"], v, True)
        for k in (1, n, 3):
            b = rng.standard_normal(batch + (n, k)) + (1j * rng.standard_normal(batch + (n, k)) if cb else 0)
            check_solve(ctx, "solve:matrix%d" % k, G, b, False)
        # batched = elementwise
        if batch:
            from ssspy.linalg import gmeanmh, sqrtmh

            i = tuple(s - 1 for s in batch)
            ctx.close(eigh(A, B, type=2)[0][i], eigh(A[i], B[i], type=2)[0], "elementwise:eigh", rtol=1e-9)
            ctx.close(sqrtmh(A)[i], sqrtmh(A[i]), "elementwise:sqrt", rtol=1e-9)
            ctx.close(gmeanmh(A, B)[i], gmeanmh(A[i], B[i]), "elementwise:gmean", rtol=1e-8)
        ctx.state(A, B)
        ctx.trace()
        return ctx.outcome("family")
    if case["kind"] == "invalid":
        from ssspy.linalg import gmeanmh

        B = np.array([[2.0, 0.5], [0.5, 1.0]])
        for bad in (0, 4, "1", -1):
            for fn in (eigh, eigh2, gmeanmh):
                try:
                    fn(B, B, type=bad)
                    ctx.fail("accepted:%s:%s" % (fn.__name__, bad), "invalid type accepted")
                except ValueError:
                    ctx.step()
        for fn in (eigh2,):
            try:
                fn(np.eye(3))
                ctx.fail("accepted:shape", "3x3 matrix accepted by eigh2")
            except (AssertionError, ValueError):
                ctx.step()
        ctx.state("invalid")
        ctx.trace()
        return ctx.outcome("rejected")
    m, fld = case["m"], case["fld"]
    R = range(-m, m + 1)
    C = [0, 1, 1j, 1 - 1j, -2] if fld == "complex" else list(R)
    dt = {"int": np.int64, "real": float, "complex": complex}[fld]
    H = np.array([[[a, c], [np.conj(c), d]] for a in R for d in R for c in C]).astype(dt)
    det = (H[:, 0, 0] * H[:, 1, 1] - H[:, 0, 1] * H[:, 1, 0]).real
    tr = (H[:, 0, 0] + H[:, 1, 1]).real
    PD, PSD = H[(det > 0) & (tr > 0)], H[(det >= 0) & (tr >= 0) & (H[:, 0, 0].real >= 0) & (H[:, 1, 1].real >= 0)]
    if case["fn"] == "eigh":
        for fn in (eigh, eigh2):
            check_eig(ctx, fn.__name__, fn, H, None, None)
            A, B = np.repeat(H, len(PD), axis=0), np.tile(PD, (len(H), 1, 1))
            for t in (None, 1, 2, 3):
                check_eig(ctx, "%s:%s" % (fn.__name__, t), fn, A, B, t)
        ctx.step(len(A))
        for a in H:
            ctx.state(a)
    elif case["fn"] == "inv2":
        X = np.array(list(itertools.product(C, repeat=4))).reshape(-1, 2, 2).astype(dt)
        d = X[:, 0, 0] * X[:, 1, 1] - X[:, 0, 1] * X[:, 1, 0]
        X = X[d != 0]
        check_inv2(ctx, "inv2", X)
        check_inv2(ctx, "inv2:T", np.swapaxes(X, 1, 2))
        ctx.step(len(X))
        for a in X:
            ctx.state(a)
    elif case["fn"] == "sqrt":
        check_sqrt(ctx, "pd", PD)
        check_sqrt(ctx, "psd", PSD, singular=True)
        for a in PSD:
            ctx.step()
            ctx.state(a)
            check_sqrt(ctx, "psd1", a, singular=True)
    elif case["fn"] == "gmean":
        check_gmean(ctx, "pairs", np.repeat(PD, len(PD), axis=0), np.tile(PD, (len(PD), 1, 1)))
        for a in PD:
            ctx.state(a)
        ctx.step(len(PD) ** 2)
    elif case["fn"] == "quadratic":
        v = np.array(list(itertools.product(C, repeat=2))).astype(dt)
        G = np.array(list(itertools.product(C[:4], repeat=4))).reshape(-1, 2, 2).astype(dt)
        check_quad(ctx, "quadratic", v[:, None], G[None])
        ctx.step(len(v) * len(G))
        for a in G:
            ctx.state(a)
    else:
        G = np.array(list(itertools.product(C[:4], repeat=4))).reshape(-1, 2, 2).astype(dt)
        d = G[:, 0, 0] * G[:, 1, 1] - G[:, 0, 1] * G[:, 1, 0]
        G = G[d != 0]
        for b in ([1, 0], [0, 1], [2, -1]):
            check_solve(ctx, "vector", G, np.tile(np.array(b).astype(dt), (len(G), 1)), True)
            check_solve(ctx, "matrix", G, np.tile(np.array([b, b[::-1]]).astype(dt), (len(G), 1, 1)), False)
            check_solve(ctx, "single", G[0], np.array(b).astype(dt), True)
        ctx.step(len(G))
        for a in G:
            ctx.state(a)
    ctx.trace()
    ctx.outcome(case["fn"])
