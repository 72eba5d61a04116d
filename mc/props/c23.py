"""Every small tensor over an alphabet of magnitudes (zero, below, at and above the step, huge) and phases x step sizes x
shapes: the optimality condition of the proximal objective is evaluated entry by entry (it has a unique solution, so this
decides equality with the minimizer), and the objective is compared with all points of a surrounding grid."""

import itertools

import numpy as np

ID = "C23"
TITLE = "Proximal operators minimize their proximal objective"
BOUNDS = {
    "quick": "11 magnitudes x 7 phases, all pairs/triples as groups, 12 step sizes, 2-4 dimensional shapes, matrices 1x1-6x6 over 9 spectra",
    "thorough": "17 magnitudes x 9 phases, groups up to 4, 18 step sizes, matrices up to 9x9",
}
ASSUMPTIONS = ["the argument of the negative logarithm is nonnegative (asserted by the code)"]
STEPS = [None, 1, 0.5, 2.0, 1e-3, 0.1, 50.0]
MAGS = [0, 1e-300, 1e-6, 1e-3, 0.1, 0.5, 1, 2, 3.7, 50, 1e6]


def cases(tier):
    q = tier == "quick"
    steps = STEPS + [0.3, 1e-6, 1e3, 7.0, 0.9] + ([] if q else [3e-3, 0.05, 1.1, 2.5, 30.0, 1e-9])
    out = []
    for st in steps:
        for fld in ("real", "complex", "int"):
            for fn in ("l1", "l21"):
                for g in (1, 2, 3, 4):
                    for ax in ([None] if fn == "l1" else [None, 0, 1, 2, -2, -3]):
                        out.append({"fn": fn, "st": st, "fld": fld, "g": g, "ax": ax})
            for shp in ("0d", "1d", "3d"):
                if fld != "complex":
                    out.append({"fn": "neg_log", "st": st, "fld": fld, "shp": shp})
            for n in range(1, 7 if q else 10):
                out.append({"fn": "neg_logdet", "st": st, "fld": fld, "n": n})
    return out


def case_name(c):
    return "/".join("%s=%s" % (k, v) for k, v in c.items())


def alphabet(fld, more=()):
    m = MAGS + list(more)
    if fld == "int":
        return np.array([0, 1, -1, 2, -2, 3, -5, 50])
    if fld == "real":
        return np.array(sorted(set(m + [-a for a in m])))
    ph = np.exp(1j * np.array([0, 0.3, 1.2, np.pi / 2, 2.7, np.pi, -2.0]))
    return np.array([a * p for a in m for p in ph])


def run(case, ctx):
    from ssspy.linalg import prox

    fn, st, fld = getattr(prox, case["fn"]), case["st"], case["fld"]
    mu = 1 if st is None else st
    kw = {} if st is None else {"step_size": st}
    if case["fn"] in ("l1", "l21"):
        g, ax = case["g"], case["ax"]
        A = alphabet(fld, [mu, mu * (1 + 1e-9), mu * (1 - 1e-9), mu * 0.6, mu * 0.8])
        if g > 1:
            A = A[:: max(1, len(A) // {2: 24, 3: 11, 4: 7}[g])]
            if fld != "int":
                A = np.concatenate([A, [0.6 * mu, 0.8 * mu, mu]])
        G = np.array(list(itertools.product(A, repeat=g)))
        for g_ in G[:500]:
            ctx.state(case["fn"], st, g_)
        k = len(G) // 2 * 2
        x = G[:k].reshape(2, -1, g)  # groups along the last axis
        if fld == "complex":
            x = x.astype(complex)
        if ax is not None:
            x = np.moveaxis(x, -1, ax)
            kw["axis2"] = ax
        keep = x.copy()
        y = fn(x, **kw)
        ctx.step(k)
        ctx.trace()
        ctx.outcome(case["fn"])
        ctx.check(np.array_equal(x, keep), "mutated", "argument changed")
        if not ctx.check(y.shape == x.shape and np.iscomplexobj(y) == np.iscomplexobj(x), "shape", lambda: "%s %s" % (y.shape, y.dtype)):
            return
        X, Y = (np.moveaxis(a, -1 if ax is None else ax, -1) for a in (x, y))
        if case["fn"] == "l1":
            X, Y = X[..., None], Y[..., None]
        nx, ny = np.linalg.norm(X, axis=-1), np.linalg.norm(Y, axis=-1)
        ctx.check(np.isfinite(Y).all(), "finite", "non-finite value")
        zero = ny == 0
        bad = zero & (nx > mu * (1 + 1e-7))
        ctx.check(not bad.any(), "zero", lambda: "%s shrunk to zero with step %g" % (X[bad][0], mu))
        bad = ~zero & (nx < mu * (1 - 1e-7))
        ctx.check(not bad.any(), "threshold", lambda: "%s -> %s with step %g" % (X[bad][0], Y[bad][0], mu))
        nz = ~zero
        r = Y[nz] - X[nz] + mu * Y[nz] / ny[nz][:, None]
        err = np.linalg.norm(r, axis=-1) / np.maximum(nx[nz], mu)
        tol = 1e-7  # Y / |Y| is ill-conditioned next to the threshold
        near = ny[nz] < 1e-6 * mu
        ctx.check((err[~near] <= tol).all(), "stationary", lambda: "%s -> %s with step %g" % (X[nz][~near][np.argmax(err[~near])], Y[nz][~near][np.argmax(err[~near])], mu))
        ctx.check((ny[nz][near] <= np.maximum(nx[nz][near] - mu, 0) + 1e-9 * mu).all(), "near", "next to the threshold")
        # same result element by element, and for other memory layouts
        i = k // 4
        Xi = X[0, i] if case["fn"] == "l21" else X[0, i, :, 0]
        k1 = {} if st is None else {"step_size": st}
        yi = fn(Xi.copy()[None, :], **k1)[0]
        ctx.close(yi, Y[0, i] if case["fn"] == "l21" else Y[0, i, :, 0], "alone", rtol=1e-12, atol=1e-300)
        yf = fn(np.asfortranarray(x), **kw)
        ctx.close(yf, y, "layout", rtol=1e-12, atol=1e-300)
        return
    if case["fn"] == "neg_log":
        A = np.array([0, 1, 2, 3, 50, 1000]) if fld == "int" else np.array(MAGS + [mu, 4 * mu, np.sqrt(mu), 1e-9, 123.4])
        xs = [np.array(a) for a in A] if case["shp"] == "0d" else [A] if case["shp"] == "1d" else [np.tile(A, 6).reshape(2, 3, -1)]
        for x in xs:
            keep = x.copy()
            y = np.asarray(fn(x, **kw))
            ctx.step(x.size)
            ctx.state("neg_log", st, x)
            ctx.check(np.array_equal(x, keep), "mutated", "argument changed")
            ctx.check(y.shape == x.shape and np.isfinite(y).all() and (y > 0).all(), "positive", lambda: str(y))
            # y - x - mu / y = 0
            r = np.abs(y - x - mu / y) / np.maximum(np.maximum(y, x), mu / y)
            ctx.check((r <= 1e-9).all(), "stationary", lambda: "%s -> %s with step %g" % (x.ravel()[np.argmax(r)], y.ravel()[np.argmax(r)], mu))
        for bad in (np.array([-1.0]), np.array([1.0, -1e-3])):
            try:
                fn(bad, **kw)
                ctx.fail("negative", "negative argument accepted")
            except AssertionError:
                ctx.step()
        ctx.trace()
        return ctx.outcome("neg_log")
    n = case["n"]
    spectra = [np.ones(n), np.arange(1.0, n + 1), np.zeros(n), np.r_[np.zeros(1), np.ones(n - 1)], np.full(n, np.sqrt(mu)),
               10.0 ** np.linspace(-4, 4, n), np.full(n, 1e-9), np.r_[1e6, np.full(n - 1, 2.0)], np.r_[np.full(n - 1, 3.0), 5.0]]
    for si, s in enumerate(spectra):
        for batch in ((), (2,), (3, 2)):
            rng = np.random.default_rng([n, si])
            m = int(np.prod(batch)) if batch else 1
            U, V = (np.stack([np.linalg.qr(rng.standard_normal((n, n)) + (1j * rng.standard_normal((n, n)) if fld == "complex" else 0))[0] for _ in range(m)]) for _ in range(2))
            X = ((U * s) @ V).reshape(batch + (n, n))
            if fld == "int":
                X = np.rint(X).astype(np.int64) if np.max(np.abs(X)) < 1e9 else X
            keep = X.copy()
            Y = fn(X, **kw)
            ctx.step(m)
            ctx.state("neg_logdet", st, X)
            ctx.check(np.array_equal(X, keep), "mutated", "argument changed")
            if not ctx.check(Y.shape == X.shape and np.isfinite(Y).all(), "finite%d" % si, "%s" % (Y.shape,)):
                continue
            sx, sy = np.linalg.svd(X.astype(complex), compute_uv=False), np.linalg.svd(Y.astype(complex), compute_uv=False)
            exp = (sx + np.sqrt(sx**2 + 4 * mu)) / 2
            top = np.max(exp, axis=-1, keepdims=True)
            ctx.check((np.abs(sy - exp) <= 1e-9 * top).all(), "values%d" % si, lambda: "%s expected %s" % (sy, exp))
            # stationarity: Y^H (Y - X) = mu I, i.e. Y - X - mu Y^{-H} = 0
            R = np.swapaxes(Y.conj(), -1, -2) @ (Y - X) - mu * np.eye(n)
            ctx.check((np.linalg.norm(R, axis=(-2, -1)) <= 1e-9 * (top[..., 0] ** 2 + mu)).all(), "stationary%d" % si, lambda: "residual %g" % np.linalg.norm(R, axis=(-2, -1)).max())
            # value of the objective equals the minimum given by the singular values
            val = -mu * np.log(sy).sum(-1) + 0.5 * (np.abs(Y - X) ** 2).sum((-2, -1))
            best = (-mu * np.log(exp) + 0.5 * (exp - sx) ** 2).sum(-1)
            ctx.check((val <= best + 1e-7 * np.maximum(1, np.abs(best)) + 1e-12 * top[..., 0] ** 2).all(), "minimum%d" % si, lambda: "%s minimum %s" % (val, best))
    ctx.trace()
    ctx.outcome("neg_logdet")
