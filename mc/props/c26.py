"""Every layout (2D real, 3D complex, 3D real batch, 4D complex batch) x channels x bins x frames x spectrum x order x
memory layout: second-order statistics of the output, its order, power, and the linear map from input to output (recovered
by least squares and applied back) are checked against the definitions; unsupported dimensions/fields are rejected."""

import itertools

import numpy as np

ID = "C26"
TITLE = "PCA and whitening decorrelate"
BOUNDS = {
    "quick": "4 layouts, 1-7 channels, 4 bins/batch sizes, 4 lengths, 9 spectra, both orders, 3 memory layouts",
    "thorough": "1-10 channels, 5 bins/batch sizes, 5 lengths, 9 spectra",
}
ASSUMPTIONS = ["channel covariances have full rank (condition up to 1e8)"]


def cases(tier):
    q = tier == "quick"
    out = []
    for lay in ("2r", "3c", "3r", "4c"):
        for n in range(1, 8 if q else 11):
            for F in (1, 2, 3, 7) if q else (1, 2, 3, 7, 16):
                for T in (n, n + 1, 3 * n + 2, 40) if q else (n, n + 1, 3 * n + 2, 40, 101):
                    for sp in ("equal", "wide", "random", "quiet", "loud", "mean", "int", "ordered", "reverse"):
                        if lay == "2r" and F > 1:
                            continue
                        out.append({"lay": lay, "n": n, "F": F, "T": T, "sp": sp})
    out.append({"lay": "invalid"})
    return out


def case_name(c):
    return "/".join(str(v) for v in c.values())


def signal(c):
    rng = np.random.default_rng([c["n"], c["F"], c["T"], 7])
    n, F, T, lay = c["n"], c["F"], c["T"], c["lay"]
    B = 1 if lay in ("2r", "3c") else 3
    Fb = F if lay in ("3c", "4c") else 1
    if lay == "3r":
        B = F
    cplx = lay in ("3c", "4c")
    shp = (B, Fb, n, T)
    S = rng.standard_normal(shp) + (1j * rng.standard_normal(shp) if cplx else 0)
    d = {"wide": 10.0 ** np.linspace(-2, 2, n), "ordered": 1.0 + np.arange(n), "reverse": n - np.arange(n, dtype=float)}.get(c["sp"], np.ones(n))
    A = rng.standard_normal((B, Fb, n, n)) + (1j * rng.standard_normal((B, Fb, n, n)) if cplx else 0)
    A = np.linalg.qr(A)[0] if c["sp"] != "random" else A
    X = A @ (d[:, None] * S)
    if c["sp"] == "mean":
        X = X + 5
    if c["sp"] == "int":
        X = np.rint(20 * X.real) + (1j * np.rint(20 * X.imag) if cplx else 0)
        if not cplx:
            X = X.astype(np.int64)
    X = X * {"quiet": 1e-6, "loud": 1e6}.get(c["sp"], 1)
    # -> documented layout
    if lay == "2r":
        return X[0, 0], lambda a: a[None, None]
    if lay == "3c":
        return np.ascontiguousarray(X[0].transpose(1, 0, 2)), lambda a: a.transpose(1, 0, 2)[None]
    if lay == "3r":
        return np.ascontiguousarray(X[:, 0]), lambda a: a[:, None]
    return np.ascontiguousarray(X.transpose(0, 2, 1, 3)), lambda a: a.transpose(0, 2, 1, 3)


def run(case, ctx):
    from ssspy.transform import pca, whiten

    ctx.outcome(case["lay"])
    ctx.trace()
    if case["lay"] == "invalid":
        r = np.random.default_rng(0)
        for shp, c in itertools.product(((5,), (2, 5), (2, 3, 5), (2, 2, 3, 5), (1, 2, 2, 3, 5)), (False, True)):
            if (len(shp), c) in ((2, False), (3, True), (3, False), (4, True)):
                continue
            x = r.standard_normal(shp) + (1j * r.standard_normal(shp) if c else 0)
            for fn in (pca, whiten):
                ctx.step()
                ctx.state(fn.__name__, shp, c)
                try:
                    fn(x)
                    ctx.fail("accepted:%s:%s:%s" % (fn.__name__, len(shp), c), "unsupported input accepted")
                except ValueError:
                    pass
        return
    X, norm = signal(case)
    n, T = case["n"], case["T"]
    cond = np.linalg.cond(norm(X) @ np.swapaxes(norm(X).conj(), -1, -2))
    if cond.max() > 1e8:
        return ctx.outcome("ill-conditioned")
    ctx.state(X)
    tol = 1e-14 * cond.max() * 20 + 1e-9
    for layout in ("C", "F", "strided"):
        x = X.copy() if layout == "C" else np.asfortranarray(X) if layout == "F" else np.repeat(X, 2, axis=-1)[..., ::2]
        for name, fn, kw in (("pca", pca, {}), ("pca", pca, {"ascend": True}), ("pca", pca, {"ascend": False}), ("whiten", whiten, {})):
            keep = x.copy()
            y = fn(x, **kw)
            ctx.step()
            k = "%s:%s:%s" % (name, kw.get("ascend"), layout)
            ctx.check(np.array_equal(x, keep), k + ":mutated", "argument changed")
            if not ctx.check(y.shape == x.shape and np.iscomplexobj(y) == np.iscomplexobj(x) and np.isfinite(y).all(), k + ":shape", lambda: "%s %s" % (y.shape, y.dtype)):
                continue
            A, B = norm(x).astype(complex), norm(y).astype(complex)
            Cy = B @ np.swapaxes(B.conj(), -1, -2) / T
            Cx = A @ np.swapaxes(A.conj(), -1, -2) / T
            # linear map y = M x, recovered bin by bin
            M = (B @ np.swapaxes(A.conj(), -1, -2) / T) @ np.linalg.inv(Cx)
            sc = np.abs(B).max(axis=(-2, -1))
            e = np.abs(M @ A - B).max(axis=(-2, -1)) / sc
            ctx.check((e <= tol).all(), k + ":linear", lambda: "output is not a linear map of the channels (%g)" % e.max())
            if name == "whiten":
                ctx.check(np.abs(Cy - np.eye(n)).max() <= tol, k + ":identity", lambda: "covariance deviates from identity by %g" % np.abs(Cy - np.eye(n)).max())
                ctx.check((np.abs(np.linalg.det(M)) > 0).all(), k + ":invertible", "not invertible")
                continue
            tr = np.trace(Cx, axis1=-2, axis2=-1).real
            off = np.abs(Cy * (1 - np.eye(n))).max(axis=(-2, -1)) / tr
            ctx.check((off <= 1e-10).all(), k + ":uncorrelated", lambda: "relative correlation %g" % off.max())
            p = np.diagonal(Cy, axis1=-2, axis2=-1).real
            dp = np.diff(p, axis=-1) * (-1 if kw.get("ascend", True) else 1)
            ctx.check((dp >= -1e-10 * tr[..., None]).all(), k + ":order", lambda: "powers %s" % p)
            ctx.check((np.abs(p.sum(-1) - tr) <= 1e-10 * tr).all(), k + ":power", "total power changed")
            ctx.check((np.abs(np.sort(p, axis=-1) - np.linalg.eigvalsh(Cx)) <= 1e-10 * tr[..., None]).all(), k + ":spectrum", "powers are not the principal values")
            U = np.abs(M @ np.swapaxes(M.conj(), -1, -2) - np.eye(n)).max()
            ctx.check(U <= tol, k + ":unitary", lambda: "deviates from unitary by %g" % U)
