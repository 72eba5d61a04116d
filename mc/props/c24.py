"""Log-sum-exp and softmax: every tensor over an alphabet of values (including +-huge, -inf) for shapes up to 2x2x3 (all
contents for the small shapes), every axis, tuple of axes and keep-dims option, compared with exact rational/long-double
evaluation.  Flooring functions: every value of the alphabet x floors.  Projection to positive definite matrices: every
integer 2x2 matrix and spectrum x basis families, against the defining properties of the projection."""

import itertools
import math
import warnings

import numpy as np

ID = "C24"
TITLE = "Special functions are exact and stable"
BOUNDS = {
    "quick": "logsumexp/softmax: all vectors of length 1-5 over 10 values, shapes up to 4 dimensions, all axes; flooring: 14 values x 5 floors x 4 dtypes; to_psd: all integer 2x2 (-2..2), families up to 6x6",
    "thorough": "vectors up to length 6, families up to 9x9",
}
ASSUMPTIONS = ["inputs are real floats or small integers for the exponentials"]
VALS = [0, 1, -1, 0.5, 700, -745, 1e4, -1e4, 1e308, -math.inf]


def cases(tier):
    q = tier == "quick"
    out = []
    for n in (1, 2, 3, 4, 5) if q else (1, 2, 3, 4, 5, 6):
        out.append({"kind": "exp", "n": n})
    for shp in ([2, 2], [3, 1], [1, 3], [2, 3], [2, 2, 3], [1, 2, 1], [2, 1, 3, 2], [3, 4, 2]):
        for lo in ("small", "wide", "int", "inf", "const", "float32"):
            out.append({"kind": "axes", "shape": shp, "lo": lo})
    for eps in (None, 0, 1e-10, 1e-3, 1, 5):
        out.append({"kind": "floor", "eps": eps})
    out.append({"kind": "choose"})
    for fld in ("int", "real", "complex"):
        for fl in ("default", "none", "max0.5", "add", "zero"):
            out.append({"kind": "psd", "fld": fld, "fl": fl, "m": 2})
            for n in range(1, 7 if q else 10):
                if fld != "int":
                    out.append({"kind": "psdfam", "fld": fld, "fl": fl, "n": n})
    out.append({"kind": "psdaxes"})
    return out


def case_name(c):
    return "/".join("%s" % v for v in c.values()).replace(" ", "")


def lse(v):
    """reference: scaled sum with math.fsum"""
    v = [float(a) for a in v]
    m = max(v)
    if m == math.inf:
        return math.inf
    if m == -math.inf:
        return -math.inf
    s = math.fsum(math.exp(a - m) for a in v)
    return m + math.log(s)


def smax(v):
    v = [float(a) for a in v]
    m = max(v)
    e = [math.exp(a - m) for a in v]
    s = math.fsum(e)
    return [a / s for a in e]


def close(a, b, tol=1e-13):
    a, b = np.asarray(a, float), np.asarray(b, float)
    inf = ~np.isfinite(b)
    return a.shape == b.shape and np.array_equal(a[inf], b[inf]) and (np.abs(a[~inf] - b[~inf]) <= tol * np.maximum(1, np.abs(b[~inf]))).all()


def check_axes(ctx, X, tag, tol):
    from ssspy.special import logsumexp, softmax

    nd = X.ndim
    axes = [None] + list(range(-nd, nd)) + [t for k in range(2, nd + 1) for t in itertools.combinations(range(nd), k)]
    if nd > 1:
        axes += [(0, -1), (-1, 0)]
    keep = X.copy()
    for ax in axes:
        red = tuple(range(nd)) if ax is None else tuple(a % nd for a in (ax if isinstance(ax, tuple) else (ax,)))
        rest = [i for i in range(nd) if i not in red]
        shape = [X.shape[i] for i in rest]
        exp = np.zeros(shape)
        sm = np.zeros(X.shape)
        defined = True
        for idx in np.ndindex(*shape):
            sel = [slice(None)] * nd
            for i, j in zip(rest, idx):
                sel[i] = j
            sub = X[tuple(sel)]
            exp[idx] = lse(np.ravel(sub))
            if np.isfinite(exp[idx]):
                sm[tuple(sel)] = np.reshape(smax(np.ravel(sub)), sub.shape)
            else:
                defined = False
        for kd in (None, False, True):
            kw = {} if kd is None else {"keepdims": kd}
            if ax is not None or nd % 2:
                kw["axis"] = ax
            got = logsumexp(X, **kw)
            ctx.step()
            e = np.reshape(exp, [1 if i in red else X.shape[i] for i in range(nd)]) if kd else exp
            ctx.check(np.shape(got) == np.shape(e) and close(got, e, tol), "logsumexp:%s:%s:%s" % (tag, ax, kd), lambda: "%s -> %s expected %s" % (X.tolist(), np.asarray(got).tolist(), e.tolist()))
        if defined:
            got = softmax(X) if ax is None else softmax(X, axis=ax)
            ctx.step()
            ctx.check(np.shape(got) == X.shape and close(got, sm, tol), "softmax:%s:%s" % (tag, ax), lambda: "%s -> %s expected %s" % (X.tolist(), got.tolist(), sm.tolist()))
            ctx.check((np.asarray(got) >= 0).all() and np.allclose(np.sum(got, axis=ax), 1, atol=1e-6 if tol > 1e-10 else 1e-12), "distribution:%s:%s" % (tag, ax), "not a distribution")
    ctx.check(np.array_equal(X, keep), "mutated:" + tag, "argument changed")


def floors(name):
    return {"default": ({}, 1e-10), "none": ({"flooring_fn": None}, None), "max0.5": ({"flooring_fn": lambda v: np.maximum(v, 0.5)}, 0.5),
            "add": ({"flooring_fn": lambda v: v + 3}, "add"), "zero": ({"flooring_fn": lambda v: np.maximum(v, 0)}, 0.0)}[name]


def check_psd(ctx, key, X, name):
    from ssspy.bss._psd import to_psd as old
    from ssspy.special import to_psd

    kw, fl = floors(name)
    keep = X.copy()
    Y = to_psd(X, **kw)
    ctx.step()
    ctx.check(np.array_equal(X, keep), key + ":mutated", "argument changed")
    H = (X + np.swapaxes(X.conj(), -1, -2)) / 2
    lam, P = np.linalg.eigh(H)
    sc = np.maximum(np.abs(lam).max(axis=-1), 1)
    if not ctx.check(Y.shape == X.shape and np.isfinite(Y).all(), key + ":shape", lambda: "%s" % (Y.shape,)):
        return
    ctx.check(np.array_equal(Y, np.swapaxes(Y.conj(), -1, -2)), key + ":hermitian", lambda: "asymmetry %g" % np.abs(Y - np.swapaxes(Y.conj(), -1, -2)).max())
    f = lam if fl is None else lam + 3 if fl == "add" else np.maximum(lam, fl)
    exp = (P * f[..., None, :]) @ np.swapaxes(P.conj(), -1, -2)
    err = np.abs(Y - exp).max(axis=(-2, -1)) / sc
    ctx.check((err <= 1e-12).all(), key + ":value", lambda: "deviates by %g" % err.max())
    got = np.linalg.eigvalsh(Y)
    if fl not in (None, "add"):
        ctx.check((got >= fl - 1e-13 * sc[..., None]).all(), key + ":floor", lambda: "smallest eigenvalue %g" % got.min())
    adm = (lam >= (fl if isinstance(fl, float) else 0)).all(axis=-1) if fl != "add" else np.zeros(lam.shape[:-1], bool)
    herm = (np.abs(X - H) == 0).all(axis=(-2, -1))
    both = adm & herm
    if both.any():
        ctx.check((np.abs(Y - X)[both] <= 1e-12 * sc[both][..., None, None]).all(), key + ":unchanged", "admissible matrix changed")
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ctx.check(np.array_equal(old(X, **kw), Y), key + ":deprecated", "deprecated entry point differs")
    ctx.close(to_psd(Y, **({} if fl in (None, "add") else kw)), Y if fl not in (None, "add") else to_psd(Y), key + ":idempotent", rtol=1e-11, atol=1e-12)


def run(case, ctx):
    kind = case["kind"]
    ctx.outcome(kind)
    ctx.trace()
    if kind == "exp":
        from ssspy.special import logsumexp, softmax

        n = case["n"]
        vals = VALS if n <= 4 else VALS[:7] + [-math.inf]
        V = np.array(list(itertools.product(vals, repeat=n)))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for v in V if n < 4 else V[::7]:
                ctx.state("exp", v)
                e = lse(v)
                got = logsumexp(v)
                ctx.step()
                ctx.check(np.shape(got) == () and close(got, e), "logsumexp:%s" % v.tolist(), lambda: "%s expected %s" % (got, e))
                if np.isfinite(e):
                    ctx.check(close(softmax(v), smax(v)), "softmax:%s" % v.tolist(), lambda: "%s expected %s" % (softmax(v), smax(v)))
            ctx.check(close(logsumexp(V, axis=1), [lse(v) for v in V]), "logsumexp:rows", "row-wise result differs")
            ctx.check(close(logsumexp(V.T, axis=0), [lse(v) for v in V]), "logsumexp:columns", "column-wise result differs")
            fin = V[np.isfinite(V.max(axis=1))]
            ctx.check(close(softmax(fin, axis=1), [smax(v) for v in fin]), "softmax:rows", "row-wise result differs")
        ctx.step(len(V))
        return
    if kind == "axes":
        shp = tuple(case["shape"])
        rng = np.random.default_rng(len(shp))
        m = int(np.prod(shp))
        for k in range(4):
            X = {"small": rng.standard_normal(m), "wide": rng.permutation(np.linspace(-2000, 2000, m)), "int": rng.integers(-5, 6, m),
                 "inf": np.where(rng.random(m) < 0.5, -np.inf, rng.standard_normal(m)), "const": np.full(m, 800.0 * (k - 1)),
                 "float32": rng.standard_normal(m).astype(np.float32) * 50}[case["lo"]].reshape(shp)
            if k == 3:
                X = np.asfortranarray(X)
            ctx.state(case["lo"], X)
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                check_axes(ctx, X, str(k), 1e-5 if case["lo"] == "float32" else 1e-12)
        return
    if kind == "floor":
        from ssspy.bss import _flooring as old
        from ssspy.special import add_flooring, identity, max_flooring

        eps = case["eps"]
        kw = {} if eps is None else {"eps": eps}
        e = 1e-10 if eps is None else eps
        vals = [0, 1e-300, 1e-11, 1e-10, 1e-9, 1e-4, 1e-3, 0.5, 1, 2, 7, -1, -1e-12, 1e9]
        for dt in (float, np.float32, np.int64):
            for shp in ((14,), (2, 7), (1, 14, 1)):
                x = np.array(vals).astype(dt).reshape(shp)
                keep = x.copy()
                ctx.state("floor", eps, x)
                a, b, c = max_flooring(x, **kw), add_flooring(x, **kw), identity(x)
                ctx.step(3)
                ctx.check(a.shape == shp and all(u == max(v, w) for u, v, w in zip(a.ravel(), x.ravel(), [dt(e) if dt == np.float32 else e] * 14)), "max:%s" % np.dtype(dt), lambda: str(a))
                ctx.check(b.shape == shp and np.allclose(b, keep.astype(float) + e, rtol=1e-6, atol=0), "add:%s" % np.dtype(dt), lambda: str(b))
                ctx.check(np.array_equal(c, keep), "identity:%s" % np.dtype(dt), lambda: str(c))
                ctx.check(np.array_equal(x, keep), "mutated:%s" % np.dtype(dt), "argument changed")
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    ctx.check(np.array_equal(old.max_flooring(x, **kw), a) and np.array_equal(old.add_flooring(x, **kw), b) and np.array_equal(old.identity(x), c), "deprecated", "deprecated entry points differ")
        for s in (0, 0.0, 1e-12, 3, -2.5):  # scalars
            ctx.check(max_flooring(s, **kw) == max(s, e) and add_flooring(s, **kw) == s + e and identity(s) == s, "scalar:%s" % s, "scalar flooring")
            ctx.step(3)
        return
    if kind == "choose":
        from ssspy.special.flooring import identity
        from ssspy.utils.flooring import choose_flooring_fn

        class M:
            flooring_fn = staticmethod(lambda v: v + 2)

        class E:
            pass

        f = lambda v: v * 7
        for fn, me, exp in ((None, None, 3), ("self", None, 3), ("self", M(), 5), ("self", E(), 3), (f, None, 21), (f, M(), 21)):
            ctx.state("choose", str(fn == "self"), str(type(me)), exp)
            ctx.step()
            ctx.check(choose_flooring_fn(fn, method=me)(3) == exp, "choose:%s:%s" % ("self" if fn == "self" else "fn" if fn else None, type(me).__name__), "wrong flooring function")
        ctx.check(choose_flooring_fn(method=M())(3) == 5 and choose_flooring_fn()(3) == 3, "choose:default", "wrong default")
        for bad in ((None, M()), ("other", None), (3, None), ("other", M())):
            try:
                choose_flooring_fn(bad[0], method=bad[1])
                ctx.fail("accepted:%s" % (bad[0],), "invalid choice accepted")
            except (AssertionError, ValueError, TypeError):
                ctx.step()
        ctx.check(identity(4) == 4, "identity", "")
        return
    if kind == "psd":
        C = [0, 1, -1, 1j, 2 - 1j] if case["fld"] == "complex" else range(-case["m"], case["m"] + 1)
        X = np.array(list(itertools.product(C, repeat=4))).reshape(-1, 2, 2)
        X = X.astype({"int": np.int64, "real": float, "complex": complex}[case["fld"]])
        check_psd(ctx, "lattice", X, case["fl"])
        for x in X:
            ctx.state(x)
        check_psd(ctx, "single", X[37], case["fl"])
        check_psd(ctx, "grid", X[:24].reshape(2, 3, 4, 2, 2), case["fl"])
        return
    if kind == "psdfam":
        n = case["n"]
        rng = np.random.default_rng(n)
        for sp in (np.ones(n), np.zeros(n), -np.ones(n), np.arange(n) - 1.0, np.full(n, 1e-12), 10.0 ** np.linspace(-8, 3, n), np.full(n, 1e-10), rng.standard_normal(n)):
            for batch in ((), (3,), (2, 2)):
                Q = rng.standard_normal(batch + (n, n)) + (1j * rng.standard_normal(batch + (n, n)) if case["fld"] == "complex" else 0)
                Q = np.linalg.qr(Q)[0]
                X = (Q * sp) @ np.swapaxes(Q.conj(), -1, -2)
                ctx.state(X)
                check_psd(ctx, "family", X, case["fl"])
                check_psd(ctx, "family:hermitian", (X + np.swapaxes(X.conj(), -1, -2)) / 2, case["fl"])
        return
    if kind == "psdaxes":
        from ssspy.special import to_psd

        X = np.random.default_rng(0).standard_normal((3, 3, 3))
        ctx.state(X)
        for a, b in ((1, 2), (-2, -1), (1, -1), (-2, 2)):
            ctx.close(to_psd(X, axis1=a, axis2=b), to_psd(X), "axes:%d:%d" % (a, b), rtol=0)
            ctx.step()
        for a, b in ((0, 1), (0, 2), (-1, -2), (2, 1)):
            try:
                to_psd(X, axis1=a, axis2=b)
                ctx.fail("axes:%d:%d" % (a, b), "unsupported axes accepted")
            except AssertionError:
                ctx.step()
