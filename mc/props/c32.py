"""Every method x option x {2, 3 sources} x signals whose samples are exactly representable in all formats, handed over as
single / double / big-endian / integer (waveforms) numbers; every method x option x initial parameter (filters, basis,
activation, latent, spatial, diagonalizer, dual, auxiliary, variance) handed over as real or complex, single, double,
big-endian or integer numbers with the same values; every numerical function x the same formats.  Outputs, losses and final
parameters must agree with those of the native double (complex double) numbers, the arrays handed over stay as they are."""

import inspect
import warnings

import numpy as np

from .. import configs as C
from .. import inputs as I

ID = "C32"
TITLE = "Results do not depend on the number format of signals and parameters"
BOUNDS = {
    "quick": "all methods and options x 2-3 sources x 2 signals x 2 iterations x 3-7 formats; every initial parameter x 6-9 formats; every numeric option (given or default) and the number of iterations as 3-6 kinds of scalars; 33 functions x 3 letters x 7 formats",
    "thorough": "as quick with 2-4 sources, 4 signals, 0-3 iterations, 12 letters per function",
}
ASSUMPTIONS = [
    "the numbers are exactly representable in every format used and no intermediate result of the format overflows (integers: waveforms, parameters and small arguments)",
    "extended precision (longdouble) is not supported by numpy.linalg and is left out",
    "complex and real versions of the same waveform-like array are different requests for cbrt, pca and whiten",
]
TOL64, TOL32 = 1e-7, 5e-3
REAL = ("f4", ">f8", "i8", "i4", "i2")
CPLX = ("c16", "c8", ">c16")
PAR = ("demix_filter", "basis", "activation", "latent", "spatial", "diagonalizer", "dual", "auxiliary1", "auxiliary2", "variance")


def tol(t):
    if t.startswith("real"):  # real and complex solvers round differently
        return 1e-4
    return TOL32 if t in ("f4", "c8") else TOL64


def cases(tier):
    q = tier == "quick"
    out = []
    for cfg in C.all_configs(1):
        for n in (2, 3) if q else (2, 3, 4):
            for seed in (0, 1) if q else (0, 1, 2, 3):
                for N in (2,) if q else (0, 1, 3):
                    if cfg["cls"] == "CACGMM" and n == 4:
                        continue  # four covariances of four bins: degenerate likelihood
                    out.append({"kind": "signal", "cfg": cfg, "n": n, "seed": seed, "N": N})
                    out.append({"kind": "option", "cfg": cfg, "n": n, "seed": seed, "N": N})
                    if cfg["cls"] != "CACGMM":
                        out.append({"kind": "start", "cfg": cfg, "n": n, "seed": seed, "N": N})
    for name in FUNCS:
        for k in range(3 if q else 12):
            out.append({"kind": "fn", "fn": name, "k": k})
    return out


def case_name(c):
    if c["kind"] == "fn":
        return "fn/%s/%d" % (c["fn"], c["k"])
    return "%s/%s/%d/%d/%d" % (c["kind"], C.cfg_name(c["cfg"]), c["n"], c["seed"], c["N"])


# ------------------------------------------------------------------------------------------------ methods
def signal(cfg, n, seed):
    """signal with samples exactly representable in single precision (waveforms: integers)"""
    if C.family(cfg) == "ica":
        return np.rint(3 * I.waveform(seed, n, 60))
    x = 16 * I.mixture(seed, n, 4, 24)
    x = np.rint(x.real) + 1j * np.rint(x.imag)
    if C.family(cfg) == "prox":
        s = max(np.linalg.norm(x[:, f], 2) for f in range(x.shape[1]))
        x = x * 2.0 ** (-np.ceil(np.log2(s)))
    return x


def run_one(cfg, x, N, **start):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = C.build(cfg)
        y = m(x, n_iter=N, **start)
    final = {k: getattr(m, k) for k in PAR if isinstance(getattr(m, k, None), np.ndarray)}
    loss = getattr(m, "loss", None)
    return np.asarray(y), final, None if loss is None else np.asarray(loss, dtype=float)


def agree(ctx, key, base, got, t, filters=True):
    y, final, loss = base
    if not filters:  # row phases of eigenvectors differ between real and complex solvers
        final = {k: v for k, v in final.items() if k not in ("demix_filter", "diagonalizer")}
        got = (got[0], {k: v for k, v in got[1].items() if k in final}, got[2])
    ctx.close(got[0], y, key + ":output", rtol=tol(t), atol=tol(t) * np.abs(y).max())
    ctx.check(set(got[1]) == set(final), key + ":attributes", "parameters %s" % sorted(got[1]))
    for k in final:
        if k in got[1]:
            b = final[k]
            fin = b[np.isfinite(b)]
            ctx.close(got[1][k], b, key + ":" + k, rtol=tol(t), atol=tol(t) * (np.abs(fin).max() if fin.size else 0))
    if loss is not None:
        ctx.check(got[2] is not None and got[2].shape == loss.shape, key + ":losses", "number of losses")
        fin = loss[np.isfinite(loss)]
        ctx.close(got[2], loss, key + ":loss", rtol=tol(t), atol=tol(t) * (1 + (np.abs(fin).max() if fin.size else 0)))


def give(ctx, key, base, t, arr, run, filters=True):
    keep = arr.copy()
    try:
        got = run(arr)
    except Exception as e:  # noqa: BLE001
        ctx.fail(key + ":raised", "%s: %r" % (t, e))
        return
    ctx.step()
    ctx.trace()
    agree(ctx, key, base, got, t, filters)
    ctx.check(arr.dtype == keep.dtype and np.array_equal(arr, keep), key + ":mutated", "array handed over has changed")


def run_signal(c, ctx):
    cfg, N = c["cfg"], c["N"]
    x = signal(cfg, c["n"], c["seed"])
    base = run_one(cfg, x.copy(), N)
    ctx.state(C.cfg_name(cfg), c["n"], c["seed"], N)
    if C.family(cfg) == "ica":
        formats = REAL
    else:
        formats = ("c8", ">c16")
    for t in formats:
        give(ctx, t, base, t, x.astype(t), lambda a: run_one(cfg, a, N))
    if C.family(cfg) == "ica":
        return
    # real spectrograms as real and as complex numbers
    r = np.ascontiguousarray(x.real)
    fast = cfg["cls"] in ("FastIVA", "FasterIVA")  # signs of the whitened channels differ between real and complex solvers
    try:
        base = run_one(cfg, r if fast else r.astype(np.complex128), N)
    except Exception as e:  # noqa: BLE001
        ctx.outcome("degenerate:%s" % type(e).__name__)
        return
    if not np.isfinite(base[0]).all():
        ctx.outcome("degenerate:nonfinite")
        return
    for t in ("f4", "f8", ">f8"):
        give(ctx, "real:" + t, base, "real" if t[-1] == "8" else t, r.astype(t), lambda a: run_one(cfg, a, N), filters=False)


def start_value(k, v, seed, n):
    """integer-valued initial parameter of the shape of v"""
    if k in ("demix_filter", "diagonalizer"):
        b = np.eye(n) * 3 + np.ones((n, n)) + np.triu(np.ones((n, n)), 1) * seed
        return np.broadcast_to(b, v.shape).copy()
    if v.ndim >= 3 and v.shape[-1] == v.shape[-2] and k in ("spatial", "basis") and v.ndim in (4, 5):
        m = v.shape[-1]
        i = np.arange(int(np.prod(v.shape[:-2]))).reshape(v.shape[:-2])
        return (2 + i % 3)[..., None, None] * np.eye(m) + np.ones((m, m)) * (1 + seed)
    i = np.arange(v.size).reshape(v.shape)
    return 1.0 + (7 * i + seed) % 4


def vanishing(k, b, x):
    """a separated sample cancels exactly: its weight is that of the floor and rounding decides the rest"""
    if k != "demix_filter" or x.ndim < 3 or b.ndim != 3 or b.shape[-1] != x.shape[0]:
        return False
    y = np.abs(np.einsum("fnc,cft->nft", b, x))
    return y.min() <= 1e-9 * y.max()


def run_start(c, ctx):
    cfg, n, N = c["cfg"], c["n"], c["N"]
    x = signal(cfg, n, c["seed"])
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = C.build(cfg)
        m(x.copy(), n_iter=0)
    for k in PAR:
        v = getattr(m, k, None)
        if not isinstance(v, np.ndarray):
            continue
        b = start_value(k, v, c["seed"], n)
        if vanishing(k, b, x):
            ctx.outcome("degenerate:%s:vanishing" % k)
            continue
        try:
            base = run_one(cfg, x.copy(), N, **{k: b.astype(v.dtype)})
        except Exception as e:  # noqa: BLE001
            ctx.outcome("degenerate:%s:%s" % (k, type(e).__name__))
            continue
        if not np.isfinite(base[0]).all():
            ctx.outcome("degenerate:%s:nonfinite" % k)
            continue
        ctx.outcome(k)
        ctx.state(C.cfg_name(cfg), n, c["seed"], N, k)
        if k in ("demix_filter", "diagonalizer", "dual", "auxiliary1", "auxiliary2") and v.dtype.kind == "c" and cfg["cls"] not in ("FastIVA", "FasterIVA"):
            start_complex(ctx, cfg, x, N, k, b)
        for t in ("f8",) + REAL + (CPLX if v.dtype.kind == "c" else ()):
            # every format holds the values exactly: double accuracy is due
            give(ctx, k + ":" + t, base, "f8", b.astype(t), lambda a: run_one(cfg, x.copy(), N, **{k: a}))


def start_complex(ctx, cfg, x, N, k, b):
    """a real spectrogram and a parameter with imaginary parts"""
    x = np.ascontiguousarray(x.real)
    b = b + 1j * np.roll(b, 1, axis=-1) / 4
    if vanishing(k, b, x):
        ctx.outcome("degenerate:complex:vanishing")
        return
    try:
        base = run_one(cfg, x.astype(np.complex128), N, **{k: b.copy()})
    except Exception as e:  # noqa: BLE001
        ctx.outcome("degenerate:complex:%s" % type(e).__name__)
        return
    if not np.isfinite(base[0]).all():
        ctx.outcome("degenerate:complex:nonfinite")
        return
    for t in ("f4", "f8", ">f8", "i8"):
        if t == "i8" and not np.array_equal(x, np.rint(x)):
            continue
        give(ctx, "real-signal:%s:%s" % (k, t), base, "f4" if t == "f4" else "f8", x.astype(t), lambda a: run_one(cfg, a, N, **{k: b.copy()}), filters=False)


INTEGRAL = ("n_basis", "n_blocks", "n_sources", "reference_id", "newton_iter", "mask_iter")


def number(v):
    return isinstance(v, (int, float)) and not isinstance(v, bool)


def run_option(c, ctx):
    """numeric options (and the number of iterations) as python and numpy scalars of the same value"""
    cfg, n, N = c["cfg"], c["n"], c["N"]
    x = signal(cfg, n, c["seed"])
    given = {k: v for k, v in cfg["kw"].items() if number(v)}
    for k, p in inspect.signature(C.CLASSES[cfg["cls"]].__init__).parameters.items():
        if number(p.default):
            given.setdefault(k, p.default)
    base = run_one(cfg, x.copy(), N)
    ctx.state(C.cfg_name(cfg), n, c["seed"], N, "option")
    for k, v in [("n_iter", N)] + sorted(given.items()):
        if k == "n_iter" or k in INTEGRAL:
            variants = (np.int64(v), np.int32(v), np.int16(v))
        else:
            variants = [float(v), np.float64(v)]
            if float(np.float32(v)) == v:
                variants += [np.float32(v), np.array(float(v))]
            if v == int(v):
                variants += [int(v), np.int64(v)]
        for w in variants:
            key = "%s:%s" % (k, type(w).__name__)
            try:
                got = run_one(cfg, x.copy(), w) if k == "n_iter" else run_one(C.with_kw(cfg, **{k: w}), x.copy(), N)
            except Exception as e:  # noqa: BLE001
                ctx.fail(key + ":raised", repr(e))
                continue
            ctx.step()
            ctx.trace()
            agree(ctx, key, base, got, "f4" if isinstance(w, np.float32) else "f8")


# ------------------------------------------------------------------------------------------------ functions
def args(k):
    r = np.random.RandomState(500 + k)
    n = 2 + k % 3
    A = np.rint(3 * r.standard_normal((3, n, n)))
    for a in A:
        while abs(np.linalg.det(a)) < 0.5:
            a += np.eye(n)
    H = A @ A.transpose(0, 2, 1) + 3 * np.eye(n)
    A2 = A[:, :2, :2]
    H2 = A2 @ A2.transpose(0, 2, 1) + 2 * np.eye(2)
    X = np.rint(3 * r.standard_normal((n, 4, 20)))
    return A, H, H2, X, np.abs(X) + 1


def _fns():
    from ssspy import linalg as L
    from ssspy import special as S
    from ssspy import transform as T
    from ssspy.algorithm import minimal_distortion_principle as mdp
    from ssspy.algorithm import projection_back as pb
    from ssspy.algorithm import permutation_alignment as PA
    from ssspy.linalg import prox

    def gram(v):
        return v[..., :, None] * v[..., None, :].conj()

    return {
        "cbrt": (lambda x: L.cbrt(x), lambda A, H, H2, X, P: (X,), REAL),
        "solve": (_solve(), lambda A, H, H2, X, P: (H, A[:, :, 0]), None),
        "solve-matrix": (_solve(), lambda A, H, H2, X, P: (H, A), None),
        "eigh": (lambda a: L.eigh(a)[0], lambda A, H, H2, X, P: (H,), None),
        "eigh-projectors": (lambda a: gram(L.eigh(a)[1].swapaxes(-1, -2)), lambda A, H, H2, X, P: (H,), None),
        "eigh-general": (lambda a, b: L.eigh(a, b)[0], lambda A, H, H2, X, P: (H, H[::-1].copy()), None),
        "eigh-general2": (lambda a, b: L.eigh(a, b, type=2)[0], lambda A, H, H2, X, P: (H, H[::-1].copy()), None),
        "eigh-general3": (lambda a, b: L.eigh(a, b, type=3)[0], lambda A, H, H2, X, P: (H, H[::-1].copy()), None),
        "eigh2": (lambda a: L.eigh2(a)[0], lambda A, H, H2, X, P: (H2,), None),
        "eigh2-general": (lambda a, b: L.eigh2(a, b)[0], lambda A, H, H2, X, P: (H2, H2[::-1].copy()), None),
        "inv2": (L.inv2, lambda A, H, H2, X, P: (H2,), None),
        "gmeanmh": (L.gmeanmh, lambda A, H, H2, X, P: (H, H[::-1].copy()), None),
        "gmeanmh2": (lambda a, b: L.gmeanmh(a, b, type=2), lambda A, H, H2, X, P: (H, H[::-1].copy()), None),
        "gmeanmh3": (lambda a, b: L.gmeanmh(a, b, type=3), lambda A, H, H2, X, P: (H, H[::-1].copy()), None),
        "quadratic": (L.quadratic, lambda A, H, H2, X, P: (X.transpose(1, 2, 0).copy(), H[0]), None),
        "sqrtmh": (L.sqrtmh, lambda A, H, H2, X, P: (H,), None),
        "invsqrtmh": (L.invsqrtmh, lambda A, H, H2, X, P: (H,), None),
        "prox-l1": (prox.l1, lambda A, H, H2, X, P: (X,), None),
        "prox-l1-step": (lambda x: prox.l1(x, step_size=3), lambda A, H, H2, X, P: (X,), None),
        "prox-l21": (prox.l21, lambda A, H, H2, X, P: (X,), None),
        "prox-l21-step": (lambda x: prox.l21(x, step_size=3, axis1=0, axis2=-1), lambda A, H, H2, X, P: (X,), None),
        "prox-l1-half": (lambda x: prox.l1(x, step_size=0.5), lambda A, H, H2, X, P: (X,), None),
        "prox-l21-half": (lambda x: prox.l21(x, step_size=2.5, axis2=1), lambda A, H, H2, X, P: (X,), None),
        "prox-neg_log-half": (lambda x: prox.neg_log(x, step_size=0.3), lambda A, H, H2, X, P: (P,), REAL),
        "prox-neg_logdet-half": (lambda x: prox.neg_logdet(x, step_size=0.3), lambda A, H, H2, X, P: (A,), None),
        "to_psd-floor": (lambda x: S.to_psd(x, flooring_fn=lambda e: np.maximum(e, 1.5)), lambda A, H, H2, X, P: (H,), None),
        "prox-neg_log": (prox.neg_log, lambda A, H, H2, X, P: (P,), None),
        "prox-neg_logdet": (prox.neg_logdet, lambda A, H, H2, X, P: (A,), None),
        "max_flooring": (lambda x: S.max_flooring(x, eps=2.5), lambda A, H, H2, X, P: (X,), REAL),
        "add_flooring": (lambda x: S.add_flooring(x, eps=2.5), lambda A, H, H2, X, P: (X,), REAL),
        "logsumexp": (lambda x: S.logsumexp(x, axis=1), lambda A, H, H2, X, P: (X,), REAL),
        "softmax": (lambda x: S.softmax(x, axis=1), lambda A, H, H2, X, P: (X,), REAL),
        "to_psd": (S.to_psd, lambda A, H, H2, X, P: (H,), None),
        "projection_back-filter": (pb, lambda A, H, H2, X, P: (A,), None),
        "projection_back": (lambda y, x: pb(y, reference=x), lambda A, H, H2, X, P: (X, X[::-1].copy()), None),
        "mdp": (lambda y, x: mdp(y, reference=x), lambda A, H, H2, X, P: (X, X[::-1].copy()), None),
        "pca-power": (lambda x: np.abs(T.pca(x)), lambda A, H, H2, X, P: (X,), REAL),
        "whiten-power": (lambda x: np.abs(T.whiten(x)), lambda A, H, H2, X, P: (X,), REAL),
        "correlation": (lambda s: PA.correlation_based_permutation_solver(s, overwrite=False), lambda A, H, H2, X, P: (P,), None),
        "score": (lambda s: PA.score_based_permutation_solver(s, overwrite=False), lambda A, H, H2, X, P: (P,), None),
    }


def _solve():
    from ssspy.linalg._solve import solve

    return solve


FUNCS = sorted(_fns())


def run_fn(c, ctx):
    fn, pick, formats = _fns()[c["fn"]]
    a = [np.ascontiguousarray(v, dtype=float) for v in pick(*args(c["k"]))]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = np.asarray(fn(*[v.copy() for v in a]))
    ctx.state(c["fn"], c["k"])
    scale = np.abs(base).max()
    for t in formats or REAL + CPLX:
        b = [v.astype(t) for v in a]
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                got = np.asarray(fn(*b))
        except Exception as e:  # noqa: BLE001
            ctx.fail(t + ":raised", repr(e))
            continue
        ctx.step()
        ctx.trace()
        ctx.close(got, base, t, rtol=tol(t), atol=tol(t) * scale)
        ctx.check(all(u.dtype == np.dtype(t) and np.array_equal(u, v) for u, v in zip(b, a)), t + ":mutated", "argument changed")
    if formats is not None or c["fn"].startswith(("pca", "whiten", "prox-neg_log-", "correlation", "score")) or c["fn"] == "prox-neg_log":
        mix = (a,)
    else:  # the same with complex entries (Hermitian ones stay Hermitian)
        mix = (a, [v + 1j * (np.triu(v, 1) - np.tril(v.swapaxes(-1, -2), -1)) / 8 if _hermitian(v) else v + 1j * v[::-1] for v in a])
    if len(a) == 1:
        todo = [(i, (0,), t) for i in range(1, len(mix)) for t in CPLX]
    else:  # every subset of the arguments in another format; real arguments next to complex ones
        todo = [(i, s, t) for i in range(len(mix)) for s in ((0,), (1,), (0, 1))[: 2 + (i > 0)] for t in (REAL + CPLX if i == 0 else CPLX)]
        todo += [(2 + j, (j,), t) for j in (0, 1) for t in REAL] if len(mix) > 1 else []
    for i, s, t in todo:
        v = list(mix[i] if i < 2 else mix[1])
        if i >= 2:
            v[i - 2] = a[i - 2]  # one real argument, the others complex
        b = [u.astype(t) if j in s else u.copy() for j, u in enumerate(v)]
        key = "%s:%s:%s" % ("real" if i == 0 else "complex" if i == 1 else "mixed", s, t)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                exp = np.asarray(fn(*[u.astype(np.complex128) if i else u.copy() for u in v]))
                got = np.asarray(fn(*b))
        except Exception as e:  # noqa: BLE001
            ctx.fail(key + ":raised", repr(e))
            continue
        ctx.step()
        ctx.trace()
        ctx.close(got, exp, key, rtol=tol(t), atol=tol(t) * np.abs(exp).max())


def _hermitian(v):
    return v.ndim == 3 and v.shape[-1] == v.shape[-2] and np.allclose(v, v.swapaxes(-1, -2))


def run(case, ctx):
    {"signal": run_signal, "option": run_option, "start": run_start, "fn": run_fn}[case["kind"]](case, ctx)
