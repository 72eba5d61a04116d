"""Cubic equations: every multiset of three roots from a lattice (real, and conjugate pairs / complex roots), every leading
factor, shape and dtype, and a lattice of raw coefficients (x+a)^3+c: the elementary symmetric functions of the returned
triple are compared with the coefficients.  LQPQM: every combination of eigenvalues, excitations (including vanishing and
tiny components and degenerate eigenvalues), constants, bases and normalization scale: the returned point is stationary
and its value is compared with the minimum over all stationary points (enumerated from the secular polynomial)."""

import itertools
import warnings

import numpy as np

from ..ref import lq

ID = "C22"
TITLE = "Cubic roots and the log-quadratic program are solved for all coefficients"
BOUNDS = {
    "quick": "cubic: all multisets of 3 roots from 12 real + 6 complex values, 6 leading factors, (x+a)^3+c lattice 13x9; LQPQM: dimension 1-3, eigenvalue/excitation/constant lattices, ~15k programs",
    "thorough": "root lattice 18+10, LQPQM dimension 1-4 with denser lattices",
}
ASSUMPTIONS = ["Newton's method is given enough iterations or the solver warns that it has not converged"]

ROOTS = [-3, -1, -0.1, 0, 0.1, 0.3, 1, 2, 1e-3, 50, -7, 1e3]
CROOTS = [1j, -2j, 1 + 1j, -0.5 + 2j, 0.3 - 0.1j, 5 + 0.01j]
ROOTS2 = ROOTS + [0.7, -1e-2, 1e-5, 11, -1.1, 0.2]
CROOTS2 = CROOTS + [1 + 1e-3j, -3 - 4j, 1e-3 + 1j, 20j]
PHI = [0.01, 0.3, 1.0, 1.0001, 3.0]
EXC = [0, 1e-8, 1e-6, 1e-3, 0.1, 1, -1, 2j, 10]
Z = [0, 1e-3, 0.3, 1, 5]


def cases(tier):
    q = tier == "quick"
    R, Cx = (ROOTS, CROOTS) if q else (ROOTS2, CROOTS2)
    out = []
    trip = list(itertools.combinations_with_replacement(range(len(R)), 3))
    for lead in (None, 1, -1, 2, 0.1, 1e3, 1j):
        for shape in ("flat", "grid", "scalar"):
            out.append({"kind": "roots", "lead": None if lead is None else [complex(lead).real, complex(lead).imag],
                        "shape": shape, "roots": "real" if q else "real2"})
            out.append({"kind": "roots", "lead": None if lead is None else [complex(lead).real, complex(lead).imag],
                        "shape": shape, "roots": "pairs" if q else "pairs2"})
            out.append({"kind": "roots", "lead": None if lead is None else [complex(lead).real, complex(lead).imag],
                        "shape": shape, "roots": "complex" if q else "complex2"})
    del trip
    out.append({"kind": "shifted", "q": q})
    out.append({"kind": "integer"})
    out.append({"kind": "zero"})
    out.append({"kind": "cbrt"})
    for n in (1, 2, 3) if q else (1, 2, 3, 4):
        phis = PHI if n < 3 else ([0.01, 1.0, 1.0001] if q or n == 4 else [0.01, 0.3, 1.0, 1.0001])
        excs = EXC if n < 3 else ([0, 1e-6, 0.1, -0.1, 2j] if q or n == 4 else [0, 1e-6, 1e-3, 0.1, -0.1, 2j])
        zs = Z if n < 4 else [0, 0.3, 5]
        for phi in itertools.combinations_with_replacement(phis, n):
            for basis in ("eye", "unitary", "real") if n > 1 else ("eye",):
                for opt in ("default", "nofloor", "many") if n < 3 else ("default",):
                    out.append({"kind": "lq", "phi": phi, "exc": [[complex(e).real, complex(e).imag] for e in excs], "z": zs, "basis": basis, "opt": opt})
        out.append({"kind": "mixed", "n": n, "phis": phis, "exc": [[complex(e).real, complex(e).imag] for e in excs], "z": zs})
    return out


def case_name(c):
    if c["kind"] == "roots":
        return "cubic/%s/lead=%s/%s" % (c["roots"], c["lead"], c["shape"])
    if c["kind"] == "lq":
        return "lqpqm/%s/%s/%s" % (",".join("%g" % p for p in c["phi"]), c["basis"], c["opt"])
    if c["kind"] == "mixed":
        return "lqpqm/mixed/%d" % c["n"]
    return "cubic/" + c["kind"]


def symmetric(X):
    return X.sum(axis=0), X[0] * X[1] + X[1] * X[2] + X[2] * X[0], X[0] * X[1] * X[2]


def check_cubic(ctx, key, coef, lead, X, M):
    """coef: A, B, C of the monic polynomial; M: bound of the root magnitudes"""
    M = np.maximum(M, 1e-60)
    for i, (e, c) in enumerate(zip(symmetric(X), (-coef[0], coef[1], -coef[2]))):
        err = np.abs(e - c) / M ** (i + 1)
        ok = err < 1e-10
        ctx.check(np.all(ok), "%s:e%d" % (key, i + 1), lambda: "coefficients %s roots %s" % (
            [np.ravel(a)[np.argmin(np.ravel(ok))] for a in coef], [np.ravel(x)[np.argmin(np.ravel(ok))] for x in X]))


def triples(name):
    R, Cx = (ROOTS2, CROOTS2) if name.endswith("2") else (ROOTS, CROOTS)
    name = name.rstrip("2")
    if name == "real":
        return np.array(list(itertools.combinations_with_replacement(R, 3)), float)
    if name == "pairs":
        return np.array([(r, c, np.conj(c)) for r in R for c in Cx])
    return np.array(list(itertools.combinations_with_replacement(list(map(complex, R[:8])) + Cx, 3)))


def run(case, ctx):
    from ssspy.linalg import cbrt, lqpqm2, solve_cubic

    kind = case["kind"]
    if kind == "roots":
        t = triples(case["roots"])
        A, B, C = -t.sum(axis=1), t[:, 0] * t[:, 1] + t[:, 1] * t[:, 2] + t[:, 0] * t[:, 2], -t.prod(axis=1)
        if case["roots"].startswith("pairs"):
            A, B, C = A.real, B.real, C.real
        M = np.max(np.abs(t), axis=1)
        lead = None if case["lead"] is None else complex(*case["lead"])
        if lead is not None and lead.imag == 0:
            lead = lead.real
        args = (A, B, C) if lead is None else (lead * np.ones(len(A)), lead * A, lead * B, lead * C)
        if case["shape"] == "grid":
            k = len(A) // 6 * 6
            args = tuple(a[:k].reshape(2, -1, 3) for a in args)
            A, B, C, M = (a[:k].reshape(2, -1, 3) for a in (A, B, C, M))
        keep = [a.copy() for a in args]
        if case["shape"] == "scalar":  # one equation at a time
            X = np.stack([solve_cubic(*(a[i] for a in args)) for i in range(len(A))], axis=-1)
        else:
            X = solve_cubic(*args)
        ctx.check(X.shape == (3,) + A.shape, "shape", lambda: str(X.shape))
        check_cubic(ctx, "roots", (A, B, C), lead, X, M)
        one = solve_cubic(*args, all=False) if case["shape"] != "scalar" else X[0]
        ctx.check(one.shape == A.shape and np.allclose(np.min(np.abs(X - one), axis=0), 0), "one", "not one of the roots")
        for a, b in zip(args, keep):
            ctx.check(np.array_equal(a, b), "mutated", "argument changed")
        for r in t:
            ctx.state("cubic", r, str(lead))
        ctx.step(A.size)
        ctx.trace()
        return ctx.outcome("cubic")
    if kind == "shifted":
        va = [0.1, 0.2, 0.3, 0.7, -0.3, 1.1, 1e-3, 13.7, -5.3, 0.01, 1 / 3, 0.9, -0.6]
        vc = [0, 1, -1, 8, -0.5, 1e-6, -1e-6, 1e3, -1e3]
        if not case["q"]:
            va += [0.11 * k for k in range(1, 40)]
            vc += [1e-9, 27, 0.1, -0.1]
        for p in (0, 1e-12, -1e-12, 1e-6, -1e-6, 1e-3, -1e-3, 1, -1):
            a, c = map(np.ravel, np.meshgrid(va, vc))
            A, B, C = 3 * a, 3 * a * a + p, a**3 + p * a + c
            X = solve_cubic(A, B, C)
            M = np.abs(a) + np.cbrt(np.abs(c)) + np.sqrt(abs(p))
            check_cubic(ctx, "p=%g" % p, (A, B, C), None, X, M)
            ctx.step(a.size)
            ctx.state("shift", p, a, c)
        ctx.trace()
        return ctx.outcome("cubic")
    if kind == "integer":
        g = np.array(list(itertools.product(range(-3, 4), repeat=3)))
        for dt in (np.int64, np.int32, np.float32, np.float64, np.complex128):
            A, B, C = g.T.astype(dt)
            X = solve_cubic(A, B, C)
            co = [a.astype(float) if dt != np.complex128 else a for a in (A, B, C)]
            M = 1 + np.max(np.abs(co), axis=0)
            if dt == np.float32:
                M = M * 1e3
            check_cubic(ctx, np.dtype(dt).name, co, None, X, M)
            ctx.step(len(A))
            for D in (1, 2, -1):
                X = solve_cubic(D * np.ones_like(A), A, B, C)
                check_cubic(ctx, "%s/%d" % (np.dtype(dt).name, D), [c / D for c in co], None, X, M)
                ctx.step(len(A))
        ctx.state("integer", g)
        ctx.trace()
        return ctx.outcome("cubic")
    if kind == "zero":
        for lead in ([0.0], [1.0, 0.0], [0j], [1.0, 2.0, 0.0, 3.0]):
            z = np.ones(len(lead))
            try:
                r = solve_cubic(np.array(lead), z, 2 * z, 3 * z)
                ctx.fail("accepted", "leading coefficients %s accepted: %s" % (lead, r))
            except np.linalg.LinAlgError:
                ctx.step()
            ctx.state(lead)
        ctx.trace()
        return ctx.outcome("rejected")
    if kind == "cbrt":
        v = np.array([0, 1, -1, 8, -8, 0.001, 1e12, -1e-12, 3.3])
        ctx.close(cbrt(v), np.sign(v) * np.abs(v) ** (1 / 3), "real", rtol=1e-12)
        w = np.array([a * np.exp(1j * p) for a in (0, 1e-6, 1, 2, 1e6) for p in np.linspace(-3.1, 3.1, 25)])
        y = cbrt(w)
        ctx.check((np.abs(y**3 - w) <= 1e-12 * np.abs(w)).all(), "complex", "cube differs")
        ctx.check((np.abs(np.angle(y)) <= np.pi / 3 + 1e-9).all(), "principal", "not the principal root")
        ctx.state(w)
        ctx.step(len(v) + len(w))
        ctx.trace()
        return ctx.outcome("cbrt")
    if kind == "mixed":  # bins with different matrices solved together equal bins solved alone
        n = case["n"]
        exc = [complex(*e) for e in case["exc"]]
        progs = list(itertools.product(itertools.product(case["phis"], repeat=n), itertools.product(exc, repeat=n), case["z"]))
        progs = progs[:: max(1, len(progs) // 600)]
        rng = np.random.default_rng(n)
        U = [np.linalg.qr(rng.standard_normal((n, n)) + 1j * rng.standard_normal((n, n)))[0] for _ in progs]
        H = np.stack([(u * np.array(p[0])) @ u.conj().T for u, p in zip(U, progs)])
        H = (H + np.swapaxes(H.conj(), -1, -2)) / 2
        v = np.stack([u @ np.array(p[1]) for u, p in zip(U, progs)])
        z = np.array([float(p[2]) for p in progs])
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            Q = lqpqm2(H, v, z, max_iter=300)
            for i, p in enumerate(progs):
                ctx.step()
                ctx.state("mixed", p)
                one = lqpqm2(H[i : i + 1], v[i : i + 1], z[i : i + 1], max_iter=300)[0]
                a, b = (lq.objective(q, H[i], v[i], z[i]) for q in (Q[i], one))
                ctx.check(abs(a - b) <= 1e-6 * max(1, abs(b)), "bins:%d" % i, "batch value %.10g, alone %.10g" % (a, b))
        ctx.trace()
        return ctx.outcome("lqpqm")
    # ---- LQPQM
    phi, n = np.array(case["phi"]), len(case["phi"])
    rng = np.random.default_rng(n)
    if case["basis"] == "eye":
        U = np.eye(n)
    else:
        U = rng.standard_normal((n, n)) + (0 if case["basis"] == "real" else 1j * rng.standard_normal((n, n)))
        U = np.linalg.qr(U)[0]
    exc = [complex(*e) for e in case["exc"]]
    if case["opt"] == "nofloor":
        exc = [e for e in exc if abs(e) >= 1e-3]
    vt = np.array(list(itertools.product(exc, repeat=n)))
    if case["basis"] == "real":
        vt = np.abs(vt)
    vt, zz = np.repeat(vt, len(case["z"]), axis=0), np.tile(np.array(case["z"], float), len(vt))
    keep = ~((np.sum(phi * np.abs(vt) ** 2, axis=1) + zz <= 0) & (phi.max() <= 0))
    vt, zz = vt[keep], zz[keep]
    v = vt @ U.T
    H = (U * phi) @ U.conj().T
    H = (H + H.conj().T) / 2
    Hs = np.repeat(H[None], len(v), axis=0)
    kw = {"default": {}, "nofloor": {"flooring_fn": None, "max_iter": 300}, "many": {"max_iter": 300, "singular_fn": None}}[case["opt"]]
    kc = [a.copy() for a in (Hs, v, zz)]
    with warnings.catch_warnings(record=True) as wl:
        warnings.simplefilter("always")
        Q = lqpqm2(Hs, v, zz, **kw)
    for a, b in zip((Hs, v, zz), kc):
        ctx.check(np.array_equal(a, b), "mutated", "argument changed")
    ctx.check(Q.shape == v.shape, "shape", lambda: str(Q.shape))
    for i in range(len(v)):
        ctx.step()
        ctx.state("lq", phi, vt[i], zz[i], case["basis"])
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter("always")
            q1 = lqpqm2(Hs[i : i + 1], v[i : i + 1], zz[i : i + 1], **kw)[0] if case["opt"] != "default" or n < 3 else Q[i]
        name = "v=%s,z=%g" % (",".join("%g%+gj" % (c.real, c.imag) if c.imag else "%g" % c.real for c in vt[i]), zz[i])
        if any("converge" in str(w.message) for w in (ws if case["opt"] != "default" or n < 3 else wl)):
            ctx.outcome("warned")
            if case["opt"] == "default":
                continue
        tiny = (phi * np.abs(vt[i]) ** 2 < 1e-10).any()
        best = lq.minimum(phi, vt[i], zz[i])[0]
        tol = (1e-4 if tiny else 1e-7) * max(1, abs(best))
        for tag, q in (("batch", Q[i]), ("single", q1)):
            val = lq.objective(q, H, v[i], zz[i])
            if not ctx.check(np.isfinite(q).all() and val <= best + tol, "minimum:%s:%s" % (tag, name), "value %.10g, global minimum %.10g" % (val, best)):
                continue
            g = lq.gradient(q, H, v[i], zz[i])
            ctx.check(np.linalg.norm(g) <= (1e-3 if tiny else 1e-5) * max(1, np.linalg.norm(q)), "stationary:%s:%s" % (tag, name), "gradient %g" % np.linalg.norm(g))
        ctx.outcome("lqpqm")
    ctx.trace()
