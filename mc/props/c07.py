"""Part 1 (functions): for every number of sources, letter of (filter, weighted covariances / separated signal,
weights), option value (overwriting, flooring function, weight layout) and every sequence of pairs up to the bound,
the real update function runs and its result is compared with a one-frequency-at-a-time textbook reference and with
the optimality conditions of the documented subproblem.  The 2x2 space of integer Hermitian covariances x Gaussian
integer filters is enumerated completely.  Part 2 (methods): from every state reached by auxiliary-function FDICA and
IVA (every option), the next state must be the reference step."""

import itertools

import numpy as np

from .. import configs as C
from .. import drive as D
from .. import inputs as I
from ..ref import aux as A
from ..ref import spatial as S
from ..stepcheck import compare

ID = "C07"
TITLE = "Spatial updates solve their documented subproblems exactly"
BOUNDS = {
    "quick": "functions: 2-5 sources, 1-3 bins, 4 letters, all ordered pairs and all pair sequences of length 2 (3 for two sources), 9 integer "
             "covariances^2 x 8 integer filters; methods: all options, 2-5 channels, 4 steps, 3 letters, and one frequency bin",
    "thorough": "functions: 2-7 sources, 16 letters, pair sequences of length 3 (2-3 sources); methods: all options, 2-6 channels, 6 steps, 8 letters, and one frequency bin",
}
ASSUMPTIONS = ["weighted covariances are positive definite (well-posed subproblems)",
               "rows determined by a generalized eigenvector are compared up to a unit factor"]


def ordered_pairs(n):
    return [(a, b) for a in range(n) for b in range(n) if a != b]


INT_H = [[[1, 0], [0, 1]], [[2, 1], [1, 2]], [[2, 1j], [-1j, 2]], [[1, 0], [0, 3]], [[3, 1 + 1j], [1 - 1j, 2]],
         [[4, -1], [-1, 1]], [[2, -1j], [1j, 1]], [[5, 0], [0, 1]], [[2, 1 - 1j], [1 + 1j, 4]]]
INT_W = [[[1, 0], [0, 1]], [[1, 1], [0, 1]], [[1, 1j], [1, 0]], [[0, 1], [1, 0]], [[2, 0], [1j, 1]],
         [[1, -1], [1, 1]], [[1j, 0], [1, -1j]], [[1, 2], [3, 4]]]
FLOORS = ["default", "none", "add"]


def fl_impl(name):
    if name == "none":
        return None
    if name == "add":
        return lambda x: x + 0.25
    return "default"


def fl_ref(name):
    return {"none": lambda v: v, "add": lambda v: v + 0.25, "default": None}[name]


def fl_kw(name):
    f = fl_impl(name)
    return {} if f == "default" else {"flooring_fn": f}


def cases(tier):
    q = tier == "quick"
    out = []
    for n in range(2, 6 if q else 8):
        for k in range(4 if q else 16):
            for real in (False, True):
                out.append({"kind": "ip1", "n": n, "k": k, "real": real})
                out.append({"kind": "iss1", "n": n, "k": k, "real": real})
                if n <= 5:
                    out.append({"kind": "ipa", "n": n, "k": k, "real": real})
            pr = ordered_pairs(n)
            for p in pr:
                out.append({"kind": "pairs", "n": n, "k": k, "seqs": [[p]], "neg": True})
            if n <= 4:
                for p in pr:
                    rest = pr if n > (2 if q else 3) else None
                    seqs = [[p, r] for r in rest] if rest else [[p, r, s] for r in pr for s in pr]
                    out.append({"kind": "pairs", "n": n, "k": k, "seqs": seqs, "neg": False})
            out.append({"kind": "selectors", "n": n, "k": k})
            for nb in (1, 2, 3):
                if n <= 4:
                    out.append({"kind": "vcd", "n": n, "k": k, "nb": nb})
    for i in range(len(INT_H)):
        for j in range(len(INT_H)):
            out.append({"kind": "int2", "i": i, "j": j})
    seen = set()
    for cfg in C.all_configs(1):
        if not cfg["cls"].startswith("Aux"):
            continue
        fam = C.family(cfg)
        cfg = C.with_kw(cfg, scale_restoration=False)
        if fam == "fdica":
            cfg = C.with_kw(cfg, permutation_alignment=False)
        for n in (2, 3, 4, 5) if q else (2, 3, 4, 5, 6):
            for inp in ("mix:0", "quiet:1", "loud:2") if q else ("mix:0", "quiet:1", "loud:2", "gen:3", "mix:4", "tilt:6", "mix:7", "mix:8"):
                N = 4 if q else 6
                if cfg["kw"]["spatial_algorithm"] == "IPA" and inp[:3] in ("qui", "gen"):
                    inp = "gen:5"  # the absolute floors of IPA act on quiet data
                    N = 3  # on unstructured data IPA runs into its absolute floors (ill-conditioned states) later
                c = {"kind": "class", "cfg": cfg, "n": n, "inp": inp, "N": N}
                if repr(c) not in seen:
                    seen.add(repr(c))
                    out.append(c)
                if inp == "mix:0" and n < 4 and repr(dict(c, F=1)) not in seen:  # one frequency bin
                    seen.add(repr(dict(c, F=1)))
                    out.append(dict(c, F=1))
    return out


def case_name(case):
    if case["kind"] == "class":
        return "%s/%d/%s" % (C.cfg_name(case["cfg"]), case["n"], case["inp"]) + ("/1bin" if "F" in case else "")
    return "-".join("%s=%s" % (k, v) for k, v in case.items() if k != "seqs") + (
        "-%s" % (tuple(case["seqs"][0][0]),) if "seqs" in case else "")


def problem(n, k, F=3, T=None, real=False):
    T = T or 4 * n + 2
    X = I.generic(k, n, F, T, complex_=not real)
    W = I.generic(100 + k, F, n, n, complex_=not real)
    phi = I._rs(7, k, n).uniform(0.1, 3.0, size=(n, F, T))
    U = np.stack([S.weighted_cov(X[:, f], phi[:, f]) for f in range(F)])
    if real:
        U = U.real
    Y = np.einsum("fnc,cft->nft", W, X)
    return X, W, phi, U, Y


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def done(ctx, name, *state):
    ctx.step()
    ctx.trace()
    ctx.state(*state)
    ctx.outcome(name)


def run_ip1(case, ctx):
    from ssspy.bss._update_spatial_model import update_by_ip1

    n = case["n"]
    for F in (1, 3):
        _, W, _, U, _ = problem(n, case["k"], F, real=case["real"])
        for fl in FLOORS:
            ref = np.stack([S.ip1(W[f], U[f], fl=fl_ref(fl)) for f in range(F)])
            for ow in (None, True, False):
                w, u = W.copy(), U.copy()
                kw = fl_kw(fl)
                if ow is not None:
                    kw["overwrite"] = ow
                got = update_by_ip1(w, u, **kw)
                key = "ip1:%d:%s:%s" % (F, fl, ow)
                ctx.close(got, ref, key, rtol=1e-7)
                ctx.check(np.array_equal(u, U), key + ":cov", "covariance modified")
                ctx.check(np.array_equal(w, W if ow is False else got), key + ":overwrite", "filter argument not as documented")
                done(ctx, "ip1", got)
            if fl == "none":  # optimality: each row in turn minimizes the objective over that row
                cur = W.astype(complex).copy()
                for f in range(F):
                    for s in range(n):
                        before = S.ip_objective(cur[f], U[f])
                        cur[f, s] = got[f, s]
                        w = cur[f, s].conj()
                        e = cur[f] @ U[f, s] @ w
                        tgt = np.eye(n)[s] * 1.0
                        ctx.close(e, tgt, "ip1:cond", rtol=1e-7, msg="W U w = e")
                        ctx.check(S.ip_objective(cur[f], U[f]) <= before + 1e-9 * (1 + abs(before)), "ip1:descent")


def run_iss1(case, ctx):
    from ssspy.bss._update_spatial_model import update_by_iss1

    n = case["n"]
    for F in (1, 3):
        _, _, phi, _, Y = problem(n, case["k"], F, real=case["real"])
        for fl in FLOORS:
            for lay in ("full", "broadcast"):
                ph = phi if lay == "full" else phi[:, :1]
                full = np.broadcast_to(ph, phi.shape)
                ref = np.stack([S.iss1(Y[:, f], full[:, f], fl_ref(fl)) for f in range(F)], 1)
                y, p = Y.copy(), ph.copy()
                got = update_by_iss1(y, p, **fl_kw(fl))
                key = "iss1:%d:%s:%s" % (F, fl, lay)
                ctx.close(got, ref.real if case["real"] else ref, key, rtol=1e-7)
                ctx.check(np.array_equal(y, Y) and np.array_equal(p, ph), key + ":args", "arguments modified")
                done(ctx, "iss1", got)


def run_ipa(case, ctx):
    from ssspy.bss._update_spatial_model import update_by_ipa

    n, real = case["n"], case["real"]
    for F in (1, 2):
        _, _, phi, _, Y = problem(n, case["k"], F, real=real)
        exact = np.stack([S.ipa(Y[:, f], phi[:, f]) for f in range(F)], 1)
        for normalization in (True, False):
            for it in (1, 2, 60):
                y, p = Y.copy(), phi.copy()
                got = update_by_ipa(y, p, normalization=normalization, max_iter=it)
                key = "ipa:%d:%s:%d" % (F, normalization, it)
                ref = exact if it == 60 else np.stack(
                    [S.ipa(Y[:, f], phi[:, f], it, normalization) for f in range(F)], 1)
                ctx.close(got, ref.real if real else ref, key, rtol=1e-6)
                ctx.check(np.array_equal(y, Y) and np.array_equal(p, phi), key + ":args", "arguments modified")
                done(ctx, "ipa", got)
        lay = update_by_ipa(Y.copy(), phi[:, :1].copy(), max_iter=60)
        ref = np.stack([S.ipa(Y[:, f], phi[:, 0]) for f in range(F)], 1)
        ctx.close(lay, ref.real if real else ref, "ipa:broadcast", rtol=1e-6)
        # the reference itself is the global minimum: dense grid around and far from the solution
        if F == 1:
            y, p = Y[:, 0].astype(complex), phi[:, 0]
            J, _, _ = S.ipa_reduced(y, p, 0)
            q = S.ipa_q(y, p, 0)
            j0 = J(q)
            for d in itertools.product((-2, -0.5, -1e-3, 0, 1e-3, 0.5, 2), repeat=2):
                for axis in range(n - 1):
                    e = np.zeros(n - 1, complex)
                    e[axis] = d[0] + 1j * d[1]
                    ctx.check(J(q + e) >= j0 - 1e-9 * (1 + abs(j0)), "ipa:oracle", "reference is not optimal")


def run_pairs(case, ctx):
    from ssspy.bss._update_spatial_model import update_by_ip2, update_by_ip2_one_pair, update_by_iss2

    n, F = case["n"], 2
    _, W, phi, U, Y = problem(n, case["k"], F)
    for seq in case["seqs"]:
        seq = [tuple(p) for p in seq]
        variants = [seq]
        if case["neg"]:
            (a, b), = seq
            variants += [[(a - n, b)], [(a, b - n)], [(a - n, b - n)]]
        touched = {i for p in seq for i in p}
        ref_w = np.stack([S.ip2(W[f], U[f], seq) for f in range(F)])
        ref_y = np.stack([S.iss2(Y[:, f], phi[:, f], seq) for f in range(F)], 1)
        for v in variants:
            key = "pair%s" % (v,)
            sel = lambda k, v=v: iter(v)  # noqa: E731
            got = update_by_ip2(W.copy(), U.copy(), pair_selector=sel)
            ctx.close(S.align_rows(got, ref_w), ref_w, "ip2:" + key, rtol=1e-6)
            for i in set(range(n)) - touched:
                ctx.check(np.array_equal(got[:, i], W[:, i]), "ip2:%s:others" % key, "row %d changed" % i)
            done(ctx, "ip2", got)
            y = Y.copy()
            got = update_by_iss2(y, phi.copy(), pair_selector=sel)
            ctx.close(S.align_rows(got, ref_y), ref_y, "iss2:" + key, rtol=1e-6)
            ctx.check(np.array_equal(y, Y), "iss2:%s:args" % key, "argument modified")
            done(ctx, "iss2", got)
        if len(seq) == 1:
            m, k = seq[0]
            w, u = W.copy(), U[:, [m, k]].copy()
            rows = update_by_ip2_one_pair(w, u, pair=(m, k))
            ctx.close(S.align_rows(rows, ref_w[:, [m, k]]), ref_w[:, [m, k]], "one_pair", rtol=1e-6)
            ctx.check(np.array_equal(w, W) and np.array_equal(u, U[:, [m, k]]), "one_pair:args", "arguments modified")
            done(ctx, "one_pair", rows)
            for ow in (True, False):
                for fl in FLOORS[:2]:  # an additive floor would act on the arbitrary scale of an eigenvector
                    w = W.copy()
                    got = update_by_ip2(w, U, pair_selector=lambda _: [(m, k)], overwrite=ow, **fl_kw(fl))
                    r = np.stack([S.ip2(W[f], U[f], seq, fl_ref(fl)) for f in range(F)])
                    ctx.close(S.align_rows(got, r), r, "ip2:%s:%s" % (ow, fl), rtol=1e-6)
                    ctx.check(np.array_equal(w, got if ow else W), "ip2:overwrite%s" % ow, "filter argument not as documented")
                    if ow:
                        got = update_by_iss2(Y, phi, pair_selector=lambda _: [(m, k)], **fl_kw(fl))
                        r = np.stack([S.iss2(Y[:, f], phi[:, f], seq, fl_ref(fl)) for f in range(F)], 1)
                        ctx.close(S.align_rows(got, r), r, "iss2:%s" % fl, rtol=1e-6)
            used = []

            def floor(v):
                used.append(np.shape(v))
                return np.maximum(v, 1e-12)

            for fn, args in ((update_by_ip2, (W.copy(), U)), (update_by_iss2, (Y, phi))):
                got = fn(*args, pair_selector=lambda _: [(m, k)], flooring_fn=floor)
                ctx.check(used, "floor:%s" % fn.__name__, "the given flooring function was not used")
                r = ref_w if fn is update_by_ip2 else ref_y
                ctx.close(S.align_rows(got, r), r, "floor:%s" % fn.__name__, rtol=1e-6)
                used.clear()
            ph = phi[:, :1]
            got = update_by_iss2(Y, ph, pair_selector=lambda _: [(m, k)])
            r = np.stack([S.iss2(Y[:, f], ph[:, 0], seq) for f in range(F)], 1)
            ctx.close(S.align_rows(got, r), r, "iss2:broadcast", rtol=1e-6)


def run_selectors(case, ctx):
    """default pair orders of the functions"""
    from ssspy.bss._update_spatial_model import update_by_ip2, update_by_iss2

    n, F = case["n"], 2
    _, W, phi, U, Y = problem(n, case["k"], F)
    seq = A.pairs_for("IP2", None, n)
    ref = np.stack([S.ip2(W[f], U[f], seq) for f in range(F)])
    got = update_by_ip2(W.copy(), U)
    ctx.close(S.align_rows(got, ref), ref, "ip2:default", rtol=1e-6)
    seq2 = [(i % n, (i + 1) % n) for i in range(0, n, 2)]
    ref = np.stack([S.iss2(Y[:, f], phi[:, f], seq2) for f in range(F)], 1)
    got2 = update_by_iss2(Y, phi)
    ctx.close(S.align_rows(got2, ref), ref, "iss2:default", rtol=1e-6)
    done(ctx, "default-selectors", got, got2)


def run_vcd(case, ctx):
    from ssspy.bss._update_spatial_model import update_by_block_decomposition_vcd as vcd

    n, nb, k = case["n"], case["nb"], case["k"]
    for B, coupling in [(1, 1), (2, 1)] + [(1, g) for g in (1e-2, 1e-4, 1e-6, 0)] * (nb > 1):  # neighbouring bins nearly or exactly unrelated
        W = I.generic(k, B, nb, n, n)
        M = I.generic(50 + k, B, n, nb * n, 3 * nb * n)
        R = np.einsum("bnit,bnjt->bnij", M, M.conj()) / M.shape[-1]
        R = R.reshape(B, n, nb, n, nb, n).transpose(0, 2, 4, 1, 3, 5).copy()
        for i in range(nb):
            for j in range(nb):
                R[:, i, j] *= 1 if i == j else coupling
        ref = np.stack([S.vcd(W[b], R[b]) for b in range(B)])
        for ow in (True, False, None):
            for sing in ("default", "none", "eps"):
                kw = {} if ow is None else {"overwrite": ow}
                if sing != "default":
                    kw["singular_fn"] = None if sing == "none" else (lambda x: np.abs(x) < 1e-10)
                w, r = W.copy(), np.ascontiguousarray(R)
                got = vcd(w, r, **kw)
                key = "vcd:%d:%g:%s:%s" % (B, coupling, ow, sing)
                ctx.close(got, ref, key, rtol=1e-6)
                ctx.check(np.array_equal(w, W if ow is False else got), key + ":overwrite", "filter argument not as documented")
                done(ctx, "vcd", got)
        for b in range(B):
            ctx.check(S.vcd_objective(got[b], R[b]) <= S.vcd_objective(W[b], R[b]) + 1e-9, "vcd:descent")


def run_int2(case, ctx):
    """all integer 2x2 problems: pairwise projection / steering reach the global optimum, IP1 the coordinate optimum"""
    from ssspy.bss._update_spatial_model import update_by_ip1, update_by_ip2, update_by_iss1, update_by_iss2

    U = np.array([[INT_H[case["i"]], INT_H[case["j"]]]] * len(INT_W), dtype=complex)
    W = np.array(INT_W, dtype=complex)
    F = len(W)
    got1 = update_by_ip1(W.copy(), U.copy())
    ref1 = np.stack([S.ip1(W[f], U[f]) for f in range(F)])
    ctx.close(got1, ref1, "ip1", rtol=1e-8)
    # the optimum over both rows does not depend on the start
    lam = np.linalg.eigvals(np.linalg.inv(U[0, 1]) @ U[0, 0]).real
    best = 2 + np.log(np.linalg.det(U[0, 1]).real) + np.log(lam.max())
    alt = 2 + np.log(np.linalg.det(U[0, 1]).real) + np.log(lam.min())
    opt = None
    for h in ((0, 1), (1, 0)):
        V = np.stack([S.ip2_pair(np.eye(2), U[0, 0], U[0, 1], 0, 1)])
        opt = S.ip_objective(V[0], U[0])
    del best, alt
    for sel in ([(0, 1)], [(1, 0)], [(0, 1), (1, 0)]):
        got = update_by_ip2(W.copy(), U.copy(), pair_selector=lambda n: iter(sel))
        for f in range(F):
            J = S.ip_objective(got[f], U[f])
            ctx.check(J <= opt + 1e-9 * (1 + abs(opt)), "ip2:%s" % (sel,), lambda: "objective %.12g optimum %.12g" % (J, opt))
            for a in range(2):  # joint diagonalization and normalization
                e = got[f] @ U[f, a] @ got[f, a].conj()
                ctx.close(e, np.eye(2)[a], "ip2:cond", rtol=1e-7)
        done(ctx, "int2", got)
    # the coordinate optimum is never below the joint optimum, and any other filter is no better
    for f in range(F):
        ctx.check(S.ip_objective(got1[f], U[f]) >= opt - 1e-9 * (1 + abs(opt)), "oracle", "reference optimum is not optimal")
        ctx.check(S.ip_objective(W[f], U[f]) >= opt - 1e-9 * (1 + abs(opt)), "oracle", "reference optimum is not optimal")
    # the same problems in the separated domain: Y with mean_t phi_n y y^H = U_n through two weight patterns
    L = np.linalg.cholesky(U[0, 0]), np.linalg.cholesky(U[0, 1])
    x = np.concatenate([L[0], L[1]], axis=1) * np.sqrt(4)  # 4 frames
    phi = np.array([[1, 1, 1e-3, 1e-3], [1e-3, 1e-3, 1, 1]], float)
    Y = np.einsum("fnc,ct->nft", W, x)
    ph = np.repeat(phi[:, None], F, axis=1)
    y1 = update_by_iss1(Y, ph)
    r1 = np.stack([S.iss1(Y[:, f], phi) for f in range(F)], 1)
    ctx.close(y1, r1, "iss1", rtol=1e-8)
    V = S.weighted_cov(x, phi)
    o = S.ip_objective(S.ip2_pair(np.eye(2), V[0], V[1], 0, 1), V)
    for sel in ([(0, 1)], [(1, 0)]):
        y2 = update_by_iss2(Y, ph, pair_selector=lambda n: iter(sel))
        for f in range(F):
            T = y2[:, f] @ np.linalg.pinv(x)
            ctx.close(T @ x, y2[:, f], "iss2:span", rtol=1e-8)
            J = S.ip_objective(T, V)
            ctx.check(J <= o + 1e-9 * (1 + abs(o)), "iss2:%s" % (sel,), lambda: "objective %.12g optimum %.12g" % (J, o))
        done(ctx, "int2-iss", y2)


def run_class(case, ctx):
    cfg, n = case["cfg"], case["n"]
    X = C.shape_input(cfg, case["inp"], n, case.get("F", 3), 24 * n)
    rec = D.Recorder()
    D.run(cfg, X, case["N"], callbacks=rec)
    step = A.fdica_step if C.family(cfg) == "fdica" else A.iva_step
    alg = cfg["kw"]["spatial_algorithm"]
    for i, (a, b) in enumerate(zip(rec.states, rec.states[1:])):
        compare(ctx, "step%d" % i, lambda p: step(cfg, p, X), a, b,
                align=("demix_filter", "output") if alg in ("IP2", "ISS2") else ())
        done(ctx, "class", C.cfg_name(cfg), b)
