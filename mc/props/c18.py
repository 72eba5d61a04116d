"""Every shuffling (all (N!)^F tuples of per-bin permutations) of N aligned activity patterns over F bins x data kinds x
accompanying arrays x overwrite option is given to both solvers.  The permutation actually applied is read off an index
array; every greedy choice is compared with the exhaustive maximization of the criterion (following the choices made), all
accompanying arrays must have been permuted alike, and the correlation-based solver must restore the aligned order.
The methods that use the solvers (FDICA, cACGMM) are compared with the reference solver applied to their unaligned run."""

import itertools
import warnings

import numpy as np

from .. import configs as C
from .. import drive as D

ID = "C18"
TITLE = "Permutation solvers permute, consistently, and recover aligned order"
BOUNDS = {
    "quick": "all shuffles of (sources,bins) in {(1,3),(2,1..6),(3,1..4),(4,2)}, all near-aligned ones of (2,14), (2,19), (3,13), 5 data kinds, 6 sets of accompanying arrays, overwrite x global/local rounds; FDICA and cACGMM methods, also through their public alignment operation",
    "thorough": "adds (2,8),(3,5),(4,3), (2,11), (2,25), (3,17), (4,12), 3 data seeds for the smaller sizes, more rounds",
}
ASSUMPTIONS = ["choices are compared where the maximum is unique up to 1e-9"]
EPS = 1e-10


ITERS = [{"global_iter": g, "local_iter": l} for g, l in ((0, 0), (1, 0), (0, 1), (3, 0), (0, 4))]


def cases(tier):
    q = tier == "quick"
    out = []
    sizes = [(1, 3), (2, 1), (2, 2), (2, 4), (2, 6), (3, 1), (3, 2), (3, 3), (3, 4), (4, 2)]
    if not q:
        sizes += [(2, 8), (3, 5), (4, 3), (2, 11)]
    for N, F in [(2, 14), (2, 19), (3, 13)] + ([] if q else [(2, 25), (3, 17), (4, 12)]):  # beyond the neighbourhood windows
        for kind in ("noisy", "random", "silentsrc", "active"):
            for seed in (0, 1) if q else (0, 1, 2, 3):
                for solver in ("corr", "score", "score02", "score01", "score11"):
                    out.append({"kind": kind, "N": N, "F": F, "seed": seed, "solver": solver})
    for N, F in sizes:
        for kind in ("active", "noisy", "random", "silentbin", "silentsrc", "silentframe"):
            for seed in (0,) if q or (N, F) in ((3, 5), (4, 3), (2, 11)) else (0, 1, 2):
                for solver in ("corr", "corr_old", "score", "score22", "score13", "score30") + (() if q else ("score24",)):
                    out.append({"kind": kind, "N": N, "F": F, "seed": seed, "solver": solver})
    out.append({"kind": "args"})
    for c in C.all_configs(0):
        f = C.family(c)
        if f == "fdica" or c["cls"] == "CACGMM":
            for n in (2, 3):
                for inp in ("mix:0", "gen:1", "silentframe:2"):
                    for N in (1, 3):
                        if f == "fdica":
                            for al in (True, "spectrogram_correlation"):
                                out.append({"kind": "method", "cfg": C.with_kw(c, permutation_alignment=al), "n": n, "inp": inp, "N": N})
                        else:
                            for al in (True, "posterior_score", "amplitude_score", "amplitude_correlation"):
                                for it in ({}, {"global_iter": 2, "local_iter": 3}):
                                    if al == "amplitude_correlation" and it:
                                        continue
                                    out.append({"kind": "method", "cfg": C.with_kw(c, permutation_alignment=al, **it), "n": n, "inp": inp, "N": N})
                            for it in ITERS if q else ITERS + [{"global_iter": 5, "local_iter": 5}, {"local_iter": 3}]:
                                if al == "amplitude_correlation":
                                    break
                                for n in (2, 3):
                                    for inp in ("gen:3", "real:4"):
                                        out.append({"kind": "method", "cfg": C.with_kw(c, permutation_alignment=al, **it), "n": n, "inp": inp, "N": 1, "F": 11})
    seen, uniq = set(), []
    for c in out:
        if case_name(c) not in seen:
            seen.add(case_name(c))
            uniq.append(c)
    return uniq


def case_name(c):
    if c["kind"] == "method":
        return "%s/%d/%s/%d" % (C.cfg_name(c["cfg"]), c["n"], c["inp"], c["N"]) + ("/%d" % c["F"] if "F" in c else "")
    return "/".join(str(v) for v in c.values())


def data(kind, N, F, seed):
    rng = np.random.default_rng([N, F, seed, 3])
    T = 12 * max(N, 2)
    act = np.zeros((N, T))
    for k in range(N):
        act[k, k::N] = 1 + rng.random(len(act[k, k::N]))
    P = act[None] * (0.5 + rng.random((F, 1, 1))) * (1 + 0.1 * rng.random((F, N, T))) + 0.02 * rng.random((F, N, T))
    if kind == "noisy":
        P = P + 0.25 * rng.random((F, N, T))
    if kind == "random":
        P = rng.random((F, N, T))
    if kind == "silentbin":
        P[F // 2] = 0
    if kind == "silentsrc":
        P[F - 1, N - 1] = 0
    if kind == "silentframe":
        P[:, :, :2] = 0
    return P


def corr_reference(ctx, key, Y, perms, strict=True):
    """follow the applied permutations; every choice must maximize the correlation with the bins aligned before"""
    F, N, T = Y.shape
    A = np.abs(Y)
    P = A / np.maximum(np.sqrt((A**2).sum(axis=1, keepdims=True)), EPS)
    tot = [float(np.sum(P[f].sum(axis=0) ** 2)) for f in range(F)]
    order = sorted(range(F), key=lambda f: tot[f])
    ties = any(abs(tot[a] - tot[b]) <= 1e-9 * max(1, abs(tot[b])) for a, b in zip(order, order[1:]))
    if ties:
        return ctx.outcome("tie")
    acc = P[order[0]].copy()
    ctx.check(list(perms[order[0]]) == list(range(N)), key + ":start", "the reference bin was permuted")
    for f in order[1:]:
        G = acc @ P[f].T
        sc = {p: sum(G[k, p[k]] for k in range(N)) for p in itertools.permutations(range(N))}
        best = max(sc.values())
        mine = tuple(int(i) for i in perms[f])
        if not ctx.check(sc[mine] >= best - 1e-9 * max(1, abs(best)), key + ":choice%d" % f, lambda: "bin %d: %s scores %g, best %g" % (f, mine, sc[mine], best)):
            return
        acc = acc + P[f, list(mine)]


def score_reference(seq, giter, liter):
    """permutations chosen by the score-based rule, None where the maximum is not unique"""
    F, N, T = seq.shape
    m = seq.mean(axis=-1, keepdims=True)
    Z = (seq - m) / np.maximum(seq.std(axis=-1, keepdims=True), EPS)
    idx = np.tile(np.arange(N), (F, 1))
    PS = list(itertools.permutations(range(N)))

    def scores(a, b):
        """sum over sources of the correlation with the counterpart minus the correlations with the others, per ordering"""
        R = a @ b.T / T / np.maximum(b.std(axis=-1), EPS)  # R[i, j]: correlation of the i-th with the j-th counterpart
        return np.array([2 * sum(R[p[k], k] for k in range(N)) - R.sum() for p in PS])

    def pick(vals):
        best = max(vals)
        if sum(v >= best - 1e-9 * max(1, abs(best)) for v in vals) > 1 and len(PS) > 1:
            return None
        return PS[int(np.argmax(vals))]

    for _ in range(giter):
        c = Z.mean(axis=0)
        ps = [pick(list(scores(Z[f], c))) for f in range(F)]
        if None in ps:
            return None
        for f, p in enumerate(ps):
            Z[f], idx[f] = Z[f, list(p)], idx[f, list(p)]
    for _ in range(liter):
        for f in range(F):
            nb = {g for g in range(f - 3, f + 4) if g != f} | set(range(f // 2 - 1, f // 2 + 2)) | set(range(2 * f - 1, 2 * f + 2))
            nb = sorted(g for g in nb if 0 <= g < F)
            p = pick(list(sum(scores(Z[f], Z[g]) for g in nb)))
            if p is None:
                return None
            Z[f], idx[f] = Z[f, list(p)], idx[f, list(p)]
    return idx


def solve(name, seq, args, **kw):
    from ssspy.algorithm import permutation_alignment as new
    from ssspy.bss import _solve_permutation as old

    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if name == "corr":
            return new.correlation_based_permutation_solver(seq, *args, **kw)
        if name == "corr_old":
            return old.correlation_based_permutation_solver(seq, *args, **kw)
        if name != "score":
            kw = dict(kw, global_iter=int(name[5]), local_iter=int(name[6]))
        return new.score_based_permutation_solver(seq, *args, **kw)


def run(case, ctx):
    if case["kind"] == "args":
        return run_args(ctx)
    if case["kind"] == "method":
        return run_method(case, ctx)
    kind, N, F, name = case["kind"], case["N"], case["F"], case["solver"]
    base = data(kind, N, F, case["seed"])
    if name.startswith("corr"):
        ph = np.exp(2j * np.pi * np.random.default_rng(1).random(base.shape))
        base = base * ph if case["seed"] % 2 == 0 else base
    PS = list(itertools.permutations(range(N)))
    if F >= 12:  # all shuffles that differ from the aligned order in at most two (three sources: one) bins
        near = [(f, p) for f in range(F) for p in PS[1:]]
        pairs = [()] + [(a,) for a in near] + [(a, b) for a in near for b in near if a[0] < b[0] and N == 2]
        shuffles = [tuple(dict(ch).get(f, PS[0]) for f in range(F)) for ch in pairs]
    else:
        shuffles = list(itertools.product(PS, repeat=F))
    if len(shuffles) > 1300:
        shuffles = [s for s in shuffles if s[0] == PS[0]]  # up to a global relabelling
    extra = {"i": np.tile(np.arange(N), (F, 1)), "v": np.arange(F * N * 2.0).reshape(F, N, 2), "m": np.arange(F * N * 4.0).reshape(F, N, 2, 2) * (1 + 1j)}
    recovered = 0
    for si, sh in enumerate(shuffles):
        seq = np.stack([base[f, list(sh[f])] for f in range(F)])
        names = ["i", "iv", "vi", "ivm", "im", "mvi"][si % 6]
        args = [extra[c].copy() for c in names]
        ow = [None, True, False][(si // 6) % 3]
        kw = {} if ow is None else {"overwrite": ow}
        seq_in, args_in = seq.copy(), [a.copy() for a in args]
        ret = solve(name, seq_in, args_in, **kw)
        ctx.step()
        ctx.state(name, seq)
        key = "%s" % (si,)
        S, A = ret[0], (ret[1],) if len(args) == 1 else ret[1]
        if not ctx.check(len(A) == len(args) and S.shape == seq.shape, key + ":form", "return value"):
            continue
        perms = A[names.index("i")]
        if not ctx.check(all(sorted(p) == list(range(N)) for p in perms.tolist()), key + ":permutation", lambda: "applied %s" % perms.tolist()):
            continue
        for a, b in [(S, seq)] + list(zip(A, args)):
            exp = np.stack([b[f, perms[f]] for f in range(F)])
            ctx.check(np.array_equal(a, exp), key + ":consistent", "an array was not reordered by the applied permutation")
        for a, b, c in [(seq_in, seq, S)] + list(zip(args_in, args, A)):
            if ow is False:
                ctx.check(np.array_equal(a, b), key + ":overwritten", "argument changed although overwrite=False")
            else:
                ctx.check(np.array_equal(a, c), key + ":not overwritten", "argument does not hold the result although overwrite=True")
        if name.startswith("corr"):
            corr_reference(ctx, key, seq, perms)
            if kind in ("active", "noisy", "silentframe"):
                true = [tuple(sh[f][i] for i in perms[f]) for f in range(F)]
                ctx.check(len(set(true)) == 1, key + ":recover", lambda: "aligned to %s" % true)
                recovered += 1
            ctx.outcome("corr")
        else:
            g, l = {"score": (1, 1)}.get(name) or (int(name[5]), int(name[6]))
            exp = score_reference(seq, g, l)
            ctx.outcome("score" if exp is not None else "tie")
            if exp is not None:
                ctx.check(np.array_equal(perms, exp), key + ":choice", lambda: "applied %s, exhaustive maximization gives %s" % (perms.tolist(), exp.tolist()))
            moved = sum(p != sh[0] for p in sh)
            if g and kind in ("active", "silentframe") and F >= 3 and moved <= (F - 1) // 2 - (N > 2) and (N < 3 or F > 3):
                true = [tuple(sh[f][i] for i in perms[f]) for f in range(F)]
                ctx.check(len(set(true)) == 1, key + ":recover", lambda: "aligned to %s" % true)
        ctx.trace()
    # without accompanying arrays, only the sequence is returned
    seq = np.stack([base[f, list(shuffles[-1][f])] for f in range(F)])
    r0 = solve(name, seq.copy(), [])
    r1 = solve(name, seq.copy(), [extra["i"].copy()])
    ctx.check(isinstance(r0, np.ndarray) and np.array_equal(r0, r1[0]), "bare", "result without accompanying arrays differs")
    # a strided view is overwritten as well
    big = np.repeat(seq, 2, axis=-1)
    solve(name, big[..., ::2], [])
    ctx.check(np.array_equal(big[..., ::2], r0) and np.array_equal(big[..., 1::2], seq), "view", "view handled differently")
    for fl in ("none", "fn"):
        r = solve(name, seq.copy(), [], flooring_fn=None if fl == "none" else (lambda v: np.maximum(v, 1e-10)))
        if not kind.startswith("silent") or fl == "fn":
            ctx.check(np.array_equal(r, r0), "flooring:" + fl, "flooring function changes the result")


def run_args(ctx):
    s = np.random.default_rng(0).random((3, 2, 7))
    for name in ("corr", "corr_old", "score"):
        for bad in (np.zeros((2, 3)), np.zeros((3, 3, 7)), np.zeros((2, 2, 7))):
            for args in ([bad], [np.zeros((3, 2)), bad]):
                ctx.step()
                ctx.state(name, bad, len(args))
                try:
                    solve(name, s.copy(), args)
                    ctx.fail("shape:%s" % name, "accompanying array of shape %s accepted" % (bad.shape,))
                except ValueError:
                    pass
        for bad in (np.zeros((3, 2)), np.zeros((3, 2, 4, 4))):
            try:
                solve(name, bad, [])
                ctx.fail("ndim:%s" % name, "sequence of shape %s accepted" % (bad.shape,))
            except (AssertionError, ValueError):
                ctx.step()
    try:
        solve("score", s.copy(), [], multi_centroids=True)
        ctx.fail("multi_centroids", "unsupported option accepted")
    except (AssertionError, NotImplementedError, ValueError):
        ctx.step()
    ctx.trace()
    ctx.outcome("rejected")


def run_method(case, ctx):
    cfg, n = case["cfg"], case["n"]
    kw = cfg["kw"]
    al = kw["permutation_alignment"]
    fd = C.family(cfg) == "fdica"
    X = C.shape_input(cfg, case["inp"], n, case.get("F", 4), 14 * n)
    more = {"scale_restoration": False} if fd else {}
    base = {k: v for k, v in kw.items() if k not in ("permutation_alignment", "global_iter", "local_iter")}
    m0, Y0 = D.run(dict(cfg, kw=dict(base, permutation_alignment=False, **more)), X, case["N"])
    m1, Y1 = D.run(dict(cfg, kw=dict(base, **{k: v for k, v in kw.items() if k not in base}, **more)), X, case["N"])
    ctx.step(2 * case["N"])
    ctx.state(C.cfg_name(cfg), Y0)
    Y0, Y1 = Y0.transpose(1, 0, 2), Y1.transpose(1, 0, 2)
    F, N = Y0.shape[:2]
    perms = []
    for f in range(F):
        p = [p for p in itertools.permutations(range(N)) if np.array_equal(Y1[f], Y0[f, list(p)]) or np.allclose(Y1[f], Y0[f, list(p)], rtol=1e-9, atol=0)]
        if not ctx.check(len(p) >= 1, "permuted%d" % f, "aligned output is not a reordering of the unaligned one"):
            return
        perms.append(p[0])
    pairs = [("demix_filter", m0.demix_filter, m1.demix_filter)] if fd else [
        (a, np.swapaxes(getattr(m0, a), 0, 1), np.swapaxes(getattr(m1, a), 0, 1)) for a in ("mixing", "covariance", "posterior")]
    for a, v0, v1 in pairs:
        ctx.close(v1, np.stack([v0[f, list(perms[f])] for f in range(F)]), a, rtol=1e-9)
    if fd or al == "amplitude_correlation":
        corr_reference(ctx, "choice", Y0, np.array(perms))
    else:
        g0 = np.swapaxes(m0.posterior, 0, 1) if al in (True, "posterior_score") else np.abs(Y0)
        exp = score_reference(g0, kw.get("global_iter", 1), kw.get("local_iter", 1))
        if exp is not None:
            ctx.check(np.array_equal(exp, perms), "choice", lambda: "applied %s, exhaustive maximization gives %s" % (perms, exp.tolist()))
    # the public alignment operation on a method left unaligned: the same signals and parameters
    for k in ("permutation_alignment", "global_iter", "local_iter"):
        if k in kw:
            setattr(m0, k, kw[k])
    m0.solve_permutation()
    ctx.step()
    ctx.close(np.swapaxes(m0.output, 0, 1), Y1, "direct:output", rtol=1e-9)
    for a in ("demix_filter",) if fd else ("mixing", "covariance", "posterior"):
        ctx.close(getattr(m0, a), getattr(m1, a), "direct:" + a, rtol=1e-9)
    # with scale restoration, the alignment precedes the rescaling of the very same signals
    if fd:
        m2, Y2 = D.run(dict(cfg, kw=dict(base, permutation_alignment=al)), X, case["N"])
        Y2 = Y2.transpose(1, 0, 2)
        for f in range(F):
            for k in range(N):
                c = np.vdot(Y1[f, k], Y2[f, k]) / np.vdot(Y1[f, k], Y1[f, k])
                ctx.close(Y2[f, k], c * Y1[f, k], "rescaled", rtol=1e-7)
    ctx.trace()
    ctx.outcome("method")
