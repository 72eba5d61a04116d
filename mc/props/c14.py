"""cACGMM: every option x number of sources x alignment x reference channel x letter: each transition is compared with a
reference EM step; posteriors, weights and covariances are checked to be distributions / Hermitian positive definite with
unit trace; the final posterior (and the one `separate` computes on request) is the Bayes posterior of the final parameters, these are the last iterate up to one
relabelling of the sources per bin, and the output is the masked reference channel.  Multichannel NMF: every option x
number of sources x reference channel x letter: the returned images equal the multichannel Wiener filter computed bin by
bin and frame by frame from the final parameters.  In both cases images sum to the reference channel."""

import itertools

import numpy as np

from .. import configs as C
from .. import drive as D
from ..ref import em as E
from ..ref import lowrank as L
from ..stepcheck import compare

ID = "C14"
TITLE = "Posteriors are probabilities and separated images sum to the reference channel"
BOUNDS = {
    "quick": "cACGMM: 1-4 sources x 2-4 channels x 9 alignment settings x normalization x all references x 9 letters, 5 steps (4 without normalization); MNMF: all options, 1-3 sources, 2-4 channels, all references, 4 letters, 0 and 3 steps; cACGMM under 4 flooring functions",
    "thorough": "as quick with 15 letters, 5 channels, 10 steps (4 without normalization)",
}
ASSUMPTIONS = ["covariances stay well-conditioned within the bound (more frames than channels)"]


def cases(tier):
    q = tier == "quick"
    out, seen = [], set()

    def add(cfg, n, F, T, inp, N):
        c = {"cfg": cfg, "n": n, "F": F, "T": T, "inp": inp, "N": N}
        if case_name(c) not in seen:
            seen.add(case_name(c))
            out.append(c)

    letters = ["mix:0", "gen:1", "quiet:2", "loud:3", "silentframe:4", "mix:5", "gen:6", "real:7", "int:8"]
    if not q:
        letters += ["dup:9", "silentstart:10", "mix:11", "tilt:12", "mix:13", "gen:14"]
    for ns in (None, 1, 2, 3, 4):
        for n in (2, 3, 4) if q else (2, 3, 4, 5):
            for nrm in (True, False, None):
                for al in (False, None, True, "posterior_score", "amplitude_score", "amplitude_correlation"):
                    its = [{}]
                    if al not in (False, "amplitude_correlation", None):
                        its = [{}, {"global_iter": 2, "local_iter": 3}]
                    for it in its:
                        for inp in letters if al in (False, True) else letters[:2]:
                            for ref in [None] + list(range(n)) if (al is False and nrm is None) else [n - 1]:
                                kw = dict(it)
                                if ns:
                                    kw["n_sources"] = ns
                                if nrm is not None:
                                    kw["normalization"] = nrm
                                if al is not None:
                                    kw["permutation_alignment"] = al
                                if ref is not None:
                                    kw["reference_id"] = ref
                                add({"cls": "CACGMM", "kw": kw}, n, 4, 6 * n, inp, (4 if nrm is False else 5) if q else ((4 if n < 5 else 3) if nrm is False else 10))
    for ns in (None, 1, 3):  # laws that hold whatever the flooring function
        for n in (2, 3):
            for nrm in (True, False):
                for al in (False, True):
                    for inp in letters[:4]:
                        for floor in (0.05, 0.4, 0.6, 2.0):
                            kw = {"normalization": nrm, "permutation_alignment": al}
                            if ns:
                                kw["n_sources"] = ns
                            add({"cls": "CACGMM", "kw": kw, "floor": floor}, n, 4, 6 * n, inp, 3)
    for ns in (None, 1, 2, 3):
        for n in (2, 3, 4) if q else (2, 3, 4, 5):
            for nrm in (True, False):
                for ref in [None] + list(range(n)):
                    for inp in letters[:4] if q else letters[:4] + letters[5:8]:
                        for N in (0, 3) if q else (0, 1, 5):
                            kw = {"n_basis": 2, "normalization": nrm}
                            if ns:
                                kw["n_sources"] = ns
                            if ref is not None:
                                kw["reference_id"] = ref
                            for part in (False, True):
                                add({"cls": "GaussMNMF", "kw": dict(kw, partitioning=part)}, n, 3, 9, inp, N)
                            for alg in ("IP1", "IP2") if ns != 1 else ("IP1",):
                                add({"cls": "FastGaussMNMF", "kw": dict(kw, diagonalizer_algorithm=alg)}, n, 3, 9, inp, N)
    return out


def case_name(c):
    tail = "/floor%g" % c["cfg"]["floor"] if c["cfg"].get("floor") else ""
    return "%s/%d/%dx%d/%s/%d" % (C.cfg_name(c["cfg"]), c["n"], c["F"], c["T"], c["inp"], c["N"]) + tail


def run(case, ctx):
    cfg, n = case["cfg"], case["n"]
    kw = cfg["kw"]
    X = C.shape_input(cfg, case["inp"], n, case["F"], case["T"])
    rec = D.Recorder()
    v = cfg.get("floor")
    m, Y = D.run(cfg, X, case["N"], callbacks=rec, **({"flooring_fn": lambda x: np.maximum(x, v)} if v else {}))
    s = C.snapshot(m)
    ref = kw.get("reference_id", 0)
    N = kw.get("n_sources", n)
    F, T = X.shape[1:]
    ctx.check(Y.shape == (N, F, T), "shape", "output %s" % (Y.shape,))
    ctx.close(m.output, Y, "attribute", rtol=0)
    ctx.state(C.cfg_name(cfg), rec.states[0])
    ctx.step(case["N"])
    ctx.trace()
    ctx.outcome(cfg["cls"])
    if cfg["cls"] != "CACGMM":
        H = s["spatial"] if cfg["cls"] == "GaussMNMF" else L.fast_cov(s)
        compare(ctx, "wiener", lambda p: {"Y": L.wiener(L.variances(p), p["spatial"] if cfg["cls"] == "GaussMNMF" else L.fast_cov(p), X, ref)},
                s, {"Y": Y}, rtol=1e-6)
        ctx.close(L.variances(s).shape, np.array((N, F, T)), "variances", rtol=0)
        cond = max(np.linalg.cond(R) for row in L.mnmf_R(dict(s, spatial=H)) for R in row)
        if cond < 1e6:  # flooring of the mixture covariance does not act
            ctx.close(Y.sum(axis=0), X[ref], "sum", rtol=1e-6)
        for st in rec.states:
            ctx.state(C.cfg_name(cfg), st)
        D.same_state(ctx, {k: v for k, v in s.items() if k != "output"}, {k: v for k, v in rec.states[-1].items() if k != "output"}, "final")
        return
    for i, st in enumerate(rec.states + [s]):
        ctx.state(C.cfg_name(cfg), st)
        a, B = st["mixing"], st["covariance"]
        key = "%d" % i
        ctx.check(a.shape == (N, F) and B.shape == (N, F, n, n), "shapes" + key, "%s %s" % (a.shape, B.shape))
        ctx.check((a >= 0).all() and np.allclose(a.sum(axis=0), 1, atol=1e-9), "weights" + key, lambda: str(a.sum(axis=0)))
        ctx.close(B, np.swapaxes(B.conj(), -1, -2), "hermitian" + key, rtol=1e-9)
        ctx.check(np.linalg.eigvalsh(B).min() > 0, "definite" + key, "smallest eigenvalue %g" % np.linalg.eigvalsh(B).min())
        if i == 0 or kw.get("normalization", True):
            ctx.close(np.trace(B, axis1=-2, axis2=-1).real, np.ones((N, F)), "trace" + key, rtol=1e-9)
        if "posterior" in st:
            g = st["posterior"]
            ctx.check(g.shape == (N, F, T) and (g >= 0).all() and np.allclose(g.sum(axis=0), 1, atol=1e-9), "posterior" + key, lambda: str(g.sum(axis=0)))
    if v:  # the transitions under a flooring function are the business of C30
        ctx.close(Y, s["posterior"] * X[ref], "mask", rtol=1e-12)
        ctx.close(Y.sum(axis=0), X[ref], "sum", rtol=1e-9)
        return
    for i, (p, b) in enumerate(zip(rec.states, rec.states[1:])):
        compare(ctx, "step%d" % i, lambda q: E.step(cfg, q, X), p, b)
        ctx.trace()
    compare(ctx, "final posterior", lambda q: {"posterior": E.posterior(q["mixing"], q["covariance"], X)}, s, s)
    ctx.close(Y, s["posterior"] * X[ref], "mask", rtol=1e-12)
    compare(ctx, "separate", lambda q: {"Y": E.posterior(q["mixing"], q["covariance"], X) * X[ref]}, s, {"Y": m.separate(X)})
    G = np.random.default_rng(5).random((N, F, T))
    ctx.close(m.separate(X, posterior=G), G * X[ref], "given posterior", rtol=1e-12)
    ctx.step(2)
    D.same_state(ctx, C.snapshot(m), s, "separate is pure", rtol=0)
    ctx.close(Y.sum(axis=0), X[ref], "sum", rtol=1e-9)
    last = rec.states[-1]
    for f in range(F):
        ok = any(np.array_equal(s["mixing"][:, f], last["mixing"][list(p), f]) and np.array_equal(s["covariance"][:, f], last["covariance"][list(p), f])
                 for p in itertools.permutations(range(N)))
        ctx.check(ok, "relabelled%d" % f, "final parameters are not the last iterate up to a relabelling")
    if kw.get("permutation_alignment", True) is False:
        D.same_state(ctx, {k: s[k] for k in ("mixing", "covariance")}, {k: last[k] for k in ("mixing", "covariance")}, "unaligned")
