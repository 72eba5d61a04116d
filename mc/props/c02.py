"""Every method x every option x every start x input letter: the run is executed and in every visited state (the initial
one, each iterate, and after the final rescaling) the recorded loss, and the value of a fresh call of compute_loss, equal
the documented objective, accumulated by scalar loops from the observable parameters of that state."""

import numpy as np

from .. import configs as C
from .. import drive as D
from .. import inputs as I
from ..ref import loss as R
from . import c01, c08

ID = "C02"
TITLE = "The recorded loss is the documented objective of the current parameters"
BOUNDS = {
    "quick": "all options (and the parameter grid of C08), 2-6 channels, 1-33 bins, 8-140 frames, 3 iterations (11 once), 5 letters, 2 starts",
    "thorough": "as quick, 12 letters, 5 more shapes, 6 iterations",
}
ASSUMPTIONS = ["states with non-finite or huge (1e60) parameters (divergence of gradient methods) are left out"]


def cases(tier):
    q = tier == "quick"
    out, seen = [], set()

    def add(cfg, n, F, T, inp, start, N):
        if cfg["cls"].startswith("AuxGaussIVA") and F <= n or cfg["kw"].get("normalization") is False and cfg["cls"] == "CACGMM":
            N = min(N, 4)  # these likelihoods degenerate early (see C01)
        c = {"cfg": cfg, "n": n, "F": F, "T": T, "inp": inp, "start": start, "N": N}
        k = case_name(c)
        if k not in seen:
            seen.add(k)
            out.append(c)

    letters = ["mix:0", "gen:1", "quiet:2", "real:3", "loud:4"] + ([] if q else ["int:5", "dup:6", "mix:7", "tilt:8", "gen:9", "mix:10", "real:11"])
    for cfg in C.all_configs(1):
        fam = C.family(cfg)
        if cfg["cls"] in C.HVAS:  # no penalty function exists
            continue
        if cfg["cls"].startswith("Masking"):
            for pen in ("l1", "l21"):
                c2 = dict(cfg, penalty=pen)
                for start in ("default", "given"):
                    add(c2, 2, 4, 12, "mix:0", start, 2)
                    add(c2, 3, 5, 12, "gen:1", start, 2)
            continue
        if cfg["cls"] == "FastGaussMNMF" and cfg["kw"].get("partitioning"):
            continue
        shapes = [(2, 3, 17), (3, 5, 26)]
        if q:
            shapes = shapes if fam != "ipsdta" else [(2, 4, 12)]
        else:
            shapes += [(4, 3, 40), (2, 9, 20), (5, 2, 50)] if fam != "ipsdta" else []
        if fam not in ("ipsdta", "ica"):
            add(cfg, 6, 2, 70, "mix:5", "default", 2)
            add(cfg, 2, 33, 9, "mix:6", "default", 2)
            add(cfg, 2, 2, 140, "mix:6", "default", 11)
        for n, F, T in shapes:
            if fam == "ipsdta":
                T = 14
            if fam not in ("mnmf", "cacgmm", "ica") and "ADMM" not in cfg["cls"]:
                add(cfg, n, F, T, "mix:0", "rescaled", 1)
            for inp in letters:
                for start in ("default", "given"):
                    if start == "given" and fam == "cacgmm":
                        continue
                    add(cfg, n, F, T, inp, start, 3 if q else 6)
        if fam not in ("ipsdta", "ica"):
            add(cfg, 4, 2, 30, "mix:3", "default", 2)
            if fam not in ("cacgmm",):
                add(cfg, 2, 1, 21, "mix:4", "default", 2)
    for c in c08.configs(q):
        add(c["cfg"], c["n"], c["F"], c["T"] + 3, c["inp"], "default", 2)
    for ns in (1, 2, 3, 4):
        for n in (2, 3):
            for nrm in (True, False):
                add({"cls": "CACGMM", "kw": {"n_sources": ns, "normalization": nrm}}, n, 4, 13, "mix:1", "default", 3)
    for cls in ("GradICA", "FastICA"):
        add({"cls": cls, "fn": "logcosh", "kw": {}}, 4, 1, 50, "mix:1", "given", 2)
    return out


def case_name(c):
    return "%s%s/%d/%dx%d/%s/%s/%d" % (C.cfg_name(c["cfg"]), "[%s]" % c["cfg"]["penalty"] if "penalty" in c["cfg"] else "",
                                      c["n"], c["F"], c["T"], c["inp"], c["start"], c["N"])


def start_kw(cfg, n, F):
    fam = C.family(cfg)
    if fam == "ica":
        return {"demix_filter": np.eye(n) + 0.4 * I.generic(6, n, n, complex_=False)}
    return c01.start_kw(cfg, n, F)


def run(case, ctx):
    cfg, n = case["cfg"], case["n"]
    X = C.shape_input(cfg, case["inp"], n, case["F"], case["T"])
    kw = {} if case["start"] != "given" else start_kw(cfg, n, case["F"])
    rec = D.Recorder()
    extra = {}
    if "penalty" in cfg:
        extra = {"penalty_fn": C.PENALTY[cfg["penalty"]], "record_loss": True}
    elif C.family(cfg) == "prox":
        extra = {"record_loss": True}
    rescaled = case["start"] == "rescaled"
    if C.family(cfg) not in ("mnmf", "cacgmm", "ica") and not rescaled:
        extra["scale_restoration"] = False
    fresh = []

    def again(m):
        fresh.append(m.compute_loss())

    m, out = D.run(cfg, X, case["N"], callbacks=[rec, again], call_kw=kw, **extra)
    loss = list(m.loss)
    Z = getattr(m, "whitened_input", None)
    if Z is not None:  # the whitened mixture is a white linear image of the mixture in each bin
        for x, z in zip(X[None] if X.ndim == 2 else X.swapaxes(0, 1), Z[None] if Z.ndim == 2 else Z.swapaxes(0, 1)):
            ctx.close(z @ z.conj().T / z.shape[1], np.eye(n), "whitened", rtol=1e-6)
            V = np.linalg.lstsq(x.T, z.T, rcond=None)[0].T
            ctx.close(V @ x, z, "whitening map", rtol=1e-6)
    ctx.check(len(m.loss) == case["N"] + 1, "count", "%d losses recorded" % len(loss))
    if rescaled:  # the state after the call is one more state with an objective
        rec.states.append(C.snapshot(m))
        again(m)
        loss.append(fresh[-1])
    for i, (s, v, w) in enumerate(zip(rec.states, loss, fresh)):
        ctx.step()
        ctx.state(C.cfg_name(cfg), s)
        ctx.check(isinstance(v, float), "type%d" % i, "the loss is a %s" % type(v).__name__)
        if not all(np.isfinite(a).all() and np.max(np.abs(a), initial=0) < 1e60 for a in s.values()):
            ctx.outcome("diverged")
            break
        d = s.get("demix_filter")
        if d is not None and np.min(np.abs(np.linalg.det(d))) < 1e-12:  # the first ADMM filter is zero: no logarithm
            ctx.check(v == np.inf or v > 20 or not np.isfinite(v), "singular%d" % i, "loss %r for a singular filter" % v)
            ctx.outcome("singular filter")
            continue
        ref = R.objective(cfg, s, X, Z)
        scale = max(1.0, abs(ref))
        ctx.check(abs(v - ref) <= 1e-8 * scale, "iter%d" % i, lambda: "recorded %.12g, documented objective %.12g" % (v, ref))
        ctx.check(abs(w - v) <= 1e-12 * scale, "recomputed%d" % i, lambda: "compute_loss gives %.12g, record %.12g" % (w, v))
        ctx.measure("largest relative deviation", abs(v - ref) / scale)
        ctx.trace()
        ctx.outcome(cfg["cls"])
