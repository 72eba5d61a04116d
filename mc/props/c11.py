"""Every proximal method (primal-dual, ADMM; penalties, lists of penalties, masks, harmonic vector analysis) x step sizes
x relaxation x start x letter: in every visited state the next filter, auxiliary and dual variables equal one reference
step, whose pieces are independent: row-by-row least squares for the ADMM filter, closed-form scalar shrinkage, cosine-sum
cepstra for the harmonic mask.  A mask-based run is also compared with the penalty-based run with the same shrinkage."""

import numpy as np

from .. import configs as C
from .. import drive as D
from ..ref import steps as S
from ..stepcheck import compare
from . import c02

ID = "C11"
TITLE = "Proximal splitting methods take the documented primal-dual and ADMM steps"
BOUNDS = {
    "quick": "9 classes x penalties x step sizes {1,0.5,2} x relaxation {0.5,1,1.5} x mask options, 3 shapes (2-4 channels), 3 letters, 2 starts, 5 steps",
    "thorough": "5 shapes (2-5 channels), 8 letters, 10 steps",
}
ASSUMPTIONS = ["inputs are normalized by their spectral norm as the documentation asks"]


def cases(tier):
    q = tier == "quick"
    out, seen = [], set()
    letters = ["mix:0", "gen:1", "real:2"] if q else ["mix:0", "gen:1", "real:2", "int:3", "mix:4", "dup:5", "gen:6", "tilt:7"]

    def add(cls, fn=None, eq=False, **kw):
        cfg = {"cls": cls, "kw": dict(kw, scale_restoration=False)}
        if fn:
            cfg["fn"] = fn
        for n, F, T in ((2, 4, 9), (3, 3, 11), (4, 5, 16)) if q else ((2, 4, 9), (3, 3, 11), (4, 5, 16), (2, 9, 8), (5, 2, 20)):
            for inp in letters:
                for start in ("default", "given"):
                    c = {"cfg": cfg, "n": n, "F": F, "T": T, "inp": inp, "start": start, "N": 5 if q else 10}
                    if case_name(c) not in seen:
                        seen.add(case_name(c))
                        out.append(c)

    for rel in (None, 0.5, 1, 1.5):
        r = {} if rel is None else {"relaxation": rel}
        for mu in ({}, {"mu1": 0.5}, {"mu2": 0.5}, {"mu1": 0.8, "mu2": 2}):
            for fn in ("l1", "l21", "l1+l21", "l21+l1", "l1+l21+l1"):
                add("PDSBSS", fn, **r, **mu)
            for fn in (None, "l21"):
                add("PDSIVA", fn, **r, **mu)
            for fn in ("l1", "l21", "phase"):
                add("MaskingPDSBSS", fn, **r, **mu)
            for cls in ("HVA", "MaskingPDSHVA"):
                for it in (None, 1, 3):
                    for at in (None, 0.7):
                        k = {} if it is None else {"mask_iter": it}
                        if at is not None:
                            k["attenuation"] = at
                        add(cls, **r, **mu, **k)
        for rho in ({}, {"rho": 0.5}, {"rho": 3}):
            for fn in ("l1", "l21", "l1+l21", "l21+l1", "l1+l21+l1"):
                add("ADMMBSS", fn, **r, **rho)
            for fn in (None, "l21"):
                add("ADMMIVA", fn, **r, **rho)
            for fn in ("l1", "l21", "phase"):
                add("MaskingADMMBSS", fn, **r, **rho)
            for it in (None, 2):
                for at in (None, 0.7):
                    k = {} if it is None else {"mask_iter": it}
                    if at is not None:
                        k["attenuation"] = at
                    add("MaskingADMMHVA", **r, **rho, **k)
    for cfg in C.all_configs(1):  # the normalization of the input the methods ask for
        if cfg["cls"] in C.PROXM:
            for n, F, T in ((2, 4, 9), (3, 3, 11), (3, 7, 2), (1, 5, 6), (4, 1, 4)):
                for inp in letters:
                    c = {"cfg": cfg, "n": n, "F": F, "T": T, "inp": inp, "start": "normalize", "N": 0}
                    if case_name(c) not in seen:
                        seen.add(case_name(c))
                        out.append(c)
    return out


def case_name(c):
    return "%s/%d/%dx%d/%s/%s" % (C.cfg_name(c["cfg"]), c["n"], c["F"], c["T"], c["inp"], c["start"])


def run_normalize(case, ctx):
    from .. import inputs

    cfg = case["cfg"]
    m = C.build(cfg)
    q = len(str(cfg.get("fn")).split("+"))
    for gain in (1, 1e-4, 1e4):
        x = gain * inputs.letter(case["inp"], case["n"], case["F"], case["T"])
        top = 0.0
        for f in range(case["F"]):
            G = x[:, f] @ x[:, f].conj().T
            top = max(top, np.sqrt(max(0.0, np.linalg.eigvalsh((G + G.conj().T) / 2)[-1])))
        for arg in (None, 1, 2, 3):
            for layout in (x.copy(), np.asfortranarray(x), np.repeat(x, 2, axis=-1)[..., ::2]):
                got = m.normalize_by_spectral_norm(layout) if arg is None else m.normalize_by_spectral_norm(layout, n_penalties=arg)
                ctx.step()
                ctx.trace()
                ctx.state(C.cfg_name(cfg), got)
                ctx.close(got, x / (np.sqrt(q if arg is None else arg) * top), "normalize:%g:%s" % (gain, arg), rtol=1e-8)
                ctx.check(np.array_equal(layout, x), "normalize:mutated", "argument changed")
    ctx.outcome("normalize")


def run(case, ctx):
    if case["start"] == "normalize":
        return run_normalize(case, ctx)
    cfg, n = case["cfg"], case["n"]
    X = C.shape_input(cfg, case["inp"], n, case["F"], case["T"])
    X = 0.9 * X  # with spectral norm exactly one the second ADMM iterate is singular and the prox not unique
    start = {} if case["start"] == "default" else c02.start_kw(cfg, n, case["F"])
    rec = D.Recorder()
    m, out = D.run(cfg, X, case["N"], callbacks=rec, call_kw=start)
    admm = "ADMM" in cfg["cls"]
    step = S.admm_step if admm else S.pds_step
    s0 = rec.states[0]
    W0 = start.get("demix_filter", np.eye(n) + np.zeros((case["F"], n, n)))
    ctx.close(s0["demix_filter"], W0, "start", rtol=0)
    for k in ("auxiliary1", "auxiliary2", "dual1", "dual2") if admm else ("dual",):
        ctx.check(not np.any(s0[k]), "start:" + k, "initial value is not zero")
    ctx.state(C.cfg_name(cfg), s0)
    for i, (a, b) in enumerate(zip(rec.states, rec.states[1:])):
        compare(ctx, "step%d" % i, lambda p: step(cfg, p, X), a, b)
        ctx.step()
        ctx.trace()
        ctx.state(C.cfg_name(cfg), b)
        ctx.outcome(cfg["cls"])
    ctx.close(out, S.demix(rec.states[-1]["demix_filter"], X), "returned", rtol=1e-9)
    if cfg["cls"].startswith("Masking") and "HVA" not in cfg["cls"]:  # a mask is a proximal operator written as a factor
        kw = dict(cfg["kw"])
        kind = cfg["fn"]
        e = C.CLASSES[cfg["cls"].replace("Masking", "")](
            penalty_fn=C.PENALTY[kind], prox_penalty=lambda z, step_size=1: C.PROX[kind](z, 1), record_loss=False, **kw)
        rec2 = D.Recorder()
        e.callbacks = [rec2]
        out2 = e(X, n_iter=case["N"], **start)
        ctx.close(out2, out, "penalty form", rtol=1e-8)
        if kind != "phase":  # with a penalty given the loss is recorded by default: penalty of the output minus the log determinants
            for given in (None, True, False):
                p = C.CLASSES[cfg["cls"]](penalty_fn=C.PENALTY[kind], mask_fn=C.MASK[kind], record_loss=given, **kw)
                out3 = p(X, n_iter=case["N"], **start)
                ctx.step(case["N"])
                ctx.close(out3, out, "with penalty:%s" % given, rtol=1e-9)
                if given is False:
                    ctx.check(p.loss is None, "loss:off", "loss recorded although switched off")
                    continue
                losses = []
                for s in rec.states:
                    W = s["demix_filter"]
                    Y = S.demix(W, X)
                    v = sum(abs(z) for z in Y.ravel()) if kind == "l1" else sum(np.sqrt(np.sum(np.abs(Y) ** 2, axis=1)).ravel())
                    with np.errstate(divide="ignore"):
                        losses.append(v - sum(np.log(abs(np.linalg.det(w))) for w in W))
                if ctx.check(p.loss is not None and len(p.loss) == len(losses), "loss:length", "%s" % (p.loss,)):
                    for i, (u, v) in enumerate(zip(p.loss, losses)):
                        ctx.check(u == v or abs(u - v) <= 1e-7 * (1 + abs(v)), "loss%d" % i, "recorded %r expected %r" % (u, v))
        ctx.step(case["N"])
        for i, (a, b) in enumerate(zip(rec.states, rec2.states)):
            b = {k: (v[0] if k in ("dual", "dual2", "auxiliary2") else v) for k, v in b.items()}
            D.same_state(ctx, {k: b[k] for k in a if k in b}, {k: a[k] for k in a if k in b}, "penalty form%d" % i)
