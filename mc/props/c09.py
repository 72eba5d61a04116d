"""Every gradient method x form (holonomic, non-holonomic, omitted) x contrast x step size x start x letter: in every
visited state the separated signals are the current filter applied to the input, the next filter equals one reference
gradient step (inner loops over pairs of sources), and for the
holonomic forms the realized direction is the derivative of the documented objective (central differences along the step
and along every coordinate of one bin)."""

import numpy as np

from .. import configs as C
from .. import drive as D
from ..ref import loss as R
from ..ref import steps as S
from ..ref.aux import demix
from ..stepcheck import compare
from . import c02

ID = "C09"
TITLE = "Gradient methods step along the (natural) gradient of their objective"
BOUNDS = {
    "quick": "14 classes x 3 forms x contrasts x step sizes {default,0.01,0.3} x 4 shapes (2-6 channels) x 5 letters x 2 starts, 4 steps",
    "thorough": "7 shapes (2-7 channels), 10 letters, step sizes {default,0.001,0.01,0.3,0.5,1}, 8 steps",
}
ASSUMPTIONS = ["trajectories are followed until they diverge (large steps)"]
DEFAULT_HOLONOMIC = {"ICA": False, "FDICA": False, "IVA": True}


def cases(tier):
    q = tier == "quick"
    out, seen = [], set()
    letters = ["mix:0", "gen:1", "quiet:2", "loud:3", "real:4"] + ([] if q else ["int:5", "dup:6", "mix:7", "tilt:8", "gen:9"])
    for cfg in C.all_configs(1):
        if "Grad" not in cfg["cls"]:
            continue
        kw = {k: v for k, v in cfg["kw"].items() if k != "is_holonomic"}
        if C.family(cfg) != "ica":
            kw["scale_restoration"] = False
        if C.family(cfg) == "fdica":
            kw["permutation_alignment"] = False
        for hol in (True, False, None):
            for step in (None, 0.01, 0.3) if q else (None, 0.001, 0.01, 0.3, 0.5, 1):
                for n, F, T in ((2, 3, 16), (3, 4, 13), (4, 2, 19), (6, 2, 40)) if q else ((2, 3, 16), (3, 4, 13), (4, 2, 19), (5, 3, 30), (2, 9, 11), (7, 2, 50), (3, 1, 30)):
                    for inp in letters:
                        for start in ("default", "given"):
                            k2 = dict(kw)
                            if hol is not None:
                                k2["is_holonomic"] = hol
                            if step is not None:
                                k2["step_size"] = step
                            c = {"cfg": dict(cfg, kw=k2), "n": n, "F": F, "T": T, "inp": inp, "start": start, "N": 4 if q else 8}
                            if case_name(c) not in seen:
                                seen.add(case_name(c))
                                out.append(c)
    return out


def case_name(c):
    return "%s/%d/%dx%d/%s/%s" % (C.cfg_name(c["cfg"]), c["n"], c["F"], c["T"], c["inp"], c["start"])


def run(case, ctx):
    cfg, n = case["cfg"], case["n"]
    kw = cfg["kw"]
    X = C.shape_input(cfg, case["inp"], n, case["F"], case["T"])
    start = {} if case["start"] == "default" else c02.start_kw(cfg, n, case["F"])
    rec = D.Recorder()
    m, _ = D.run(cfg, X, case["N"], callbacks=rec, call_kw=start)
    fam = C.family(cfg)
    hol = kw.get("is_holonomic", DEFAULT_HOLONOMIC[{"ica": "ICA", "fdica": "FDICA", "iva": "IVA"}[fam]])
    step = kw.get("step_size", 0.1)
    if start:
        ctx.close(rec.states[0]["demix_filter"], start["demix_filter"], "start", rtol=0)
    H = D.ok_iterations(rec.states)
    ctx.state(C.cfg_name(cfg), rec.states[0])
    for i in range(min(H, len(rec.states))):
        W = rec.states[i]["demix_filter"]
        if np.max(np.abs(W)) > 1e12:
            break
        Y = W @ X if X.ndim == 2 else demix(W, X)
        ctx.check(np.max(np.abs(rec.states[i]["output"] - Y)) <= 1e-9 * max(np.max(np.abs(W)) * np.max(np.abs(X)), 1e-300),
                  "signals%d" % i, "the separated signals are not those of the current filter")
    for i in range(H - 1):
        a, b = rec.states[i], rec.states[i + 1]
        if np.max(np.abs(b["demix_filter"])) > 1e12:
            ctx.outcome("diverged")
            break
        compare(ctx, "step%d" % i, lambda p: S.gradient_step(cfg, p, X, step, hol), a, b)
        ctx.step()
        ctx.trace()
        ctx.state(C.cfg_name(cfg), b)
        ctx.outcome(cfg["cls"])
        smooth = not (X.ndim == 2 and "Laplace" in cfg["cls"])
        if hol and smooth and i < 2 and case["inp"].startswith(("mix", "gen")) and case["N"] < 5:
            W, V = a["demix_filter"], b["demix_filter"]
            Dl = (W - V) / step
            if np.max(np.abs(Dl)) < 1e3:
                inv = np.linalg.inv(W)
                g = Dl
                if cfg["cls"].startswith("Natural"):
                    g = Dl @ inv @ np.conj(np.swapaxes(inv, -1, -2))
                s = dict(a)
                if "variance" in b:
                    s["variance"] = b["variance"]
                dirs = [Dl]
                if i == 0 and X.ndim == 3:
                    for r in range(n):
                        for c in range(n):
                            for u in (1, 1j):
                                e = np.zeros_like(Dl)
                                e[-1, r, c] = u
                                dirs.append(e)
                for k, d in enumerate(dirs):
                    h = 1e-5 / max(1e-3, np.max(np.abs(d)))
                    up, dn = (R.objective(cfg, dict(s, demix_filter=W + sg * h * d), X) for sg in (1, -1))
                    slope = (up - dn) / (2 * h)
                    exp = (1 if X.ndim == 2 else 2) * np.real(np.sum(g.conj() * d))
                    scale = np.sqrt(np.sum(np.abs(g) ** 2) * np.sum(np.abs(d) ** 2)) + 1e-3
                    ctx.check(abs(slope - exp) <= 2e-3 * scale, "derivative%d.%d" % (i, k),
                              lambda: "slope of the objective %.8g, step direction says %.8g" % (slope, exp))
