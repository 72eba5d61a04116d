"""Every method with a descent guarantee x every option x every start x input letter of the alphabet: the run is
executed and at every visited state the recorded objective must not exceed its predecessor.  Starts: the default
initialization and given (non-trivial) demixing filters / diagonalizers; the number of frames always exceeds the number
of free parameters per bin, so the objective is bounded over the explored horizon and no flooring acts."""

import numpy as np

from .. import configs as C
from .. import drive as D
from .. import inputs as I
from . import c08

ID = "C01"
TITLE = "MM and EM methods never increase their objective"
BOUNDS = {
    "quick": "all options (see C08 for the parameter grid), 2-5 channels, 2-9 bins, 18-48 frames, 6 iterations, 3-5 letters, 2 starts",
    "thorough": "as quick, 14 letters, 5 shapes, 6-8 iterations",
}
ASSUMPTIONS = [
    "well-posed regime: more frames than parameters and no flooring (the likelihood is unbounded below otherwise)",
    "methods whose steps carry no descent guarantee (gradient, fixed-point, FasterIVA, proximal splitting) are not covered here",
    "multichannel NMF with partitioning and normalization: documented to change the value of the objective",
]
RTOL = 1e-9


def mm(cfg):
    f = C.family(cfg)
    if f in ("ica", "prox"):
        return False
    if f in ("fdica", "iva"):
        return cfg["cls"].startswith("Aux")
    if cfg["cls"] == "FastGaussMNMF" and cfg["kw"].get("partitioning"):
        return False
    if cfg["cls"] == "GaussMNMF" and cfg["kw"].get("partitioning") and cfg["kw"].get("normalization", True):
        return False
    return True


def cases(tier):
    q = tier == "quick"
    out, seen = [], set()

    def add(cfg, n, F, T, inp, start, N=6):
        c = {"cfg": cfg, "n": n, "F": F, "T": T, "inp": inp, "start": start, "N": N}
        k = case_name(c)
        if k not in seen:
            seen.add(k)
            out.append(c)

    letters = ["mix:0", "gen:1", "real:2"] if q else ["mix:%d" % k for k in range(5)] + ["gen:%d" % k for k in range(4)] + [
        "real:0", "real:2", "loud:1", "quiet:2", "dup:0"]
    for cfg in C.all_configs(1):
        if not mm(cfg):
            continue
        f = C.family(cfg)
        if f in ("fdica", "cacgmm"):
            cfg = C.with_kw(cfg, permutation_alignment=False)
        if f not in ("mnmf", "cacgmm"):
            cfg = C.with_kw(cfg, scale_restoration=False)
        for n, F, T in ((2, 4, 24), (3, 5, 32)) if q else ((2, 4, 24), (3, 5, 32), (3, 9, 40), (4, 4, 48), (5, 3, 64)):
            if f == "ipsdta" and (n > 3 or F > 5):
                continue
            for inp in letters:
                for start in ("default", "given"):
                    if start == "given" and f == "cacgmm":
                        continue
                    # one shared variance per frame and source: the likelihood degenerates early when bins are few
                    few = cfg["cls"].startswith("AuxGaussIVA") and F <= n
                    add(cfg, n, F, T, inp, start, 4 if few else 6)
        if q and f != "ipsdta":
            add(cfg, 4, 3, 48, "mix:3", "default", 4)
            add(cfg, 5, 2, 48, "mix:4", "default", 4)
    for c in c08.configs(q):
        if mm(c["cfg"]):
            add(c["cfg"], c["n"], c["F"], 24 + 8 * (c["n"] > 2), c["inp"], "default")
    for ns in (1, 2, 3):
        for n in (2, 3):
            for nrm in (True, False):
                for inp in letters:
                    add({"cls": "CACGMM", "kw": {"n_sources": ns, "normalization": nrm, "permutation_alignment": False}}, n, 4, 32, inp, "default")
    return out


def case_name(c):
    return "%s/%d/%dx%d/%s/%s/%d" % (C.cfg_name(c["cfg"]), c["n"], c["F"], c["T"], c["inp"], c["start"], c["N"])


def start_kw(cfg, n, F):
    key = "diagonalizer" if cfg["cls"] == "FastGaussMNMF" else "demix_filter"
    if cfg["cls"] == "GaussMNMF":
        M = I.generic(5, cfg["kw"].get("n_sources", n), F, n, 2 * n)
        H = M @ M.conj().swapaxes(-1, -2)
        return {"spatial": H / np.trace(H, axis1=-2, axis2=-1).real[..., None, None]}
    return {key: np.eye(n) + 0.4 * I.generic(6, F, n, n)}


def run(case, ctx):
    cfg, n = case["cfg"], case["n"]
    X = C.shape_input(cfg, case["inp"], n, case["F"], case["T"])
    kw = {} if case["start"] == "default" else start_kw(cfg, n, case["F"])
    if C.is_output_based(cfg) and kw:
        kw = {}
        X = np.einsum("fnc,cft->nft", start_kw(cfg, n, case["F"])["demix_filter"], X)
    rec = D.Recorder()
    m, _ = D.run(cfg, X, case["N"], callbacks=rec, call_kw=kw)
    loss = [float(v) for v in m.loss]
    ctx.check(len(loss) == case["N"] + 1, "count", "%d losses recorded" % len(loss))
    for s in rec.states:
        ctx.state(C.cfg_name(cfg), s)
    for i, (a, b) in enumerate(zip(loss, loss[1:])):
        ctx.check(b <= a + RTOL * max(1.0, abs(a)), "iter%d" % (i + 1), lambda: "objective rises from %.12g to %.12g" % (a, b))
        ctx.measure("largest relative increase", (b - a) / max(1.0, abs(a)))
        ctx.step()
    ctx.check(loss[-1] < loss[0], "progress", lambda: "objective never decreases: %s" % loss)
    ctx.trace()
    ctx.outcome(cfg["cls"])
