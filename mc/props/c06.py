"""Every method x option x documented rescaling name x reference channel x start x letter: the run is executed with and
without rescaling; the rescaled result must be the unscaled one times the per-source factor given by scalar formulas
(inverse filter row for projection back, least-squares coefficient for minimal distortion), the sources must add up to
the reference channel (projection back), the published filter must reproduce the returned signal, and the attribute, the
returned array and the filter must agree.  With rescaling off the result is the last iterate seen by a callback.  The public
rescaling operations are also called directly on an unscaled method and must give the same signals and filter."""

import copy

import numpy as np

from .. import configs as C
from .. import drive as D
from ..ref.aux import demix
from . import c02

ID = "C06"
TITLE = "Output is the demixing filter applied to the input, with the requested scale"
BOUNDS = {
    "quick": "all methods and options x 8 settings x all reference channels, 2-4 channels, 4 letters, 2 starts, 0-3 iterations",
    "thorough": "as quick, 2-5 channels, 9 letters, 0-4 iterations",
}
ASSUMPTIONS = ["filters are invertible (diverged gradient runs and singular first ADMM iterates are left out)"]
PB = (True, "projection_back", "projection-back", "PB")
MDP = ("minimal_distortion_principle", "minimal-distortion-principle", "MDP")


def cases(tier):
    q = tier == "quick"
    out, seen = [], set()
    letters = ["mix:0", "gen:1", "quiet:2", "real:4"] if q else ["mix:0", "gen:1", "quiet:2", "loud:3", "real:4", "int:5", "mix:6", "dup:7", "tilt:8"]
    for cfg in C.all_configs(1):
        fam = C.family(cfg)
        if fam in ("mnmf", "cacgmm"):
            continue
        shapes = [(2, 4, 14), (3, 3, 17), (4, 2, 24)] + ([] if q else [(5, 2, 30)])
        loop = cfg["kw"].get("normalization") == "projection_back"
        for n, F, T in shapes:
            for li, inp in enumerate(letters):
                for N in ((0, 1, 3) if li == 0 else (2,)) if q else (0, 1, 2, 4):
                    if "ADMM" in cfg["cls"]:
                        N = {0: 0, 1: 2, 2: 3, 3: 4, 4: 5}[N]
                    for start in ("default", "given") if li == 0 else ("default",):
                        for ref in range(n) if loop else (None,):
                            c = {"cfg": cfg, "n": n, "F": F, "T": T, "inp": inp, "start": start, "N": N, "ref": ref}
                            if case_name(c) not in seen:
                                seen.add(case_name(c))
                                out.append(c)
    return out


def case_name(c):
    return "%s/%d/%dx%d/%s/%s/%d" % (C.cfg_name(c["cfg"]), c["n"], c["F"], c["T"], c["inp"], c["start"], c["N"]) + (
        "" if c["ref"] is None else "/ref%d" % c["ref"])


def final(m, cfg, X, call_kw, N, rec=None, **kw):
    m = C.build(cfg, record_loss=False, callbacks=rec, **kw)
    return m, m(X, n_iter=N, **call_kw)


def run(case, ctx):
    cfg, n, N = case["cfg"], case["n"], case["N"]
    X = C.shape_input(cfg, case["inp"], n, case["F"], case["T"])
    call = {} if case["start"] == "default" else c02.start_kw(cfg, n, case["F"])
    name = cfg["cls"]
    ica = C.family(cfg) == "ica"
    fixed = name in ("FastICA", "FastIVA", "FasterIVA")
    rec = D.Recorder()
    off = {} if ica else {"scale_restoration": False}
    if case.get("ref"):  # the in-loop normalization refers to the reference channel as well
        off["reference_id"] = case["ref"]
    m0, Y0 = final(None, cfg, X, call, N, rec, **off)
    ctx.step(N)
    ctx.outcome(name)
    src = m0.whitened_input if fixed else X
    W0 = m0.demix_filter
    last = rec.states[-1]
    ctx.state(C.cfg_name(cfg), last, Y0)
    if not np.isfinite(Y0).all() or np.max(np.abs(Y0)) > 1e8 * np.max(np.abs(X)):
        ctx.outcome("diverged")
        return
    ctx.close(m0.output, Y0, "attribute:off", rtol=0)
    first, apply = rec.states[0], (lambda W, x: W @ x) if ica else demix
    if ctx.check("output" in first, "start:attribute", "no output at the initial call"):
        if W0 is not None:
            ctx.close(first["output"], apply(first["demix_filter"], src), "start:output", rtol=1e-10)
        elif not call:
            ctx.close(first["output"], X, "start:output", rtol=0)
    if W0 is None:
        ctx.close(Y0, last["output"], "last:off", rtol=0)
    else:
        ctx.close(Y0, apply(W0, src), "apply:off", rtol=1e-10)
        if not cfg["cls"].endswith("FDICA"):
            ctx.close(W0, last["demix_filter"], "last:off", rtol=0)
        elif np.linalg.cond(W0).max() < 1e6:  # alignment only reorders the rows of each bin
            for f in range(W0.shape[0]):
                ctx.close(np.array(sorted(W0[f].tolist(), key=str)), np.array(sorted(last["demix_filter"][f].tolist(), key=str)), "rows:off", rtol=0)
    if ica:
        ctx.trace()
        return
    F = X.shape[1]
    # unscaled filter on the raw mixture
    if W0 is None or fixed:
        A = np.stack([np.linalg.lstsq(X[:, f].T, Y0[:, f].T, rcond=None)[0].T for f in range(F)])
    else:
        A = W0
    if np.linalg.cond(A).max() > 1e6 or np.linalg.cond(X.swapaxes(0, 1)).max() > 1e6:
        ctx.outcome("singular filter")
        return
    for name in PB + MDP:
        refs = list(range(n)) if name in (True, "MDP") else [n - 1]
        if name == "PB":
            refs = [None, -1]  # None: the documented default, channel 0
        if case["ref"] is not None:
            refs = [r for r in ([None] if name == "PB" else refs) if (r or 0) == case["ref"]]
        for ref in refs:
            kw = {"scale_restoration": name}
            if ref is not None:
                kw["reference_id"] = ref
            r = 0 if ref is None else ref
            m, Y = final(None, cfg, X, call, N, **kw)
            ctx.step(N)
            ctx.trace()
            key = "%s:%s" % (name, ref)
            fac = np.zeros((n, F), complex)
            for f in range(F):
                if name in PB:
                    fac[:, f] = np.linalg.inv(A[f])[r]
                else:
                    for k in range(n):
                        fac[k, f] = sum(X[r, f, t] * Y0[k, f, t].conjugate() for t in range(X.shape[2])) / sum(
                            abs(v) ** 2 for v in Y0[k, f])
            tol = 1e-7
            ctx.close(Y, fac[:, :, None] * Y0, "scaled:" + key, rtol=tol)
            if name in PB:
                ctx.close(Y.sum(axis=0), X[r], "sum:" + key, rtol=tol)
            ctx.close(m.output, Y, "attribute:" + key, rtol=0)
            d = copy.deepcopy(m0)  # the public rescaling operations on a method left unscaled
            d.scale_restoration, d.reference_id = name, r
            if ref is None or name is True:
                d.restore_scale()
            elif name in PB:
                d.apply_projection_back()
            else:
                d.apply_minimal_distortion_principle()
            ctx.step()
            ctx.close(d.output, Y, "direct:" + key, rtol=1e-8)
            if d.demix_filter is not None:
                ctx.close(demix(d.demix_filter, d.whitened_input if fixed else X), Y, "direct:apply:" + key, rtol=1e-7)
            if m.demix_filter is not None:
                ctx.close(demix(m.demix_filter, m.whitened_input if fixed else X), Y, "apply:" + key, rtol=1e-8)
            else:
                ctx.check(W0 is None, "filter:" + key, "the filter is missing")
            ctx.state(C.cfg_name(cfg), key, Y)
