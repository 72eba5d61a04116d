"""Every fixed-point method x contrast function x start x letter: the whitened input is white and a linear image of the
input; in every visited state after the first the rows of every filter are orthonormal and the transition equals one
reference fixed-point step (one frame, source and bin at a time); the returned signal and the observable output are the
filter applied to the whitened input."""

import numpy as np

from .. import configs as C
from .. import drive as D
from .. import inputs as I
from ..ref import steps as S
from ..ref.aux import demix
from ..stepcheck import compare

ID = "C10"
TITLE = "Fixed-point methods keep orthonormal filters and take the documented step"
BOUNDS = {
    "quick": "3 classes x 2 contrasts x 9 shapes (2-6 channels, 1-33 bins) x 14 letters x 3 starts (identity, unitary, generic), 6 steps",
    "thorough": "as quick with 130 letters and 10 steps",
}
ASSUMPTIONS = ["rows determined by an eigenvector (FasterIVA) are compared up to a unit factor",
               "a whitened update direction that vanishes (FastICA on sign-symmetric data) does not occur"]


def cases(tier):
    q = tier == "quick"
    out, seen = [], set()
    letters = ["mix:0", "gen:1", "quiet:2", "loud:3", "real:4", "mix:5", "mix:6", "gen:7", "int:8", "dup:9"]
    if not q:
        letters += ["%s:%d" % (a, k) for a in ("mix", "gen", "quiet", "loud", "real", "int") for k in range(10, 30)]
    else:
        letters += ["mix:10", "gen:10", "real:10", "mix:11"]
    for cls in ("FastICA", "FastIVA", "FasterIVA"):
        for fn in ("logcosh", "smooth") if cls == "FastICA" else ("laplace", "smooth"):
            for n, F, T in ((2, 3, 20), (3, 4, 24), (4, 2, 28), (5, 3, 40), (2, 8, 15), (3, 1, 33), (4, 6, 30), (6, 2, 60), (2, 33, 17)):
                for inp in letters:
                    for start in ("default", "unitary", "generic"):
                        c = {"cfg": {"cls": cls, "fn": fn, "kw": {} if cls == "FastICA" else {"scale_restoration": False}},
                             "n": n, "F": F, "T": T, "inp": inp, "start": start, "N": 6 if q else 10}
                        if case_name(c) not in seen:
                            seen.add(case_name(c))
                            out.append(c)
    return out


def case_name(c):
    return "%s/%d/%dx%d/%s/%s" % (C.cfg_name(c["cfg"]), c["n"], c["F"], c["T"], c["inp"], c["start"])


def start_kw(kind, n, F, real):
    if kind == "default":
        return {}
    W = I.generic(11, n, n, complex_=False) if real else I.generic(11, F, n, n)
    if kind == "unitary":
        W = np.linalg.qr(W)[0]
    return {"demix_filter": W}


def run(case, ctx):
    cfg, n, F = case["cfg"], case["n"], case["F"]
    ica = cfg["cls"] == "FastICA"
    X = C.shape_input(cfg, case["inp"], n, F, case["T"])
    if ica and case["inp"].startswith(("quiet", "loud")):
        X = X * (1e-3 if case["inp"].startswith("quiet") else 1e4)
    rec = D.Recorder()
    Zs = []
    start = start_kw(case["start"], n, F, ica)
    m, out = D.run(cfg, X, case["N"], callbacks=[rec, lambda k: Zs.append(k.whitened_input.copy())], call_kw=start)
    Z = Zs[0]
    for x, z in zip(X[None] if ica else X.swapaxes(0, 1), Z[None] if ica else Z.swapaxes(0, 1)):
        ctx.close(z @ z.conj().T / z.shape[1], np.eye(n), "white", rtol=1e-6)
        V = np.linalg.lstsq(x.T, z.T, rcond=None)[0].T
        ctx.close(V @ x, z, "whitening map", rtol=1e-6)
    for i, z in enumerate(Zs):
        ctx.check(np.array_equal(z, Z), "whitened input changes at %d" % i)
    step = {"FastICA": S.fastica_step, "FastIVA": S.fastiva_step, "FasterIVA": S.fasteriva_step}[cfg["cls"]]
    align = ("demix_filter",) if cfg["cls"] == "FasterIVA" else ()
    apply = (lambda W: W @ Z) if ica else (lambda W: demix(W, Z))
    if start:
        ctx.close(rec.states[0]["demix_filter"], start["demix_filter"], "start", rtol=0)
    else:
        ctx.close(rec.states[0]["demix_filter"], np.eye(n) + np.zeros(rec.states[0]["demix_filter"].shape), "start", rtol=0)
    for i, s in enumerate(rec.states):
        W = s["demix_filter"]
        ctx.state(C.cfg_name(cfg), s)
        if ica or i == 0:  # the IVA classes publish their output when the call ends
            ctx.close(s["output"], apply(W), "output%d" % i, rtol=1e-9)
        if i == 0:
            continue
        E = W @ np.swapaxes(W.conj(), -1, -2)
        ctx.close(E, np.eye(n) + np.zeros(E.shape), "orthonormal%d" % i, rtol=1e-8)
        compare(ctx, "step%d" % i, lambda p: step(cfg, p, Z), rec.states[i - 1], s, align=align)
        ctx.step()
        ctx.trace()
        ctx.outcome(cfg["cls"])
    ctx.close(out, apply(rec.states[-1]["demix_filter"]), "returned", rtol=1e-9)
    ctx.close(m.output, out, "attribute", rtol=0)
