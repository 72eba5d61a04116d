"""Every method x option x state {constructed, run for 0 iterations, run for 2, run for 2 and queried before} x every sequence
of two queries drawn from {separate, reconstruct, log-determinant, loss}, and restoring the scale afterwards: each answer is compared
with entry-by-entry formulas evaluated on the arguments alone (other sizes than the ones of the object, other values than
its parameters, three memory layouts), every attribute of the object and every argument must be unchanged by a query, and
asking twice gives the same answer."""

import itertools
import warnings

import numpy as np

from .. import configs as C
from .. import drive as D
from .. import inputs as I
from ..ref import em as E
from ..ref import lowrank as L
from ..ref import loss as LS
from ..stepcheck import compare

ID = "C31"
TITLE = "Query operations answer from their arguments and change nothing"
BOUNDS = {
    "quick": "all methods and options, 4 states, all ordered pairs of queries, 2-3 channels, 2 letters, 3 sets of arguments, 3 layouts",
    "thorough": "as quick, all ordered triples of queries, 2-4 channels, 4 letters, 6 sets of arguments",
}
ASSUMPTIONS = ["filters given to separate and compute_logdet have as many rows and columns as the object has channels"]
SIZES = [(1, 1, 1), (3, 5, 2), (2, 1, 9), (5, 2, 3), (4, 7, 7), (2, 3, 4)]  # bins, frames, basis vectors of the arguments
PB = (True, "PB", "projection_back", "projection-back")
MDP = ("MDP", "minimal_distortion_principle", "minimal-distortion-principle")


def cases(tier):
    q = tier == "quick"
    out = []
    for cfg in C.all_configs(1):
        for n in (2, 3) if q else (2, 3, 4):
            for inp in ("mix:0", "gen:1") if q else ("mix:0", "gen:1", "real:2", "mix:3"):
                for N in (None, 0, 2):
                    out.append({"cfg": cfg, "n": n, "inp": inp, "N": N, "depth": 2 if q else 3, "sets": 3 if q else 6})
    return out


def case_name(c):
    return "%s/%d/%s/%s" % (C.cfg_name(c["cfg"]), c["n"], c["inp"], c["N"])


def layouts(x):
    return x.copy(), np.asfortranarray(x), np.repeat(x, 2, axis=-1)[..., ::2]


def logdets(M, kind="filter"):
    out = np.zeros(M.shape[:-2])
    for i in np.ndindex(*out.shape):
        s = np.linalg.svd(M[i], compute_uv=False)
        out[i] = sum(np.log(v) for v in s)
    return out


def ask(ctx, key, m, fn, args, expected, rtol=1e-8):
    """one query in three layouts; arguments unchanged"""
    for k, lay in enumerate(zip(*[layouts(a) for a in args])):
        keep = [a.copy() for a in lay]
        got = fn(*lay)
        ctx.step()
        ctx.close(np.asarray(got), expected, "%s:layout%d" % (key, k), rtol=rtol)
        for a, b in zip(lay, keep):
            ctx.check(np.array_equal(a, b), key + ":mutated", "argument changed")
    return got


def queries(cfg, m, n, X, N, nsets, ctx, losses):
    """name -> function of no arguments performing the query with all its argument sets"""
    from ssspy.transform import whiten

    fam, name = C.family(cfg), cfg["cls"]
    ran = N is not None
    ops = {}
    F, T = X.shape[1:] if X.ndim == 3 else (None, X.shape[1])
    ns = cfg["kw"].get("n_sources", n)
    ref = cfg["kw"].get("reference_id", 0)

    def separate():
        for j, (f, t, _) in enumerate(SIZES[:nsets]):
            t = t + n if "Fast" in name or fam == "ica" else t
            if fam == "ica":
                x, W = I.generic(j, n, t + 2 * n, complex_=False), I.generic(9 + j, n, n, complex_=False)
                for white in (None, True, False) if name == "FastICA" else (None,):
                    kw = {} if white is None else {"use_whitening": white}
                    z = whiten(x) if name == "FastICA" and white is not False else x
                    exp = np.array([[sum(W[a, c] * z[c, s] for c in range(n)) for s in range(z.shape[1])] for a in range(n)])
                    ask(ctx, "separate%d:%s" % (j, white), m, lambda u, w: m.separate(u, demix_filter=w, **kw), (x, W), exp)
            elif fam == "mnmf":
                if ran:
                    x = I.generic(20 + j, n, F, T)
                    s = C.snapshot(m)
                    H = (lambda p: p["spatial"]) if name == "GaussMNMF" else L.fast_cov
                    got = [m.separate(a) for a in layouts(x)]
                    ctx.step(3)
                    for g in got:
                        compare(ctx, "separate%d" % j, lambda p: {"Y": L.wiener(L.variances(p), H(p), x, ref)}, s, {"Y": g}, rtol=1e-6)
            elif fam == "cacgmm":
                x, G = I.generic(20 + j, n, f, t), np.abs(I.generic(30 + j, ns, f, t))
                ask(ctx, "separate%d" % j, m, lambda u, g: m.separate(u, posterior=g), (x, G), np.array([G[k] * x[ref] for k in range(ns)]))
                if ran:
                    x = I.generic(40 + j, n, F, T)
                    s = C.snapshot(m)
                    compare(ctx, "separate own%d" % j, lambda p: {"Y": E.posterior(p["mixing"], p["covariance"], X) * x[ref]}, s, {"Y": m.separate(x)})
                    ctx.step()
            else:
                fixed = name in ("FastIVA", "FasterIVA")
                x, W = I.generic(j, n, f, t + (3 * n if fixed else 0)), I.generic(9 + j, f, n, n)
                for white in (None, True, False) if fixed else (None,):
                    kw = {} if white is None else {"use_whitening": white}
                    z = whiten(x) if fixed and white is not False else x
                    exp = np.zeros((n,) + z.shape[1:], complex)
                    for a in range(n):
                        for c in range(n):
                            exp[a] += W[:, a, c, None] * z[c]
                    ask(ctx, "separate%d:%s" % (j, white), m, lambda u, w: m.separate(u, demix_filter=w, **kw), (x, W), exp)

    ops["separate"] = separate
    if hasattr(m, "compute_logdet"):

        def logdet():
            for j, (f, t, _) in enumerate(SIZES[:nsets]):
                shape = {"ica": (n, n), "cacgmm": (ns, f, n, n)}.get(fam, (f, t, n, n) if name == "GaussMNMF" else (f, n, n))
                M = I.generic(50 + j, *shape, complex_=fam != "ica")
                if fam == "cacgmm" or name == "GaussMNMF":
                    M = M @ np.swapaxes(M.conj(), -1, -2)
                for gain in (1, 1e-200, 1e200):
                    ask(ctx, "logdet%d:%g" % (j, gain), m, m.compute_logdet, (gain * M,), logdets(M) + n * np.log(gain), rtol=1e-7)

        ops["logdet"] = logdet
    if hasattr(m, "reconstruct_nmf"):

        def reconstruct():
            for j, (f, t, k) in enumerate(SIZES[:nsets]):
                Tz, Vz, Z = np.abs(I.generic(60 + j, f, k)), np.abs(I.generic(70 + j, k, t)), np.abs(I.generic(80 + j, ns, k))
                exp = np.zeros((ns, f, t))
                for a in range(ns):
                    for b in range(k):
                        exp[a] += Z[a, b] * np.multiply.outer(Tz[:, b], Vz[b])
                ask(ctx, "nmf%d:latent" % j, m, lambda a, b, c: m.reconstruct_nmf(a, b, latent=c), (Tz, Vz, Z), exp)
                T2, V2 = np.abs(I.generic(61 + j, ns, f, k)), np.abs(I.generic(71 + j, ns, k, t))
                full = np.zeros((ns, f, t))
                for a in range(ns):
                    for b in range(k):
                        full[a] += np.multiply.outer(T2[a, :, b], V2[a, b])
                ask(ctx, "nmf%d:own" % j, m, lambda a, b: m.reconstruct_nmf(a, b), (T2, V2), full)
                ask(ctx, "nmf%d:none" % j, m, lambda a, b: m.reconstruct_nmf(a, b, latent=None), (T2, V2), full)
                if hasattr(m, "reconstruct_mnmf"):
                    A = I.generic(90 + j, ns, f, n, n)
                    H = A @ np.swapaxes(A.conj(), -1, -2)
                    for lam, args, kw in ((exp, (Tz, Vz, H, Z), True), (full, (T2, V2, H), False)):
                        R = np.zeros((f, t, n, n), complex)
                        for a in range(ns):
                            for i in range(f):
                                R[i] += lam[a, i, :, None, None] * H[a, i]
                        fn = (lambda a, b, h, z: m.reconstruct_mnmf(a, b, h, latent=z)) if kw else (lambda a, b, h: m.reconstruct_mnmf(a, b, h))
                        ask(ctx, "mnmf%d:%s" % (j, kw), m, fn, args, R)

        ops["reconstruct"] = reconstruct
    if hasattr(m, "reconstruct_psdtf"):

        def psdtf():
            for j, (f, t, k) in enumerate(SIZES[:nsets]):
                A = I.generic(100 + j, ns, k, f, f)
                B = A @ np.swapaxes(A.conj(), -1, -2) + np.eye(f)
                V = 0.1 + np.abs(I.generic(110 + j, ns, k, t))
                exp = np.zeros((ns, t, f, f), complex)
                for a in range(ns):
                    for b in range(k):
                        exp[a] += V[a, b, :, None, None] * B[a, b]
                for tag, arg, kw in (("default", B, {}), ("positive", B, {"axis1": 2, "axis2": 3}), ("first", B.transpose(0, 2, 3, 1), {"axis1": 1, "axis2": 2}),
                                     ("firstneg", B.transpose(0, 2, 3, 1), {"axis1": -3, "axis2": -2})):
                    ask(ctx, "psdtf%d:%s" % (j, tag), m, lambda a, v: m.reconstruct_psdtf(a, v, **kw), (arg, V), exp)
                if not hasattr(m, "reconstruct_block_decomposition_psdtf"):
                    continue

                def blocks(nb, w, seed):
                    A = I.generic(seed, ns, k, nb, w, w)
                    return A @ np.swapaxes(A.conj(), -1, -2) + np.eye(w)

                def total(B):
                    out = np.zeros((ns, t) + B.shape[2:], complex)
                    for a in range(ns):
                        for b in range(k):
                            out[a] += V[a, b].reshape(t, 1, 1, 1) * B[a, b]
                    return out

                for tag, tr, kw in (("default", None, {}), ("positive", None, {"axis1": 3, "axis2": 4}), ("first", (0, 2, 3, 4, 1), {"axis1": 2, "axis2": 3}),
                                    ("firstneg", (0, 2, 3, 4, 1), {"axis1": -3, "axis2": -2})):
                    same, low, high = blocks(2, f, 120 + j), blocks(2, f, 130 + j), blocks(1, f + 1, 140 + j)
                    put = (lambda B: B) if tr is None else (lambda B: B.transpose(tr))
                    if getattr(m, "n_remains", 0) == 0 if ran else False:
                        ask(ctx, "blocks%d:%s" % (j, tag), m, lambda a, v: m.reconstruct_block_decomposition_psdtf(a, v, **kw), (put(same), V), total(same))
                    elif ran:
                        for lay in zip(layouts(put(low)), layouts(put(high)), layouts(V)):
                            keep = [a.copy() for a in lay]
                            got = m.reconstruct_block_decomposition_psdtf(lay[:2], lay[2], **kw)
                            ctx.step()
                            ctx.close(got[0], total(low), "blocks%d:%s:low" % (j, tag), rtol=1e-8)
                            ctx.close(got[1], total(high), "blocks%d:%s:high" % (j, tag), rtol=1e-8)
                            ctx.check(all(np.array_equal(a, b) for a, b in zip(lay, keep)), "blocks:mutated", "argument changed")

        ops["psdtf"] = psdtf
    if ran and D.can_record(cfg) and not (name in ("FastICA", "FastIVA", "FasterIVA")):

        def loss():
            a, b = m.compute_loss(), m.compute_loss()
            ctx.step(2)
            ctx.check(a == b or (a != a and b != b), "loss:twice", "%r then %r" % (a, b))
            ctx.check(type(a) is float, "loss:type", "%r" % type(a))
            if losses and not (name.endswith("FDICA") or fam == "cacgmm"):  # these reorder the sources bin by bin after the last record
                ctx.check(a == losses[-1] or abs(a - losses[-1]) <= 1e-9 * (1 + abs(a)), "loss:last", "computed %r recorded last %r" % (a, losses[-1]))

        ops["loss"] = loss
    return ops


def run(case, ctx):
    cfg, n, N = case["cfg"], case["n"], case["N"]
    fam = C.family(cfg)
    X = C.shape_input(cfg, case["inp"], n, 4, 6 * n + 2)
    if fam == "prox":
        X = 0.9 * X
    off = {} if fam in ("ica", "cacgmm", "mnmf") else {"scale_restoration": False}

    def fresh():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = C.build(cfg, **off)
            if N is not None:
                m(X.copy(), n_iter=N)
        return m

    m = fresh()
    losses = list(m.loss) if getattr(m, "loss", None) else []
    names = list(queries(cfg, m, n, X, N, 1, ctx, losses))
    ctx.outcome("%s:%d" % (fam, len(names)))
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for seq in itertools.product(names, repeat=case["depth"]):
            m = fresh() if seq[0] != seq[-1] else m
            ops = queries(cfg, m, n, X, N, case["sets"] if len(set(seq)) == 1 else 1, ctx, losses)
            for i, op in enumerate(seq):
                before, deep = dict(m.__dict__), C.snapshot(m)
                ops[op]()
                after = m.__dict__
                key = "+".join(seq[: i + 1])
                ctx.check(sorted(after) == sorted(before) and all(after[k] is before[k] for k in before), "pure:" + op, "attributes changed by %s" % key)
                D.same_state(ctx, C.snapshot(m), deep, "state:" + op, rtol=0)
                ctx.state(C.cfg_name(cfg), case["n"], case["inp"], N, seq[: i + 1], deep)
            ctx.trace()
        if not off or N is None:
            return
        # asking for the scale afterwards is the same as having asked for it at construction
        for name in PB + MDP:
            for ref in range(n) if name in (True, "MDP") else (n - 1,):
                if cfg["kw"].get("normalization") == "projection_back" and ref != cfg["kw"].get("reference_id", 0):
                    continue  # the loop itself refers to the reference channel
                a, b = fresh(), C.build(cfg, scale_restoration=name, reference_id=ref)
                try:
                    want = b(X.copy(), n_iter=N)
                except np.linalg.LinAlgError:
                    ctx.outcome("singular")
                    continue
                if not np.isfinite(want).all():
                    continue
                a.scale_restoration, a.reference_id = name, ref
                for rounds in range(2):
                    if rounds and min(np.linalg.norm(k) for k in want.reshape(-1, want.shape[-1])) < 1e-6 * np.linalg.norm(want):
                        break  # a source without any part in the reference channel was scaled to zero: no way back
                    a.restore_scale()
                    ctx.step()
                    src = a.whitened_input if cfg["cls"] in ("FastIVA", "FasterIVA") else X
                    got = a.output if a.demix_filter is None else np.stack([a.demix_filter[f] @ src[:, f] for f in range(X.shape[1])], 1)
                    ctx.close(got, want, "restore:%s:%d:%d" % (name, ref, rounds), rtol=1e-6)
                    if (a.demix_filter is None) == (b.demix_filter is None) and a.demix_filter is not None:
                        ctx.close(a.demix_filter, b.demix_filter, "restore filter:%s:%d:%d" % (name, ref, rounds), rtol=1e-6)
                    if name in MDP:
                        a.output = got  # minimal distortion starts from the current output
