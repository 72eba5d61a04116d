"""For every separation method x discrete option: all compositions of N iterations into successive calls
on one object, and all hand-overs of the estimated parameters to a fresh object at every split point, are
executed on the real code and must reach the very state of the uninterrupted run (states after every
segment are compared with the uninterrupted trajectory)."""

import numpy as np

from .. import configs as C
from .. import drive as D

ID = "C04"
TITLE = "Interrupted runs resume"
BOUNDS = {
    "quick": "full option product, 2 and 3 channels, N=4: all 8 compositions on one object (plus zero-length calls), all hand-over points",
    "thorough": "full option product, 2-4 channels, 3 input letters, N=6: all 32 compositions and all hand-over points",
}
ASSUMPTIONS = [
    "scale restoration and final permutation alignment are off: they deliberately change the filter at the end of a call",
    "the cACGMM documents that it re-initializes at every call (custom initialization is not supported): left out",
    "the frame variances of the Gaussian IVA are re-estimated at the beginning of every update and not handed over",
]


def compositions(n):
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):
        for rest in compositions(n - k):
            yield (k,) + rest


def prepare(cfg):
    fam = C.family(cfg)
    if fam in ("fdica",):
        return C.with_kw(cfg, scale_restoration=False, permutation_alignment=False)
    if fam in ("ica", "mnmf"):
        return cfg
    return C.with_kw(cfg, scale_restoration=False)


def cases(tier):
    seen, out = set(), []
    for cfg in C.all_configs(1):
        cfg = prepare(cfg)
        name = C.cfg_name(cfg)
        if name in seen:
            continue
        seen.add(name)
        if C.is_output_based(cfg) or cfg["cls"] == "CACGMM":
            continue
        for n_ch in (2, 3) if tier == "quick" else (2, 3, 4):
            for inp in ("mix:0",) if tier == "quick" else ("mix:0", "mix:1", "gen:2"):
                out.append({"cfg": cfg, "n_ch": n_ch, "inp": inp, "N": 4 if tier == "quick" else 6})
    for cls in ("AuxIVA", "GaussILRMA", "TILRMA", "GGDILRMA"):
        for a in ("ISS1", "ISS2", "IPA"):
            if a == "IPA" and cls in ("TILRMA", "GGDILRMA"):
                continue
            kw = {"spatial_algorithm": a, "scale_restoration": False}
            if cls != "AuxIVA":
                kw["n_basis"] = 2
            if cls == "TILRMA":
                kw["dof"] = 5
            if cls == "GGDILRMA":
                kw["beta"] = 1.5
            cfg = {"cls": cls, "kw": kw}
            if cls == "AuxIVA":
                cfg["fn"] = "laplace"
            out.append({"cfg": cfg, "n_ch": 2, "inp": "mix:0", "N": 2})
    return out


def case_name(case):
    return "%s/%d/%s" % (C.cfg_name(case["cfg"]), case["n_ch"], case["inp"])


HANDOVER = ("demix_filter", "basis", "activation", "latent", "spatial", "diagonalizer", "mixing", "covariance",
            "dual", "dual1", "dual2", "auxiliary1", "auxiliary2")


def handover_kw(method):
    kw = {}
    for a in HANDOVER:
        v = getattr(method, a, None)
        if isinstance(v, np.ndarray):
            kw[a] = v.copy()
        elif isinstance(v, (tuple, list)):
            kw[a] = type(v)(u.copy() for u in v)
    return kw


def run(case, ctx):
    cfg, N = case["cfg"], case["N"]
    x = C.shape_input(cfg, case["inp"], case["n_ch"], 4, 16)
    rec = D.Recorder()
    ref, out_ref = D.run(cfg, x, N, callbacks=rec)
    traj = rec.states
    loss_ref = None if not ref.loss else np.array(ref.loss, float)
    hor = D.ok_iterations(traj)
    if hor <= N and "ADMM" not in cfg["cls"]:
        ctx.outcome("non-finite")
    for s in traj:
        ctx.state(C.cfg_name(cfg), s)
    final_ref = params(ref)
    for comp in compositions(N):
        for zero in (False, True):
            m = C.build(cfg, record_loss=D.can_record(cfg))
            done = 0
            out = None
            for i, k in enumerate(comp):
                if zero:  # a call with no iteration in between changes nothing
                    m(x, n_iter=0, initial_call=False)
                r = D.Recorder()
                m.callbacks = [r]
                out = m(x, n_iter=k, initial_call=(i == 0))
                ctx.step(k)
                got = r.states[(1 if i == 0 else 0):]
                for j, s in enumerate(got):
                    if done + 1 + j < hor:
                        D.same_state(ctx, strip(s, cfg), strip(traj[done + 1 + j], cfg),
                                     "comp%s%s:%d" % ("+".join(map(str, comp)), "z" if zero else "", done + 1 + j))
                done += k
            ctx.trace()
            key = "comp%s%s" % ("+".join(map(str, comp)), "z" if zero else "")
            if hor > N:
                ctx.close(out, out_ref, key + ":output", rtol=1e-8)
                D.same_state(ctx, params(m), final_ref, key + ":final")
                if loss_ref is not None:
                    ctx.close(np.array(m.loss, float), loss_ref, key + ":loss", rtol=1e-8)
            ctx.outcome("%d calls" % len(comp))
    for split in range(0, N + 1):
        first, _ = D.run(cfg, x, split)
        kw = handover_kw(first)
        keep = {k: (v.copy() if isinstance(v, np.ndarray) else type(v)(u.copy() for u in v)) for k, v in kw.items()}
        r = D.Recorder()
        second, out = D.run(cfg, x, N - split, initial_call=True, callbacks=r, call_kw=kw)
        ctx.step(N)
        ctx.trace()
        for j, s in enumerate(r.states):
            if split + j < hor:
                # before the first step only the handed-over parameters are defined
                a, b = strip(s, cfg), strip(traj[split + j], cfg)
                if j == 0:
                    a = {k: v for k, v in a.items() if k in keep}
                    b = {k: v for k, v in b.items() if k in keep}
                D.same_state(ctx, a, b, "handover%d:%d" % (split, split + j))
        for k, v in keep.items():
            for u, w in zip(v if not isinstance(v, np.ndarray) else [v], kw[k] if not isinstance(v, np.ndarray) else [kw[k]]):
                ctx.check(np.array_equal(u, w, equal_nan=True), "handover%d:mutated:%s" % (split, k), "given %s was overwritten" % k)
        if hor > N:
            ctx.close(out, out_ref, "handover%d:output" % split, rtol=1e-8)
            if loss_ref is not None and second.loss:
                ctx.close(np.array(second.loss[1:], float), loss_ref[split + 1 :], "handover%d:loss" % split, rtol=1e-8)
        ctx.outcome("handover")


def strip(s, cfg):
    """the estimated parameters; the separated signal is checked at the end of a call"""
    return {k: v for k, v in s.items() if k not in ("output", "posterior", "variance", "instant_covariance")}


def params(m):
    return {k: v for k, v in C.snapshot(m).items() if k not in ("variance", "instant_covariance")}
