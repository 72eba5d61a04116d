"""Every placement of silent frames within the bound (all subsets of silent frames that keep the mixture full-rank), repeated,
real, integer, very loud and very quiet signals, for every method x option: each state, the result and the loss must stay finite,
silent frames must come out silent, and flooring must be inactive where nothing vanishes (runs without flooring coincide; silent frames
leave no trace in auxiliary-function methods, compared with the run on the remaining frames)."""

import inspect
import itertools

import numpy as np

from .. import configs as C
from .. import drive as D

ID = "C15"
TITLE = "Silent and degenerate inputs never poison the result"
BOUNDS = {
    "quick": "level-0 options: all subsets of up to 3 silent frames of 8; full option product: each single silent frame, 3 runs of frames, 9 degenerate letters; single silent frames and runs under minimal-distortion rescaling; 2-3 channels, 3 iterations",
    "thorough": "full option product: all subsets of up to 3 silent frames of 9, 2-3 channels, 4 iterations; 12 iterations on 24 frames",
}
ASSUMPTIONS = [
    "the mixture has full rank in every bin (at least as many sounding frames as parameters per filter)",
    "signals louder than the step size of a gradient method allows are left out (they diverge for any implementation)",
    "long runs of low-rank models with domain 1 on real signals are left out: their likelihood is unbounded (one filter can null a frame in every bin) and the eigensolver eventually raises LinAlgError",
    "the first ADMM iterate is the zero filter by definition, its recorded log-determinant is not judged",
]
N_SIL = 8


def cases(tier):
    q = tier == "quick"
    out, seen = [], set()

    def add(cfg, kind, n, T, N, **k):
        c = dict(cfg=cfg, kind=kind, n=n, T=T, N=N, **k)
        if case_name(c) not in seen:
            seen.add(case_name(c))
            out.append(c)

    for level, configs in ((0, C.all_configs(0)), (1, C.all_configs(1))):
        for cfg in configs:
            full = level == 0 or not q
            for n in (2, 3) if full else (2,):
                T = N_SIL + 4 * (n - 2) + (0 if q else 1)
                if full:
                    for k in (1, 2, 3) if n == 2 else (1, 2):
                        add(cfg, "subsets", n, T, 3 if q else 4, size=k)
                else:
                    add(cfg, "subsets", n, T, 3, size=1)
                for inp in ("run:0-2", "run:%d-%d" % (T - 3, T - 1), "run:4-6", "real:1", "int:2", "dup:3", "silentdup:3", "loud:3", "loud:6", "quiet:3", "quiet:6", "mix:4"):
                    grad = "Grad" in cfg["cls"] or C.family(cfg) == "prox"
                    if inp.startswith("loud") and grad or inp.startswith("quiet:6") and cfg["cls"] == "none":
                        continue
                    add(cfg, "letter", n, 3 * T, 3, inp=inp)
                if level == 0 and "scale_restoration" in inspect.signature(C.CLASSES[cfg["cls"]].__init__).parameters:
                    mdp = C.with_kw(cfg, scale_restoration="minimal_distortion_principle")
                    add(mdp, "subsets", n, T, 2, size=1)
                    for inp in ("run:0-2", "run:%d-%d" % (T - 3, T - 1), "run:4-6", "loud:3", "quiet:3"):
                        if not (inp == "loud:3" and ("Grad" in cfg["cls"] or C.family(cfg) == "prox")):
                            add(mdp, "letter", n, T + 4, 2, inp=inp)
            if not q or level == 0:
                for inp in ("run:0-3", "every:3", "real:1"):
                    if C.family(cfg) in ("ica", "prox") or "Grad" in cfg["cls"]:
                        continue
                    if inp == "real:1" and cfg["kw"].get("domain") == 1:
                        continue  # unbounded likelihood (a real filter nulls one frame in all bins): the pencil solver raises, by design
                    add(cfg, "long", 2, 30, 6 if q else 12, inp=inp)
            if C.family(cfg) != "ipsdta" and "HVA" not in cfg["cls"]:  # (vanishing entries are part of these methods)
                add(cfg, "nofloor", 2, 20, 3, inp="mix:0")
                add(cfg, "nofloor", 3, 26, 2, inp="mix:1")
            if (
                cfg["cls"].startswith("Aux")
                and cfg["kw"].get("spatial_algorithm") != "IPA"
                and ("Laplace" in cfg["cls"] or "Gauss" in cfg["cls"] or cfg.get("fn") == "laplace")
            ):  # scale-homogeneous contrasts: weighting by the number of frames changes nothing
                for k in (1, 2):
                    add(cfg, "drop", 2, 12, 2, size=k)
    return out


def case_name(c):
    return "%s/%s/%d/%d/%s" % (C.cfg_name(c["cfg"]), c["kind"], c["n"], c["T"], c.get("inp", c.get("size", "")))


def signal(cfg, n, F, T, inp="mix:0", silent=()):
    shown = {"cls": cfg["cls"], "kw": {}, "fn": cfg.get("fn", "l1")}
    kind, _, arg = inp.partition(":")
    ica = C.family(cfg) == "ica"
    base = inp if kind in ("mix", "real", "int", "dup") and not ica else "mix:" + (arg if arg.isdigit() else "0")
    x = C.shape_input(shown, base, n, 1 if ica else F, T)
    if ica and kind == "int":
        x = np.round(3 * x)
    if kind in ("dup", "silentdup"):
        x[..., 1] = x[..., 0]
    if kind == "silentdup":
        x[..., 3] = 0
    if kind == "loud":
        x = x * 10.0 ** int(arg)
    if kind == "quiet":
        x = x * 10.0 ** -int(arg)
    if kind == "run":
        a, b = map(int, arg.split("-"))
        x[..., a : b + 1] = 0
    if kind == "every":
        x[..., :: int(arg)] = 0
    if C.family(cfg) == "prox":
        x = 0.9 * x
    x[..., list(silent)] = 0
    return x


def judge(ctx, cfg, key, x, N, **extra):
    rec = D.Recorder()
    m, out = D.run(cfg, x, N, callbacks=rec, **extra)
    ctx.step(N)
    ctx.trace()
    ok = True
    for i, s in enumerate(rec.states):
        ctx.state(C.cfg_name(cfg), s)
        for k, v in s.items():
            ok &= ctx.check(np.isfinite(v).all(), "%s:iter%d:%s" % (key, i, k), "not finite")
    ok &= ctx.check(np.isfinite(out).all(), key + ":output", "result is not finite")
    if m.loss is not None and "ADMM" not in cfg["cls"]:
        ctx.check(np.isfinite(np.array(m.loss, float)).all(), key + ":loss", lambda: "recorded loss %s" % m.loss)
    silent = np.all(x == 0, axis=tuple(range(x.ndim - 1)))
    if silent.any() and cfg["cls"] not in ("FastICA", "FastIVA", "FasterIVA") and ok:
        ctx.check(not np.any(out[..., silent]), key + ":silence", "sound in silent frames")
    return m, out, rec.states


def run(case, ctx):
    cfg, kind, n, T, N = case["cfg"], case["kind"], case["n"], case["T"], case["N"]
    F = 3
    ctx.outcome(kind)
    if kind == "subsets":
        for sil in itertools.combinations(range(T), case["size"]):
            judge(ctx, cfg, "silent" + "".join("+%d" % s for s in sil), signal(cfg, n, F, T, silent=sil), N)
    elif kind in ("letter", "long"):
        judge(ctx, cfg, case["inp"], signal(cfg, n, F, T, case["inp"]), N)
    elif kind == "nofloor":
        x = signal(cfg, n, F, T, case["inp"])
        _, out, states = judge(ctx, cfg, "default", x, N)
        try:
            obj = C.build(cfg, flooring_fn=None)
        except TypeError:  # a class without flooring
            return ctx.outcome("no flooring option")
        if any(np.abs(s[k]).min() < 1e-8 for s in states for k in ("basis", "activation", "latent") if k in s and C.family(cfg) != "ipsdta"):
            return ctx.outcome("floor active")
        _, out2, states2 = judge(ctx, cfg, "without", x, N, flooring_fn=None)
        for i, (s, t) in enumerate(zip(states, states2)):
            D.same_state(ctx, s, t, "unfloored:iter%d" % i, rtol=1e-7)
        ctx.close(out, out2, "unfloored:output", rtol=1e-6)
    else:
        for sil in itertools.combinations(range(T), case["size"]):
            x = signal(cfg, n, F, T, silent=sil)
            keep = [t for t in range(T) if t not in sil]
            extra = {"permutation_alignment": False} if C.family(cfg) == "fdica" else {}
            _, a, _ = judge(ctx, cfg, "with%s" % (sil,), x, N, **extra)
            _, b, _ = judge(ctx, cfg, "drop%s" % (sil,), x[..., keep], N, **extra)
            ctx.close(a[..., keep], b, "trace%s" % "".join("+%d" % s for s in sil), rtol=1e-5)
