"""Every pair of configurations documented to be equivalent (synonyms, special cases, limits, deprecated spellings) is run
side by side on every letter, from the default and a given start; the states after every iteration, the results and the loss
records must coincide (for limit relations: within the documented distance to the limit)."""

import warnings

import numpy as np

from .. import configs as C
from .. import drive as D
from .. import inputs as I
from . import c02

ID = "C12"
TITLE = "Equivalent configurations give identical results"
BOUNDS = {
    "quick": "all pairs of equivalent configurations, 3 letters, 2-4 sources, 2 starts, 4 iterations",
    "thorough": "all pairs of equivalent configurations, 8 letters, 2-5 sources, 2 starts, 6 iterations",
}
ASSUMPTIONS = [
    "limits (shape to 2, degrees of freedom to infinity) are taken at shape 2-1e-7 and 1e9 degrees of freedom",
    "partitioned models start from one-hot latent variables, whose zeros are floored: compared up to the floor",
]


def c(cls, fn=None, sel=None, call=None, **kw):
    d = {"cls": cls, "kw": kw}
    if fn:
        d["fn"] = fn
    if sel:
        d["sel"] = sel
    if call:
        d["call"] = call
    return d


def plain(cfg, **kw):
    return {k: v for k, v in C.with_kw(cfg, **kw).items()}


def pairs():
    """(name, mode, a, b, F or None)"""
    out = []

    def add(name, a, b, mode="exact", F=None):
        out.append((name, mode, a, b, F))

    # names of spatial algorithms
    seen = set()
    for cfg in C.all_configs(1):
        for key in ("spatial_algorithm", "diagonalizer_algorithm"):
            v = cfg["kw"].get(key)
            if v in ("IP", "ISS"):
                add("synonym", cfg, C.with_kw(cfg, **{key: v + "1"}))
                kw = {k: u for k, u in cfg["kw"].items() if k != key}
                if v == "IP":
                    add("default-algorithm", cfg, dict(cfg, kw=kw))
    for cls in ("GaussILRMA", "TILRMA", "GGDILRMA"):
        for a in ("IP1", "ISS1"):
            for part in (False, True):
                kw = {"n_basis": 2, "spatial_algorithm": a, "partitioning": part}
                if cls == "TILRMA":
                    kw["dof"] = 5
                if cls == "GGDILRMA":
                    kw["beta"] = 1.5
                add("normalization-name", c(cls, **kw), c(cls, normalization="power", **kw))
    for a in ("IP", "IP2"):
        add("normalization-name", c("FastGaussMNMF", n_basis=2, diagonalizer_algorithm=a),
            c("FastGaussMNMF", n_basis=2, diagonalizer_algorithm=a, normalization="power"))
    add("alignment-name", c("CACGMM", permutation_alignment=True), c("CACGMM", permutation_alignment="posterior_score"))
    for cls in ("AuxLaplaceFDICA", "GradLaplaceFDICA", "NaturalGradLaplaceFDICA"):
        add("alignment-name", c(cls, permutation_alignment=True), c(cls, permutation_alignment="spectrogram_correlation"))
    # names of the rescaling
    for cfg in (c("GradIVA", "laplace"), c("NaturalGradLaplaceIVA"), c("FastIVA", "smooth"), c("FasterIVA", "smooth"), c("AuxIVA", "laplace"),
                c("AuxLaplaceIVA", spatial_algorithm="ISS1"), c("AuxLaplaceFDICA"), c("GradLaplaceFDICA"), c("GaussILRMA", n_basis=2),
                c("TILRMA", n_basis=2, dof=5, spatial_algorithm="ISS2"), c("GGDILRMA", n_basis=2, beta=1.5), c("GaussIPSDTA", n_basis=2, n_blocks=2),
                c("PDSBSS", "l21"), c("ADMMBSS", "l21"), c("HVA")):
        for first, *others in ((True, "projection_back", "projection-back", "PB"), ("minimal_distortion_principle", "minimal-distortion-principle", "MDP")):
            if cfg["cls"] in C.PROXM and first != True:  # noqa: E712
                pass
            for o in others:
                add("rescaling-name", C.with_kw(cfg, scale_restoration=first), C.with_kw(cfg, scale_restoration=o))
    # named models are the generic method with the same functions
    for h in (False, True):
        for p in ("Grad", "NaturalGrad"):
            add("named", c(p + "LaplaceICA", is_holonomic=h), c(p + "ICA", "x:ica", is_holonomic=h))
            add("named", c(p + "LaplaceFDICA", is_holonomic=h), c(p + "FDICA", "x:laplace", is_holonomic=h))
            add("named", c(p + "LaplaceIVA", is_holonomic=h), c(p + "IVA", "x:laplace", is_holonomic=h))
            add("named", c(p + "GaussIVA", is_holonomic=h), c(p + "IVA", "x:gauss", is_holonomic=h))
    for a in ("IP1", "IP2"):
        for sel in (None, "combination", "reversed"):
            add("named", c("AuxLaplaceFDICA", None, sel, spatial_algorithm=a), c("AuxFDICA", "x:laplace", sel, spatial_algorithm=a))
    for a in ("IP1", "IP2", "ISS1", "ISS2", "IPA"):
        for sel in (None, "combination", "reversed") if a.endswith("2") else (None,):
            add("named", c("AuxLaplaceIVA", None, sel, spatial_algorithm=a), c("AuxIVA", "x:laplace", sel, spatial_algorithm=a))
            add("named", c("AuxGaussIVA", None, sel, spatial_algorithm=a), c("AuxIVA", "x:gauss", sel, spatial_algorithm=a))
    # limits of the source models
    for a in ("IP1", "IP2", "ISS1", "ISS2"):
        for src in ("MM", "ME"):
            for p in (2, 1) if src == "MM" else (2,):
                for part in (False, True):
                    kw = {"n_basis": 2, "spatial_algorithm": a, "source_algorithm": src, "domain": p, "partitioning": part}
                    add("limit", c("GaussILRMA", **kw), c("TILRMA", dof=1e9, **kw), "limit")
                    if src == "MM":
                        add("limit", c("GaussILRMA", **kw), c("GGDILRMA", beta=2 - 1e-7, **kw), "limit")
    for nb in (1, 2):
        for nrm in (True, False):
            kw = {"n_basis": 2, "n_blocks": nb, "source_normalization": nrm}
            add("limit", c("GaussIPSDTA", **kw), c("TIPSDTA", dof=1e9, **kw), "limit")
    # two sources: pairwise steering and pairwise projection solve the same problem
    for cls, kw in (("AuxLaplaceIVA", {}), ("AuxGaussIVA", {}), ("GaussILRMA", {"n_basis": 2}), ("TILRMA", {"n_basis": 2, "dof": 5}),
                    ("GGDILRMA", {"n_basis": 2, "beta": 1.5}), ("GaussILRMA", {"n_basis": 2, "partitioning": True})):
        for sr in (True, False, "MDP"):
            k = dict(kw, scale_restoration=sr)
            add("steering2", c(cls, None, "combination", spatial_algorithm="IP2", **k), c(cls, None, "combination", spatial_algorithm="ISS2", **k), "modulus")
    # penalties, masks, wrappers, deprecated spellings
    for rel in (1, 0.75):
        for fn in ("l1", "l21"):
            for cls in ("PDSBSS", "ADMMBSS"):
                add("penalty-list", c(cls, fn, relaxation=rel), c(cls, "list:" + fn, relaxation=rel), "penalty")
                add("mask", c(cls, fn, relaxation=rel), c("Masking" + cls, fn, relaxation=rel), "noloss")
                add("alpha", c(cls, fn, relaxation=rel), c(cls, fn, alpha=rel))
                add("alpha", c("Masking" + cls, fn, relaxation=rel), c("Masking" + cls, fn, alpha=rel))
        for cls in ("PDSIVA", "ADMMIVA"):
            add("alpha", c(cls, "l21", relaxation=rel), c(cls, "l21", alpha=rel))
            add("iva", c(cls, "l21", relaxation=rel), c(cls.replace("IVA", "BSS"), "l21", relaxation=rel))
        for it in (1, 2):
            for cls in ("HVA", "MaskingPDSHVA", "MaskingADMMHVA"):
                add("alpha", c(cls, relaxation=rel, mask_iter=it), c(cls, alpha=rel, mask_iter=it))
            for att in (None, 0.4):
                kw = {"relaxation": rel, "mask_iter": it, "attenuation": att}
                add("hva", c("HVA", **kw), c("MaskingPDSHVA", **kw))
    for fn in ("l1", "l21", "l1+l21"):
        add("aux-name", c("ADMMBSS", fn, call="auxiliary"), c("ADMMBSS", fn, call="aux"))
    add("aux-name", c("MaskingADMMBSS", "l1", call="auxiliary"), c("MaskingADMMBSS", "l1", call="aux"))
    # one frequency
    for h in (False, True):
        for p in ("Grad", "NaturalGrad"):
            add("onebin", c(p + "LaplaceIVA", is_holonomic=h), c(p + "LaplaceFDICA", is_holonomic=h), F=1)
            add("onebin", c(p + "IVA", "smooth", is_holonomic=h), c(p + "FDICA", "smooth", is_holonomic=h), F=1)
    for a in ("IP1", "IP2"):
        for sel in (None, "combination", "reversed"):
            add("onebin", c("AuxLaplaceIVA", None, sel, spatial_algorithm=a), c("AuxLaplaceFDICA", None, sel, spatial_algorithm=a), F=1)
            add("onebin", c("AuxIVA", "smooth", sel, spatial_algorithm=a), c("AuxFDICA", "smooth", sel, spatial_algorithm=a), F=1)
    # clustered bases with one-hot latent variables are separate bases
    for a in ("IP1", "IP2", "ISS1", "ISS2", "IPA"):
        for src in ("MM", "ME"):
            for p in (2, 1) if src == "MM" else (2,):
                kw = {"n_basis": 2, "spatial_algorithm": a, "source_algorithm": src, "domain": p, "normalization": False}
                for cls, e in (("GaussILRMA", {}), ("TILRMA", {"dof": 5}), ("GGDILRMA", {"beta": 1.5})):
                    if (a == "IPA" and e) or (src == "ME" and "beta" in e):
                        continue
                    add("onehot", c(cls, **dict(kw, **e)), c(cls, partitioning=True, **dict(kw, **e)), "onehot")
    add("onehot", c("GaussMNMF", n_basis=2, normalization=False), c("GaussMNMF", n_basis=2, normalization=False, partitioning=True), "onehot")
    return out


def cases(tier):
    q = tier == "quick"
    out, seen = [], set()
    for name, mode, a, b, F in pairs():
        for n in (2, 3, 4) if q else (2, 3, 4, 5):
            if mode == "modulus" and n != 2:
                continue
            if (b.get("fn"), b["kw"].get("spatial_algorithm")) == ("x:gauss", "IP2") and (n, a.get("sel")) != (2, "combination"):
                continue  # the Gauss class estimates its variances once per iteration, the generic one weighs each pair anew
            for inp in ("mix:0", "real:1", "gen:0") if q else ("mix:0", "mix:1", "mix:2", "real:1", "gen:0", "int:2", "mix:3", "tilt:4"):
                if mode == "limit" and (n > 3 or inp[:3] in ("int", "gen")):
                    continue
                for start in ("default", "given"):
                    if mode == "onehot" and start == "default" or a["cls"] == "CACGMM" and start == "given":
                        continue
                    case = {"rel": name, "mode": mode, "a": a, "b": b, "n": n, "F": F or 4, "inp": inp, "start": start, "N": 2 if mode == "limit" else 4 if q or "GaussIVA" in a["cls"] or n > 4 else 6}
                    k = case_name(case)
                    if k not in seen:
                        seen.add(k)
                        out.append(case)
    return out


def case_name(case):
    return "%s:%s~%s/%d/%s/%s" % (case["rel"], C.cfg_name(case["a"]), C.cfg_name(case["b"]), case["n"], case["inp"], case["start"])


def floor(r):
    return np.maximum(r, 1e-10)


def special_fns(cls, name):
    """the functions documented for the named models, given to the generic class"""
    aux = cls.startswith("Aux")
    if name == "ica":
        return dict(contrast_fn=lambda y: np.abs(y), score_fn=lambda y: np.sign(y))
    if name == "laplace" and cls.endswith("FDICA"):
        con, score, d = (lambda y: 2 * np.abs(y), lambda y: y / floor(np.abs(y)), lambda r: 2 * np.ones_like(r))
    elif name == "laplace":
        con = lambda y: 2 * np.linalg.norm(y, axis=1)  # noqa: E731
        score = lambda y: y / floor(np.linalg.norm(y, axis=1, keepdims=True))  # noqa: E731
        d = lambda r: 2 * np.ones_like(r)  # noqa: E731
    else:  # time-varying Gauss: variance of each frame is the mean power over the frequencies
        bins = []

        def con(y):
            var = np.mean(np.abs(y) ** 2, axis=1)
            bins[:] = [y.shape[1]]
            return y.shape[1] * np.log(var) + np.sum(np.abs(y) ** 2, axis=1) / var

        def score(y):
            return y / np.mean(np.abs(y) ** 2, axis=1, keepdims=True)

        def d(r):
            return 2 * NBINS[0] / r

    return dict(contrast_fn=con, d_contrast_fn=d) if aux else dict(contrast_fn=con, score_fn=score)


NBINS = [0]


def make(cfg, **extra):
    fn = cfg.get("fn", "")
    base = {k: v for k, v in cfg.items() if k != "call"}
    if fn.startswith("x:"):
        base.pop("fn")
        extra = dict(extra, **special_fns(cfg["cls"], fn[2:]))
    elif fn.startswith("list:"):
        base.pop("fn")
        k = fn[5:]
        extra = dict(extra, penalty_fn=[C.PENALTY[k]], prox_penalty=[C.PROX[k]])
    return C.build(base, **extra)


def start(cfg, case, X):
    n, F = case["n"], case["F"]
    rs = I._rs(5, n, F)
    plain_cfg = {k: v for k, v in cfg.items() if k != "call"}
    kw = {}
    if case["start"] == "given" and C.family(cfg) != "cacgmm":
        kw = c02.start_kw(plain_cfg, n, F)
    if case["mode"] == "onehot":
        K = 2
        T = X.shape[-1]
        B, A = rs.uniform(0.2, 1, (n, F, K)), rs.uniform(0.2, 1, (n, K, T))
        if cfg["kw"].get("partitioning"):
            kw["basis"] = B.transpose(1, 0, 2).reshape(F, n * K)
            kw["activation"] = A.reshape(n * K, T)
            kw["latent"] = np.kron(np.eye(n), np.ones((1, K)))
        else:
            kw["basis"], kw["activation"] = B, A
    if cfg.get("call"):
        multi = len(cfg["fn"].split("+")) if not cfg["cls"].startswith("Mask") else 1
        g = I.generic(8, F, n, n) * 0.1
        T = X.shape[-1]
        h = I.generic(9, *((multi,) if multi > 1 or cfg["cls"] == "ADMMBSS" else ()), n, F, T) * 0.1
        kw[cfg["call"] + ("1" if cfg["call"] == "aux" else "1")] = g
        kw[cfg["call"] + "2"] = h
    return kw


def trajectory(cfg, case, X, rec, ctx):
    extra = {}
    if case["rel"] == "mask" or cfg["cls"] in C.HVAS or cfg["cls"].startswith("Masking"):
        extra["record_loss"] = False
    K = 2 * case["n"] if case["mode"] == "onehot" and cfg["kw"].get("partitioning") else None
    if K:
        cfg = C.with_kw(cfg, n_basis=K)
    NBINS[0] = case["F"]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m = make(cfg, callbacks=rec, **extra)
        out = m(X.copy(), n_iter=case["N"], **start(cfg, case, X))
    ctx.step(case["N"])
    return m, out


def run(case, ctx):
    a, b, mode = case["a"], case["b"], case["mode"]
    ctx.trace()
    X = C.shape_input({"cls": a["cls"], "kw": {}, "fn": "l1"} if a["cls"] in C.PROXM else a, case["inp"], case["n"], case["F"], 24)
    if a["cls"] in C.PROXM:
        X = 0.7 * X
    ra, rb = D.Recorder(), D.Recorder()
    runs, died = [], 0
    for cfg, rec in ((a, ra), (b, rb)):
        try:
            runs.append(trajectory(cfg, case, X, rec, ctx))
        except np.linalg.LinAlgError:
            died += 1
    if died:  # a diverging gradient method: its equivalent diverges alike (up to how far rounding errors let it get)
        far = any(np.abs(s["demix_filter"]).max() > 1e6 for s in ra.states + rb.states if "demix_filter" in s)
        ctx.check(died == 2 or far, "diverged", "only one of the two runs diverges")
        return ctx.outcome("diverged")
    (ma, oa), (mb, ob) = runs
    ctx.check(len(ra.states) == len(rb.states) == case["N"] + 1, "callbacks", "%d %d" % (len(ra.states), len(rb.states)))
    for s in ra.states:
        ctx.state(s)
    hor = min(D.ok_iterations(ra.states), D.ok_iterations(rb.states))
    ctx.outcome("%s finite=%d" % (case["rel"], hor))
    ctx.check(hor > case["N"], "finite", "states not finite")
    last = 10 ** (case["N"] - 1) if case["rel"] in ("named", "onebin", "onehot") else 1
    if "Grad" in a["cls"] and any(np.abs(s["demix_filter"]).max() > 1e6 for s in ra.states if "demix_filter" in s):
        return ctx.outcome("diverging")  # rounding errors are amplified without bound
    rtol = {"limit": 1e-3, "onehot": 2e-5, "modulus": 1e-5}.get(mode, 1e-8)
    for i, (s, t) in enumerate(zip(ra.states, rb.states)):
        s, t = dict(s), dict(t)
        if mode == "modulus":
            s, t = ({k: v for k, v in u.items() if k in ("basis", "activation", "latent")} for u in (s, t))
        if mode == "onehot":
            t = unfold(t, case["n"])
        if mode in ("penalty", "noloss"):
            s, t = ({k: v.reshape(v.shape[-3:]) for k, v in u.items()} for u in (s, t))
        if case["rel"] in ("named", "onebin"):
            s.pop("variance", None), t.pop("variance", None)
        if str(a["kw"].get("spatial_algorithm", a["kw"].get("diagonalizer_algorithm")))[-1] in "2A":
            align(s, t)  # pairwise problems and principal eigenvectors are solved up to a phase per filter
        D.same_state(ctx, s, t, "iter%d" % i, rtol=rtol * 10 ** max(0, i - 1) if case["rel"] in ("named", "onebin", "onehot") else rtol)
    if mode == "modulus" or a["kw"].get("scale_restoration") is False:
        ctx.close(np.abs(oa), np.abs(ob), "output", rtol=rtol)
    else:
        ctx.close(oa, ob, "output", rtol=rtol * last)
    # the Gauss variants record the joint objective of filter and frame variances (C02), which the generic class has not
    if ma.loss is not None and mb.loss is not None and mode != "noloss" and b.get("fn") != "x:gauss":
        la, lb = np.array(ma.loss, float), np.array(mb.loss, float)
        ctx.close(la, lb, "loss", rtol=rtol * last * 10, atol=rtol * last * 10 * max(1, np.ptp(lb)))


def align(s, t):
    for key, ax in (("demix_filter", -1), ("diagonalizer", -1), ("output", -1)):
        if key in s and key in t and s[key].shape == t[key].shape:
            p = np.sum(s[key] * t[key].conj(), axis=ax, keepdims=True)
            t[key] = t[key] * np.where(np.abs(p) > 0, p / np.maximum(np.abs(p), 1e-300), 1)


def unfold(t, n):
    t = dict(t)
    Z, B, A = t.pop("latent"), t["basis"], t["activation"]
    F, T, K = B.shape[0], A.shape[1], B.shape[1] // n
    Z = Z.reshape(n, n, K)
    # the weight of each basis sits in its own source
    own = np.stack([Z[i, i] for i in range(n)])
    t["basis"] = B.reshape(F, n, K).transpose(1, 0, 2) * own[:, None, :]
    t["activation"] = A.reshape(n, K, T)
    return t
