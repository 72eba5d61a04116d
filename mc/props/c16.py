"""The option lattice is enumerated: for every class and every valid combination of the other options, each invalid value of each option must be
rejected (at construction, or for rescaling / permutation / normalization names at the call); every option omitted or given with its documented default, and every documented alias, must give the
identical state sequence; user-given flooring functions, pair selectors, step sizes, reference channels, domains and random generators must be the ones used
(recorded by wrappers, compared with runs that use them by definition)."""

import warnings

import numpy as np
from ssspy.algorithm import minimal_distortion_principle, projection_back
from ssspy.special.flooring import max_flooring

from .. import configs as C
from .. import drive as D

ID = "C16"
TITLE = "Invalid configurations are rejected, defaults are the documented ones"
BOUNDS = {
    "quick": "every class x full option product x every invalid value (about 90); every option default and alias, 2-3 channels, 2 letters, 2 iterations; all user-supplied functions recorded",
    "thorough": "pairs of omitted options, 2-4 channels, 3 iterations, 5 letters",
}
ASSUMPTIONS = [
    "wrong values of boolean options (any truthy object) and out-of-range counts are not part of the documented alphabet",
    "documented defaults are the ones of the pinned docstrings and signatures",
]

REJECT = (Exception,)


def base_kw(cls):
    """Documented default of every option."""
    fam = C.family({"cls": cls})
    d = {}
    if fam == "ica":
        d = dict(record_loss=True, callbacks=None)
        if cls != "FastICA":
            d.update(step_size=0.1, is_holonomic=False)
        return d
    if fam in ("fdica", "iva") or cls in ("PDSIVA", "ADMMIVA"):
        d = dict(record_loss=True, callbacks=None, scale_restoration=True, reference_id=0)
    if fam in ("fdica", "iva"):
        d["flooring_fn"] = max_flooring
        if "Grad" in cls:
            d.update(step_size=0.1, is_holonomic=fam == "iva")
        if cls.startswith("Aux"):
            d.update(spatial_algorithm="IP", pair_selector=None)
        if fam == "fdica":
            d["permutation_alignment"] = True
    elif fam == "prox":
        d.update(dict(relaxation=1, alpha=None, callbacks=None, scale_restoration=True, reference_id=0))
        d.update(dict(rho=1) if "ADMM" in cls else dict(mu1=1, mu2=1))
        if cls in C.HVAS:
            d.update(flooring_fn=max_flooring, mask_iter=1, attenuation=None)
    elif fam == "ilrma":
        d = dict(spatial_algorithm="IP", source_algorithm="MM", domain=2, partitioning=False, flooring_fn=max_flooring, pair_selector=None,
                 callbacks=None, normalization=True, scale_restoration=True, record_loss=True, reference_id=0)
    elif fam == "ipsdta":
        d = dict(source_algorithm="MM", spatial_algorithm="VCD", flooring_fn=max_flooring, callbacks=None, source_normalization=True,
                 scale_restoration=True, record_loss=True, reference_id=0)
    elif cls == "GaussMNMF":
        d = dict(n_sources=None, partitioning=False, flooring_fn=max_flooring, callbacks=None, normalization=True, record_loss=True, reference_id=0)
    elif cls == "FastGaussMNMF":
        d = dict(n_sources=None, partitioning=False, diagonalizer_algorithm="IP", flooring_fn=max_flooring, pair_selector=None, callbacks=None, normalization=True, record_loss=True, reference_id=0)
    else:
        d = dict(n_sources=None, flooring_fn=max_flooring, callbacks=None, normalization=True, permutation_alignment=True, record_loss=True, reference_id=0)
    return d


ALIASES = [
    ("scale_restoration", (True, "projection_back")),
    ("permutation_alignment:fdica", (True, "spectrogram_correlation")),
    ("permutation_alignment:cacgmm", (True, "posterior_score")),
    ("normalization:ilrma", (True, "power")),
    ("normalization:fast", (True, "power")),
    ("spatial_algorithm", ("IP", "IP1")),
    ("spatial_algorithm:iss", ("ISS", "ISS1")),
    ("diagonalizer_algorithm", ("IP", "IP1")),
]


def invalid_options(cfg):
    """[(name, {option: bad value}, stage)] ; stage: ctor = rejected by the constructor, call = at the latest by a call."""
    cls, fam, out = cfg["cls"], C.family(cfg), []

    def bad(opt, *vals, stage="ctor", **more):
        for v in vals:
            out.append(("%s=%s" % (opt, v), dict({opt: v}, **more), stage))

    bad("bogus", 1)
    bad("n_iter", 5)
    if cls != "GaussILRMA" or cfg["kw"].get("spatial_algorithm") != "IPA":
        if not (cls in ("AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA") and cfg["kw"].get("spatial_algorithm") == "IPA"):
            bad("newton_iter", 1)
            bad("lqpqm_normalization", True)
    if cls != "CACGMM":
        bad("global_iter", 1)
    if "spatial_algorithm" in base_kw(cls):
        vals = ["ip", "iss1", "XX", "", "IP3", None, 1]
        if fam == "fdica":
            vals += ["ISS", "ISS1", "ISS2", "IPA", "VCD"]
        if fam in ("iva", "ilrma"):
            vals += ["VCD", "ISS3"]
        if fam == "ipsdta":
            vals += ["IP", "IP1", "IP2", "ISS", "ISS1", "ISS2", "IPA"]
        if cls in ("TILRMA", "GGDILRMA"):
            vals += ["IPA"]
        bad("spatial_algorithm", *vals)
    if "source_algorithm" in base_kw(cls):
        vals = ["mm", "XX", "", None, "MU"]
        if cls in ("GaussILRMA", "TILRMA"):
            vals += ["EM", "FPI"]
        if cls == "GGDILRMA":
            vals += ["EM", "ME"]
        bad("source_algorithm", *vals)
    if cls == "FastGaussMNMF":
        bad("diagonalizer_algorithm", "XX", "ip", "ISS", "ISS1", "ISS2", "IPA", None)
        bad("partitioning", True)
    if fam == "ilrma":
        bad("domain", 0, -1, -0.5, 2.0001, 2.5, 3)
        if cls != "GGDILRMA":
            bad("domain", 1, 1.5, source_algorithm="ME")
        bad("normalization", "XX", "Power", "projection-back", "PB", "pb", stage="call") if cfg["kw"].get("normalization") and cfg["kw"].get("normalization") is not False else None
    if cls == "GGDILRMA":
        bad("beta", 0, -1, 2, 2.5)
    if fam in ("fdica", "iva", "ilrma", "ipsdta", "prox"):
        bad("reference_id", None)
        bad("scale_restoration", "XX", "Projection_back", "mdp", "pb", "minimal", stage="call")
    if fam == "fdica":
        bad("permutation_alignment", "XX", "posterior_score", "amplitude_score", "spectrogram", stage="call")
    if fam == "cacgmm":
        bad("permutation_alignment", "XX", "spectrogram_correlation", "posterior", "score", "posterior_correlation", stage="call")
    if cls == "FastGaussMNMF" and cfg["kw"].get("normalization") is not False:
        bad("normalization", "XX", "projection_back", "trace", stage="call")
    for k in C.fns_for(cfg):
        if k == "penalty_fn":
            continue
        bad(k, None)
    if fam == "prox":
        bad("alpha", 0.5, 0.75, relaxation=0.5)
        if cls in ("PDSBSS", "ADMMBSS"):
            fns = C.fns_for(cfg)
            pen, prox = fns["penalty_fn"], fns["prox_penalty"]
            pl, ql = (pen if isinstance(pen, list) else [pen]), (prox if isinstance(prox, list) else [prox])
            out.append(("lengths", dict(penalty_fn=pl + pl[:1], prox_penalty=ql), "ctor"))
            out.append(("lengths2", dict(penalty_fn=pl, prox_penalty=ql + ql[:1]), "ctor"))
            out.append(("noloss", dict(penalty_fn=None, record_loss=True), "ctor"))
        if cls in ("MaskingPDSBSS", "MaskingADMMBSS"):
            out.append(("noloss", dict(penalty_fn=None, record_loss=True), "ctor"))
            out.append(("mask", dict(mask_fn=1), "ctor"))
            out.append(("penalty", dict(penalty_fn=1), "ctor"))
    for k in ("n_basis", "n_blocks", "dof", "beta"):
        if k in cfg["kw"]:
            out.append(("without-" + k, {k: "OMIT"}, "ctor"))
    return [o for o in out if o]


def cases(tier):
    q = tier == "quick"
    out, seen = [], set()

    def add(cfg, kind, **k):
        c = dict(cfg=cfg, kind=kind, **k)
        if case_name(c) not in seen:
            seen.add(case_name(c))
            out.append(c)

    for cfg in C.all_configs(1):
        add(cfg, "invalid")
        for n in (2, 3) if q else (2, 3, 4):
            for inp in ("mix:0", "silentframe:2") if q else ("mix:0", "gen:1", "silentframe:2", "real:3", "quiet:4"):
                add(cfg, "defaults", n=n, inp=inp, q=q)
        add(cfg, "used", n=2, q=q)
        add(cfg, "used", n=3, q=q)
    for cls in C.CLASSES:
        add({"cls": cls, "kw": {}}, "iterations")
        add({"cls": cls, "kw": {}}, "signature")
    return out


def case_name(c):
    return "%s/%s%s%s" % (C.cfg_name(c["cfg"]), c["kind"], "/n%d" % c["n"] if "n" in c else "", "/" + c["inp"] if "inp" in c else "")


def signal(cfg, n, inp="mix:0"):
    ica = C.family(cfg) == "ica"
    shown = {"cls": cfg["cls"], "kw": {}, "fn": cfg.get("fn", "l1")}
    x = C.shape_input(shown, inp if not ica else "mix:0", n, 1 if ica else 4, 24 if ica else 6 * n)
    return 0.9 * x if C.family(cfg) == "prox" else x


def make(cfg, extra, omit=()):
    """Construct with given options; the ones in omit are left to their default."""
    cls = cfg["cls"]
    kw = dict(cfg["kw"])
    kw.update(C.fns_for(cfg))
    if cls in C.RNG:
        kw["rng"] = C.rng_for(cfg)
    if cfg.get("sel"):
        kw["pair_selector"] = C.SELECTORS[cfg["sel"]]
    if (cls in C.HVAS or cls.startswith("Masking")) and "record_loss" not in extra and "record_loss" not in omit:
        kw["record_loss"] = False
    kw.update(extra)
    for k in list(kw):
        if k in omit or isinstance(kw[k], str) and kw[k] == "OMIT":
            del kw[k]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return C.CLASSES[cls](**kw)


def trajectory(cfg, x, N, extra=None, omit=()):
    rec = D.Recorder()
    m = make(cfg, dict(extra or {}, callbacks=rec), omit)
    out = m(x.copy(), n_iter=N)
    return m, rec.states, out


def same(ctx, a, b, key, rtol=1e-10):
    """(object, states, output) twice: the same computation."""
    ctx.check(len(a[1]) == len(b[1]), key + ":length")
    for i, (s, t) in enumerate(zip(a[1], b[1])):
        D.same_state(ctx, s, t, "%s:iter%d" % (key, i), rtol=rtol)
    ctx.close(a[2], b[2], key + ":output", rtol=rtol, atol=1e-300)
    la, lb = a[0].loss, b[0].loss
    if ctx.check((la is None) == (lb is None), key + ":loss-record") and la:
        ctx.close(np.array(la, float), np.array(lb, float), key + ":loss", rtol=rtol)


def differ(a, b):
    if a[2].shape != b[2].shape or not np.allclose(a[2], b[2], rtol=1e-9, atol=1e-12):
        return True
    return any(k in t and (s[k].shape != t[k].shape or not np.allclose(s[k], t[k], rtol=1e-9, atol=1e-12)) for s, t in zip(a[1], b[1]) for k in s)


def run(case, ctx):
    ctx.outcome(case["kind"])
    globals()["run_" + case["kind"]](case, ctx)
    ctx.trace()


def run_invalid(case, ctx):
    cfg = case["cfg"]
    x = signal(cfg, 2)
    make(cfg, {})  # the valid neighbour
    for name, extra, stage in invalid_options(cfg):
        ctx.step()
        ctx.state(C.cfg_name(cfg), name)
        try:
            m = make(cfg, extra)
        except REJECT:
            continue
        if stage == "ctor":
            ctx.fail("accepted:" + name.replace(" ", ""), "the constructor accepts %s" % name)
            continue
        try:
            m(x.copy(), n_iter=1)
        except REJECT:
            continue
        ctx.fail("ran:" + name.replace(" ", ""), "%s was silently accepted by constructor and call" % name)


def run_defaults(case, ctx):
    cfg, n = case["cfg"], case["n"]
    fam = C.family(cfg)
    x = signal(cfg, n, case["inp"])
    N = 2 if case["q"] else 3
    d = base_kw(cfg["cls"])
    d.pop("callbacks")
    given = set(cfg["kw"]) | ({"pair_selector"} if cfg.get("sel") else set())
    free = {k: v for k, v in d.items() if k not in given and k not in ("alpha",)}
    ref = trajectory(cfg, x, N)
    for s in ref[1]:
        ctx.state(C.cfg_name(cfg), s)
    ctx.step(N)
    for k, v in free.items():
        same(ctx, ref, trajectory(cfg, x, N, {k: v}), "explicit:" + k)
        ctx.step(N)
    if cfg["cls"] not in C.HVAS and not cfg["cls"].startswith("Masking"):
        same(ctx, ref, trajectory(cfg, x, N, free), "explicit:all")
    for k, v in d.items():  # options set by the configuration to their default may be omitted
        if k in cfg["kw"] and type(cfg["kw"][k]) is type(v) and cfg["kw"][k] == v:
            same(ctx, ref, trajectory(cfg, x, N, omit=(k,)), "omitted:" + k)
            ctx.step(N)
    if not case["q"]:
        names = sorted(k for k in d if k in cfg["kw"] and type(cfg["kw"][k]) is type(d[k]) and cfg["kw"][k] == d[k])
        for i, a in enumerate(names):
            for b in names[:i]:
                same(ctx, ref, trajectory(cfg, x, N, omit=(a, b)), "omitted:%s+%s" % (a, b))
    for name, (a, b) in ALIASES:
        k, _, which = name.partition(":")
        if k not in d or which == "fdica" and fam != "fdica" or which == "cacgmm" and fam != "cacgmm" or which == "ilrma" and fam != "ilrma" or which == "fast" and cfg["cls"] != "FastGaussMNMF":
            continue
        if k == "spatial_algorithm" and (fam == "ipsdta" or fam == "fdica" and which == "iss" or cfg["kw"].get(k) not in (a, b)):
            continue
        if k == "normalization" and not cfg["kw"].get(k, True):
            continue
        same(ctx, trajectory(cfg, x, N, {k: a}), trajectory(cfg, x, N, {k: b}), "alias:%s:%s" % (k, b))
        ctx.step(2 * N)
    if cfg["cls"] in ("AuxIVA", "AuxLaplaceIVA", "AuxGaussIVA", "GaussILRMA") and cfg["kw"].get("spatial_algorithm") == "IPA":
        for k, v in (("newton_iter", 1), ("lqpqm_normalization", True)):
            if k not in cfg["kw"]:
                same(ctx, ref, trajectory(cfg, x, N, {k: v}), "explicit:" + k)
    if fam == "cacgmm" and cfg["kw"].get("permutation_alignment", True) in (True, "posterior_score", "amplitude_score"):
        same(ctx, ref, trajectory(cfg, x, N, {"global_iter": 1, "local_iter": 1}), "explicit:global_iter")
    if fam == "prox":
        rel = cfg["kw"].get("relaxation", 1)
        same(ctx, ref, trajectory(cfg, x, N, {"alpha": rel}, omit=("relaxation",)), "alias:alpha")
    if d.get("pair_selector", 1) is None and not cfg.get("sel"):
        same(ctx, ref, trajectory(cfg, x, N, {"pair_selector": C.SELECTORS["sequential"]}), "explicit:sequential")
    # call-level default: initial_call=True
    rec = D.Recorder()
    m = make(cfg, {"callbacks": [rec]})
    out = m(x.copy(), n_iter=N, initial_call=True)
    same(ctx, ref, (m, rec.states, out), "explicit:initial_call")


class Counting:
    def __init__(self, fn):
        self.fn, self.calls = fn, 0

    def __call__(self, *a, **k):
        self.calls += 1
        return self.fn(*a, **k)


def run_used(case, ctx):
    cfg, n = case["cfg"], case["n"]
    fam, cls = C.family(cfg), cfg["cls"]
    x = signal(cfg, n)
    N = 2
    d = base_kw(cls)
    ref = trajectory(cfg, x, N)
    ctx.state(C.cfg_name(cfg), n)
    ctx.step(N)
    if "flooring_fn" in d:
        f = Counting(lambda v: max_flooring(v, eps=1e-10))
        same(ctx, ref, trajectory(cfg, x, N, {"flooring_fn": f}), "flooring:wrapper")
        ident = Counting(lambda v: v)
        try:
            with np.errstate(all="ignore"):
                a = trajectory(cfg, x, N, {"flooring_fn": ident})
        except np.linalg.LinAlgError:
            a = None
        try:
            with np.errstate(all="ignore"):
                b = trajectory(cfg, x, N, {"flooring_fn": None})
        except np.linalg.LinAlgError:
            b = None
        ctx.check((a is None) == (b is None), "flooring:none", "flooring_fn=None is not the identity")
        if a and b and all(np.isfinite(v).all() for t in (a, b) for s in t[1] for v in s.values()) and np.isfinite(a[2]).all() and np.isfinite(b[2]).all():
            same(ctx, a, b, "flooring:none")
        # a visible floor changes the trajectory exactly when the wrapper is consulted
        big = Counting(lambda v: v + 0.5)
        try:
            c = trajectory(cfg, x, N, {"flooring_fn": big})
        except np.linalg.LinAlgError:
            c = None
        if fam in ("ilrma", "mnmf", "cacgmm", "ipsdta") or cls in C.HVAS or cls.startswith("Aux") or "Gauss" in cls or "Laplace" in cls or cls in ("FastIVA", "FasterIVA"):
            ctx.check(f.calls > 0 and big.calls > 0, "flooring:consulted", "the given flooring function is never called")
            if c is not None and cls not in ("MaskingADMMHVA",):
                ctx.check(differ(ref, c), "flooring:ignored", "a visible flooring function has no effect")
        ctx.step(4 * N)
    if "step_size" in d:
        # one step from the same point moves the filter in proportion to the step size (before normalizations)
        moves = {}
        for s in (0.05, 0.1, 0.2, 0.4):
            t = trajectory(cfg, x, 1, {"step_size": s})
            moves[s] = t[1][1]["demix_filter"] - t[1][0]["demix_filter"]
        for s in moves:
            ctx.close(moves[s] / s, moves[0.1] / 0.1, "step_size=%s" % s, rtol=1e-8, atol=1e-10)
        ctx.check(np.abs(moves[0.1]).max() > 0, "step_size", "no movement")
        same(ctx, ref, trajectory(cfg, x, N, {"step_size": 0.1}), "step_size:default")
        ctx.step(4)
    if "pair_selector" in d and cfg["kw"].get("spatial_algorithm", cfg["kw"].get("diagonalizer_algorithm")) in ("IP2", "ISS2"):
        sel = C.SELECTORS[cfg.get("sel") or "sequential"]
        seen = []

        def recording(k):
            seen.append(k)
            return sel(k)

        same(ctx, ref, trajectory(cfg, x, N, {"pair_selector": recording}), "pair_selector:wrapper")
        ctx.check(len(seen) > 0 and set(seen) == {n}, "pair_selector:consulted", "called with %s" % seen)
        frozen = trajectory(dict(cfg, sel=None), x, N, {"pair_selector": lambda k: [], **({"normalization": False} if "normalization" in d else {})})
        key = "demix_filter" if "demix_filter" in frozen[1][0] else ("output" if fam != "mnmf" else "diagonalizer")
        ctx.close(frozen[1][-1][key], frozen[1][0][key], "pair_selector:none", rtol=1e-10, msg="no pair was offered but the filter moved")
        one = trajectory(dict(cfg, sel=None), x, 1, {"pair_selector": lambda k: [(0, k - 1)], **({"normalization": False} if "normalization" in d else {})})
        if key in ("demix_filter", "diagonalizer"):
            axis = 1
            for r in range(1, n - 1):
                ctx.close(np.take(one[1][1][key], r, axis), np.take(one[1][0][key], r, axis), "pair_selector:one", rtol=1e-10, msg="a source outside the offered pair moved")
        ctx.step(3 * N)
    if "reference_id" in d and cls not in ("FastIVA", "FasterIVA") and fam not in ("mnmf", "cacgmm"):
        runs = {}
        for r in range(-n, n):
            runs[r] = trajectory(cfg, x, N, {"reference_id": r})
            ctx.step(N)
        raw = trajectory(cfg, x, N, {"scale_restoration": False})[2]
        for r in range(n):
            ctx.close(runs[r][2], projection_back(raw, reference=x, reference_id=r), "reference:%d" % r, rtol=1e-6, atol=1e-10)
            ctx.close(runs[r][2], runs[r - n][2], "reference:negative%d" % r, rtol=1e-9, atol=1e-12)
            if cfg["kw"].get("normalization") != "projection_back":
                for s, t in zip(runs[r][1], ref[1]):
                    D.same_state(ctx, s, t, "reference:%d:trajectory" % r)
        md = trajectory(cfg, x, N, {"scale_restoration": "minimal_distortion_principle", "reference_id": n - 1})
        ctx.close(md[2], minimal_distortion_principle(raw, reference=x, reference_id=n - 1), "reference:mdp", rtol=1e-6, atol=1e-10)
        off = trajectory(cfg, x, N, {"scale_restoration": False, "reference_id": None}) if cfg["kw"].get("normalization") != "projection_back" else None
        if off:
            ctx.close(off[2], raw, "reference:none", rtol=1e-9, atol=1e-12)
    # options that must matter
    matter = []
    if "is_holonomic" in d:
        matter.append(("is_holonomic", False, True))
    if "domain" in d and "domain" in cfg["kw"] and cfg["kw"].get("source_algorithm") == "MM":
        matter.append(("domain", 2, 1))
    for k, a, b in (("dof", 5, 50), ("beta", 1.5, 0.5), ("n_basis", 2, 3), ("relaxation", 1, 0.5), ("mu1", 1, 0.5), ("rho", 1, 0.5), ("attenuation", 1, 0.25)):
        if k in cfg["kw"] or k in d:
            matter.append((k, a, b))
    if cfg["kw"].get("spatial_algorithm") == "IPA" and n > 2:  # (two sources: the program is solved in closed form)
        matter.append(("newton_iter", 1, 4))
    if "normalization" in d and fam not in ("mnmf",):
        matter.append(("normalization", True, False))
    if "source_normalization" in d:
        matter.append(("source_normalization", True, False))
    if "partitioning" in d and cls != "FastGaussMNMF" and cfg["kw"].get("normalization") != "projection_back":
        matter.append(("partitioning", True, False))
    if fam == "ilrma" and cfg["kw"].get("normalization"):
        matter.append(("normalization", "power", "projection_back")) if not cfg["kw"].get("partitioning") else None
    for k, a, b in [m for m in matter if m]:
        if k == "domain" and cfg["kw"].get("partitioning") is None:
            continue
        with np.errstate(all="ignore"):
            u, v = trajectory(cfg, x, N, {k: a}), trajectory(cfg, x, N, {k: b})
        ctx.check(differ(u, v), "matters:%s" % k, "%s=%s and %s give the same run" % (k, a, b))
        ctx.step(2 * N)
    if cls in C.RNG:
        def seeded(k):
            return trajectory(cfg, x, N, {"rng": np.random.default_rng(k)})

        same(ctx, seeded(3), seeded(3), "rng:same")
        ctx.check(differ(seeded(3), seeded(4)), "rng:ignored", "the given generator has no effect")
        state = np.random.get_state()[1].copy()
        seeded(5)
        ctx.check(np.array_equal(state, np.random.get_state()[1]), "rng:global", "the global generator was used")
        g = np.random.default_rng(9)
        before = g.bit_generator.state["state"]["state"]
        trajectory(cfg, x, 1, {"rng": g})
        ctx.check(g.bit_generator.state["state"]["state"] != before, "rng:unused", "the given generator was not advanced")
    if cls in ("GaussMNMF", "FastGaussMNMF", "CACGMM"):
        for k in (1, 2, 3):
            t = trajectory(cfg, x, 1, {"n_sources": k})
            ctx.check(t[2].shape[0] == k and t[0].n_sources == k, "n_sources=%d" % k, "result shape %s" % (t[2].shape,))
    for k in ("n_basis",):
        if k in cfg["kw"]:
            for v in (1, 3, 5):
                t = trajectory(cfg, x, 1, {k: v})
                b = t[0].basis[0] if isinstance(t[0].basis, tuple) else t[0].basis
                ctx.check(v in b.shape[:3], "n_basis=%d" % v, "basis shape %s" % (b.shape,))


def run_iterations(case, ctx):
    """n_iter defaults to 100 and the initial call is on by default; every documented call keyword is accepted."""
    cls = case["cfg"]["cls"]
    cfg = next(c for c in C.all_configs(0) if c["cls"] == cls)
    x = signal(cfg, 2)
    calls = []
    m = make(cfg, {"callbacks": lambda m: calls.append(1)})
    stub = {"n": 0}

    def step(*a, **k):
        stub["n"] += 1

    m.update_once = step
    try:
        with np.errstate(all="ignore"):
            m(x.copy())
    except REJECT:
        pass  # (the final stage may need an update)
    want = 100
    ctx.check(stub["n"] == want and len(calls) == want + 1, "n_iter", "default call: %d updates, %d callbacks" % (stub["n"], len(calls)))
    ctx.step(stub["n"])
    calls.clear()
    m = make(cfg, {"callbacks": lambda m: calls.append(1)})
    m.update_once = step
    stub["n"] = 0
    try:
        m(x.copy(), initial_call=False)
    except REJECT:
        pass
    ctx.check(stub["n"] == want and len(calls) == want, "initial_call", "without initial call: %d updates, %d callbacks" % (stub["n"], len(calls)))
    ctx.state(cls)


def run_signature(case, ctx):
    """Nothing but documented option names is accepted by a call either, and a callback may be one function, a list or a tuple of functions."""
    cls = case["cfg"]["cls"]
    cfg = next(c for c in C.all_configs(0) if c["cls"] == cls)
    x = signal(cfg, 2)
    log = []
    for form in (lambda m: log.append("a"), [lambda m: log.append("a")], [lambda m: log.append("a"), lambda m: log.append("b")], []):
        log.clear()
        m = make(cfg, {"callbacks": form})
        m(x.copy(), n_iter=2)
        names = ["a"] if callable(form) else ["a", "b"][: len(form)]
        ctx.check(log == names * 3, "callbacks", "log %s" % log)
        ctx.step(2)
    for value in (True, False):
        m = make(cfg, {"record_loss": value}) if not (cls in C.HVAS or cls.startswith("Masking")) else None
        if m:
            m(x.copy(), n_iter=2)
            ctx.check((m.loss is not None and len(m.loss) == 3) if value else not m.loss, "record_loss=%s" % value, "loss %s" % m.loss)
            ctx.step(2)
    ctx.state(cls)
