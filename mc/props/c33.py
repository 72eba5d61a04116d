"""In a running method every history over {one step, ask for the loss, assign the parameters of another state, assign a new value to an
option, assign the old value back} is executed, for every option that can be reassigned; after every operation the state, the loss and
the next step are compared with the memoryless model: a method just constructed with the options in effect, put into the state in effect.
Options of the final stage (rescaling, reference channel, permutation alignment) are reassigned in every callback of a run. Every option is handed to the
call, instead of to the constructor. The method that starts afresh at every call (CACGMM) is called on all words of five mixtures of equal and other sizes: every call is that of a new method.  Every other method is
called on all words of three mixtures: each call is that of a new method handed the parameters in effect."""

import copy
import inspect
import itertools
import warnings

import numpy as np

from .. import configs as C
from .. import drive as D
from .c04 import handover_kw

ID = "C33"
TITLE = "A step depends only on the parameters and options in effect"
BOUNDS = {
    "quick": "all methods and options, every reassignable option, all histories of 3 operations over 6 followed by a step and the loss, 2 channels; final-stage options in every callback of a run of 2; all words of 3 calls on 3 (CACGMM: 5) mixtures",
    "thorough": "histories of 4 operations (2 channels, one letter); 2-3 channels, 2 letters, histories of 3",
}
ASSUMPTIONS = [
    "the pair selector of pairwise updates exists only in methods constructed for them, mask_iter is bound into the mask at construction: not reassigned",
]
CASE_TIMEOUT = 300
ALT = {"step_size": 0.03, "relaxation": 0.6, "mu1": 0.7, "mu2": 0.6, "rho": 1.5, "dof": 3, "beta": 1.3, "newton_iter": 3, "attenuation": 0.3}
FLIP = ("is_holonomic", "source_normalization", "lqpqm_normalization")
IP = ("IP", "IP1")
ISS = ("ISS", "ISS1")
FN = {"logcosh": "smooth", "smooth": "laplace", "laplace": "smooth", "l1": "l21", "l21": "l1", "l1+l21": "l21+l1"}
FINAL = {"scale_restoration": (True, "minimal_distortion_principle", "projection_back", False), "reference_id": (0, 1), "permutation_alignment": (True, False)}


def quiet(cfg):
    extra = {}
    sig = inspect.signature(C.CLASSES[cfg["cls"]].__init__).parameters
    if "scale_restoration" in sig:
        extra["scale_restoration"] = False
    if "permutation_alignment" in sig and cfg["cls"] != "CACGMM":
        extra["permutation_alignment"] = False
    return extra


def options(cfg):
    """reassignable options: (name, configuration with the new value)"""
    sig = inspect.signature(C.CLASSES[cfg["cls"]].__init__).parameters
    kw, out = cfg["kw"], []

    def add(name, value):
        out.append((name, C.with_kw(cfg, **{name: value})))

    for o, p in sig.items():
        cur = kw.get(o, p.default)
        if o in ALT and not (o == "newton_iter" and kw.get("spatial_algorithm") != "IPA"):
            add(o, ALT[o])
        elif o in FLIP:
            add(o, not cur)
        elif o == "domain":
            if kw.get("source_algorithm") == "MM":
                add(o, 1 if cur == 2 else 2)
        elif o == "source_algorithm":
            if kw.get("domain", 2) == 2 and cfg["cls"] in ("GaussILRMA", "TILRMA"):
                add(o, "ME" if cur == "MM" else "MM")
        elif o in ("spatial_algorithm", "diagonalizer_algorithm"):
            if cur == "IP2" or cur in ("ISS2",) and cfg["cls"] != "AuxFDICA":
                for v in (IP if cur == "IP2" else ISS)[:1]:
                    if cfg.get("sel") is None:
                        add(o, v)
        elif o == "normalization" and C.family(cfg) in ("ilrma", "mnmf", "cacgmm"):
            add(o, not cur)
            if cfg["cls"] in C.ILRMA and not kw.get("partitioning") and cur != "projection_back":
                add(o, "projection_back")
        elif o == "flooring_fn":
            out.append((o, dict(cfg, floor=0.2)))
    if kw.get("spatial_algorithm") == "IPA":
        add("lqpqm_normalization", not kw.get("lqpqm_normalization", True))
    if cfg.get("fn") and not cfg["cls"] in ("PDSIVA", "ADMMIVA"):
        out.append(("fn", dict(cfg, fn=FN[cfg["fn"]] if C.family(cfg) != "ica" else {"logcosh": "smooth", "smooth": "logcosh"}[cfg["fn"]])))
    return out


def floor_of(cfg):
    v = cfg.get("floor")
    return {} if v is None else {"flooring_fn": lambda x: np.maximum(x, v)}


def make(cfg, k=0, **extra):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return C.build(cfg, rng=C.rng_for(cfg, k), **dict(dict(quiet(cfg), **floor_of(cfg)), **extra))


def assign(m, name, cfg):
    """give the running method the value of the option in cfg"""
    if name == "fn":
        for k, v in C.fns_for(cfg).items():
            setattr(m, k, [v] if isinstance(getattr(m, k, None), list) and callable(v) else v)  # kept as a list
    elif name == "flooring_fn":
        f = floor_of(cfg).get("flooring_fn")
        m.flooring_fn = f if f is not None else (lambda x: np.maximum(x, 1e-10))
    else:
        sig = inspect.signature(C.CLASSES[cfg["cls"]].__init__).parameters
        setattr(m, name, cfg["kw"].get(name, sig[name].default if name in sig else True))


def put(m, state):
    for a in C.STATE_ATTRS:
        if a in state:
            setattr(m, a, state[a].copy())
        elif a + ".0" in state:
            setattr(m, a, type(getattr(m, a))(state[k].copy() for k in sorted(state) if k.startswith(a + ".")))


def cases(tier):
    q = tier == "quick"
    out = []
    for cfg in C.all_configs(1):
        for n in (2,) if q else (2, 3):
            for inp in ("mix:0",) if q else ("mix:0", "mix:3"):
                depth = 3 if q or n == 3 or inp != "mix:0" or C.family(cfg) == "ipsdta" else 4
                for o, new in options(cfg) or [(None, cfg)]:
                    v = new["fn"] if o == "fn" else new["kw"].get(o) if o != "flooring_fn" else "max"
                    out.append({"kind": "step", "cfg": cfg, "n": n, "inp": inp, "option": o, "value": v, "depth": depth})
                out.append({"kind": "call", "cfg": cfg, "n": n, "inp": inp, "N": 2})
                if not C.is_output_based(cfg) and cfg["cls"] != "CACGMM":
                    out.append({"kind": "other", "cfg": cfg, "n": n, "inp": inp, "depth": 3 if q else 4})
                if cfg["cls"] == "CACGMM":
                    out += [{"kind": "recall", "cfg": cfg, "n": n, "inp": inp, "K": k, "depth": 3} for k in (None, 2, 3)]
                out.append({"kind": "final", "cfg": cfg, "n": n, "inp": inp, "N": 2 if q else 3})
    return out


def case_name(c):
    tail = "" if c["kind"] in ("final", "call", "other") else "/K=%s" % c["K"] if c["kind"] == "recall" else "/%s=%s" % (c["option"], c["value"])
    return "%s/%s/%d/%s%s" % (c["kind"], C.cfg_name(c["cfg"]), c["n"], c["inp"], tail)


def signal(cfg, inp, n):
    F, T = (4, 12) if C.family(cfg) != "ica" else (1, 60)
    X = C.shape_input(cfg, inp, n, F, T)
    return 0.85 * X if "ADMM" in cfg["cls"] else X


def finite(s):
    return all(np.isfinite(v).all() for v in s.values())


def run_step(c, ctx):
    cfg, n, o = c["cfg"], c["n"], c["option"]
    X = signal(cfg, c["inp"], n)
    new = dict(cfg)
    for name, k in options(cfg):
        v = k["fn"] if name == "fn" else k["kw"].get(name) if name != "flooring_fn" else "max"
        if name == o and v == c["value"]:
            new = k
    loss = D.can_record(cfg)

    def started(k=0, N=1, which=cfg):
        m = make(which, k, record_loss=False)
        m(X.copy(), n_iter=N)
        return m

    try:
        pool = {"P": C.snapshot(started(5, 1)), "Q": C.snapshot(started(0, 3))}
    except (np.linalg.LinAlgError, ValueError) as e:
        ctx.outcome("degenerate:%s" % type(e).__name__)
        return
    if not all(finite(s) for s in pool.values()):
        ctx.outcome("degenerate:nonfinite")
        return
    memo = {}

    def model(which, state, key):
        """(next state, loss now) of a method just constructed with these options and put into this state"""
        if key not in memo:
            m = make(cfg if which == "old" else new, 0, record_loss=False)
            m(X.copy(), n_iter=0)
            put(m, state)
            now = np.asarray(m.compute_loss()) if loss else None
            m.update_once()
            memo[key] = (C.snapshot(m), now)
        return memo[key]

    alphabet = "SLPQ" + ("Oo" if o else "")
    first = (options(cfg) or [(None, cfg)])[0][1] in (new, cfg)
    for word in itertools.product(alphabet, repeat=c["depth"]):
        w = "".join(word)
        if "oo" in w or "OO" in w or "LL" in w or w[0] == "o" or "O" not in w and not first:
            continue
        m = started()
        which, origin = "old", "s"
        state = C.snapshot(m)
        for i, op in enumerate(w + "LS"):
            key = "%s@%d" % (w, i)
            if op == "S":
                exp, _ = model(which, state, (which, origin))
                if not finite(exp):
                    ctx.outcome("nonfinite")
                    break
                with np.errstate(all="ignore"):
                    m.update_once()
                state = C.snapshot(m)
                ctx.check(sorted(state) == sorted(exp), key + ":attributes", "parameters %s" % sorted(state))
                for k in exp:
                    if k in state:
                        ctx.close(state[k], exp[k], key + ":" + k, rtol=1e-7, msg=k + " after the step is not the one of a method constructed with these options in this state")
                origin = origin + "S" + which[0]
            elif op == "L":
                if loss:
                    got = np.asarray(m.compute_loss())
                    now = model(which, state, (which, origin))[1]
                    same = np.array_equal(got, now) if not np.isfinite(now).all() else np.allclose(got, now, rtol=1e-8, atol=1e-8)
                    ctx.check(same, key + ":loss", lambda: "loss %s, expected %s" % (got, now))
                after = C.snapshot(m)
                ctx.check(all(np.array_equal(after[k], state[k]) for k in state), key + ":asked", "asking for the loss changes the parameters")
            elif op in pool:
                put(m, pool[op])
                state = pool[op]
                origin = op
            else:
                which = "new" if op == "O" else "old"
                assign(m, o, new if op == "O" else cfg)
            ctx.step()
        ctx.state(C.cfg_name(cfg), o, c["value"], w, state)
        ctx.trace()
    ctx.outcome("option:%s" % o)


def run_final(c, ctx):
    cfg, n, N = c["cfg"], c["n"], c["N"]
    X = signal(cfg, c["inp"], n)
    sig = inspect.signature(C.CLASSES[cfg["cls"]].__init__).parameters
    for o, values in FINAL.items():
        if o not in sig or o == "reference_id" and cfg["kw"].get("normalization") == "projection_back":
            continue
        if o == "permutation_alignment" and cfg["cls"] == "CACGMM":
            values = (True, False, "posterior_score", "amplitude_score", "amplitude_correlation")
        for a, b in itertools.permutations(values, 2):

            def go(v, cb=None):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    m = C.build(cfg, rng=C.rng_for(cfg, 0), record_loss=False, callbacks=cb, **{o: v})
                    y = m(X.copy(), n_iter=N)
                return y, C.snapshot(m)

            try:
                exp = go(b)
            except (np.linalg.LinAlgError, ValueError, NotImplementedError) as e:
                ctx.outcome("rejected:%s" % type(e).__name__)
                continue
            for k in range(N + 1):
                count = [0]

                def cb(method):
                    if count[0] == k:
                        setattr(method, o, b)
                    count[0] += 1

                got = go(a, cb)
                key = "%s:%s->%s@%d" % (o, a, b, k)
                ctx.close(got[0], exp[0], key + ":output", rtol=1e-8)
                for p in exp[1]:
                    if p in got[1]:
                        ctx.close(got[1][p], exp[1][p], key + ":" + p, rtol=1e-8)
                ctx.step(N + 1)
                ctx.trace()
                ctx.state(C.cfg_name(cfg), o, str(a), str(b), k)
        ctx.outcome("final:%s" % o)


def values_of(m, name, cfg):
    """keyword arguments that give a call the value of the option in cfg"""
    if name == "fn":
        return {k: [v] if isinstance(getattr(m, k, None), list) and callable(v) else v for k, v in C.fns_for(cfg).items()}
    if name == "flooring_fn":
        return floor_of(cfg)
    return {name: cfg["kw"][name]}


def run_call(c, ctx):
    """options handed to a call as keyword arguments: as if given at construction, in this call and in the ones that continue it"""
    cfg, n, N = c["cfg"], c["n"], c["N"]
    X = signal(cfg, c["inp"], n)
    sig = inspect.signature(C.CLASSES[cfg["cls"]].__init__).parameters
    # where it is a parameter of the reset itself, a call rejects it, or applies it to the initial parameters only
    own = any("flooring_fn" in inspect.signature(k._reset).parameters for k in C.CLASSES[cfg["cls"]].__mro__ if hasattr(k, "_reset"))
    todo = [(o, new) for o, new in options(cfg) if not (o == "flooring_fn" and own)]
    for o, values in FINAL.items():
        if o in sig and not (o == "reference_id" and cfg["kw"].get("normalization") == "projection_back"):
            todo += [(o, C.with_kw(cfg, **{o: v})) for v in values]
    if "n_basis" in sig:
        todo.append(("n_basis", C.with_kw(cfg, n_basis=3)))

    def go(which, final, **calls):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            m = C.build(which, rng=C.rng_for(cfg, 0), **dict({k: v for k, v in quiet(cfg).items() if k not in which["kw"]}, **floor_of(which)))
            m(X.copy(), n_iter=N, **({} if not calls else values_of(m, *calls["value"])))
            first = C.snapshot(m), np.asarray(m.output).copy()
            if C.family(cfg) in ("ilrma", "iva", "fdica", "ica", "mnmf", "ipsdta") and cfg["cls"] not in ("FastICA", "FastIVA", "FasterIVA"):
                if not final:
                    m.update_once()
        return first + (C.snapshot(m), list(m.loss or []))

    for o, new in todo:
        v = new["fn"] if o == "fn" else new["kw"].get(o) if o != "flooring_fn" else "max"
        key = "%s=%s" % (o, v)
        try:
            exp = go(new, o in FINAL)
        except (np.linalg.LinAlgError, ValueError, NotImplementedError, AssertionError) as e:
            ctx.outcome("rejected:%s" % type(e).__name__)
            continue
        if not finite(exp[2]):
            ctx.outcome("nonfinite")
            continue
        try:
            got = go(cfg, o in FINAL, value=(o, new))
        except Exception as e:
            ctx.fail(key + ":call", "handed to the call: %r" % (e,))
            continue
        ctx.close(got[1], exp[1], key + ":output", rtol=1e-8, msg="the option handed to the call is not the one of a method constructed with it")
        for i, when in ((0, "after the call"), (2, "after a further step")):
            ctx.check(sorted(got[i]) == sorted(exp[i]), key + ":attributes", "%s: parameters %s" % (when, sorted(got[i])))
            for p in exp[i]:
                if p in got[i]:
                    ctx.close(got[i][p], exp[i][p], key + ":" + p, rtol=1e-8, msg=when)
        ctx.check(len(got[3]) == len(exp[3]) and np.allclose(got[3], exp[3], rtol=1e-8, atol=1e-8, equal_nan=True), key + ":loss", lambda: "loss %s, expected %s" % (got[3], exp[3]))
        ctx.state(C.cfg_name(cfg), key)
        ctx.step(N + 1)
        ctx.trace()
    ctx.outcome("call")


def run_recall(c, ctx):
    """CACGMM starts afresh at every call: all histories of calls on mixtures of other numbers of channels, bins and frames"""
    cfg, N = c["cfg"], 2
    pool = [C.shape_input(cfg, c["inp"], n, F, T) for n, F, T in ((2, 4, 12), (3, 4, 12), (3, 5, 14), (2, 3, 12))]
    pool.append(C.shape_input(cfg, "gen:1", 2, 4, 12))
    kw = {} if c["K"] is None else {"n_sources": c["K"]}

    def make(rng):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            return C.build(cfg, rng=rng, **dict(kw))

    for word in itertools.product(range(len(pool)), repeat=c["depth"]):
        rng = C.rng_for(cfg, 1)
        m = make(rng)
        for i, k in enumerate(word):
            key = "%s@%d" % ("".join(map(str, word)), i)
            f = make(copy.deepcopy(rng))
            exp = f(pool[k].copy(), n_iter=N)
            try:
                got = m(pool[k].copy(), n_iter=N)
            except (ValueError, IndexError, AssertionError) as e:
                ctx.fail(key + ":call", "call on a mixture of shape %s after others fails: %r" % (pool[k].shape, e))
                break
            if not ctx.check(got.shape == exp.shape, key + ":shape", "output of shape %s, a fresh method gives %s" % (got.shape, exp.shape)):
                break
            ctx.close(got, exp, key + ":output", rtol=1e-8)
            a, b = C.snapshot(m), C.snapshot(f)
            ctx.check(sorted(a) == sorted(b), key + ":attributes", "parameters %s" % sorted(a))
            for p in b:
                if p in a:
                    ctx.close(a[p], b[p], key + ":" + p, rtol=1e-8)
            ctx.close(np.asarray(m.loss[-N - 1:]), np.asarray(f.loss), key + ":loss", rtol=1e-8)
            ctx.state(C.cfg_name(cfg), c["K"], word[: i + 1])
            ctx.step(N)
        ctx.trace()
    ctx.outcome("recall")


def run_other(c, ctx):
    """one object called on different mixtures in turn: each call is that of a new method handed the parameters the object holds"""
    cfg, n = c["cfg"], c["n"]
    pool = [signal(cfg, inp, n) for inp in (c["inp"], "gen:1", "mix:5")]
    if C.family(cfg) in ("ica", "fdica", "iva"):
        pool[2] = np.concatenate([pool[2], pool[1][..., ::2]], axis=-1)  # of another length
    rec = D.can_record(cfg)
    for word in itertools.product(range(3), repeat=c["depth"]):
        m = make(cfg, 0, record_loss=rec)
        for i, k in enumerate(word):
            key = "%s@%d" % ("".join(map(str, word)), i)
            f = make(cfg, 0, record_loss=rec)
            kw = handover_kw(m) if i else {}
            try:
                exp = f(pool[k].copy(), n_iter=1, **kw)
            except (np.linalg.LinAlgError, ValueError) as e:
                ctx.outcome("degenerate:%s" % type(e).__name__)
                break
            b = C.snapshot(f)
            if not finite(b):
                ctx.outcome("nonfinite")
                break
            got = m(pool[k].copy(), n_iter=1)
            a = C.snapshot(m)
            ctx.step()
            if not ctx.check(got.shape == exp.shape and sorted(a) == sorted(b), key + ":attributes", "parameters %s, output %s" % (sorted(a), got.shape)):
                break
            ctx.close(got, exp, key + ":output", rtol=1e-8, msg="the separation of another mixture shows")
            for p in b:
                ctx.close(a[p], b[p], key + ":" + p, rtol=1e-8, msg="an earlier mixture shows")
            if rec:
                ctx.check(np.allclose(m.loss[-2:], f.loss, rtol=1e-8, atol=1e-8, equal_nan=True), key + ":loss", lambda: "loss %s, expected %s" % (m.loss[-2:], f.loss))
            ctx.state(C.cfg_name(cfg), word[: i + 1], b)
        ctx.trace()
    ctx.outcome("other")


def run(case, ctx):
    with np.errstate(all="ignore"):
        {"step": run_step, "final": run_final, "recall": run_recall, "call": run_call, "other": run_other}[case["kind"]](case, ctx)
