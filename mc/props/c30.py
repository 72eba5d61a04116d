"""The reference iterations of every method are evaluated with the very flooring function that was given (each maximum-type, additive and identity floor that
visibly acts), and compared with every transition; every public step that accepts a flooring function is executed in a running method with every
(constructed, handed) pair and compared with a method whose floor is reassigned; all short histories of steps with and without a handed floor and of reassignments
are compared with the register model; runs are repeated with the library's own default floor disabled (any influence of it is a violation)."""

import inspect
import itertools

import numpy as np
from ssspy.bss import _update_spatial_model as U
from ssspy.special import flooring as FL
from ssspy.special.psd import to_psd

from .. import configs as C
from .. import drive as D
from ..ref import aux as A
from ..ref import em as E
from ..ref import lowrank as L
from ..ref import spatial as S
from ..ref import steps as R
from ..stepcheck import compare

ID = "C30"
TITLE = "The flooring function in effect is the one applied, everywhere"
BOUNDS = {
    "quick": "every class and option product that takes a flooring function; 5 visible floors x 2-3 sources x 3 iterations against references; every public step x 6 (constructed, handed) pairs; histories of 3 operations over 5",
    "thorough": "2-4 sources, 5 iterations, 4 letters; histories of 4 operations",
}
ASSUMPTIONS = [
    "denominators of the pairwise updates (IP2, ISS2, IPA) live on the free scale of an eigenvector: a visible floor acting there is compared only between constructed and handed floors",
    "the reconstruction of IPSDTA uses its own fixed floor of 1e-10",
    "handing None to a step is either rejected or means the identity",
]
FLOORS = {
    "max": lambda v: np.maximum(v, 0.3),
    "low": lambda v: np.maximum(v, 1e-3),
    "add": lambda v: v + 0.05,
    "id": lambda v: v,
    "top": lambda v: np.maximum(v, 2.0),
    "sq": lambda v: np.sqrt(np.asarray(v) ** 2 + 0.04),
}
DEFAULT = S.FLOOR
NODENOM = ("IP2", "ISS2", "IPA")


DEPENDENT = {"instant_covariance", "posterior"}


class Stop(Exception):
    pass


def takes_floor(cfg):
    return "flooring_fn" in inspect.signature(C.CLASSES[cfg["cls"]].__init__).parameters


def quiet(cfg):
    """without final rescaling and permutation alignment"""
    extra = {}
    sig = inspect.signature(C.CLASSES[cfg["cls"]].__init__).parameters
    if "scale_restoration" in sig:
        extra["scale_restoration"] = False
    if "permutation_alignment" in sig and cfg["cls"] != "CACGMM":
        extra["permutation_alignment"] = False
    return extra


def configs(level):
    return [c for c in C.all_configs(level) if takes_floor(c)]


def cases(tier):
    q = tier == "quick"
    out = []
    for cfg in configs(1):
        fam = C.family(cfg)
        slow = fam in ("ipsdta", "mnmf", "cacgmm")
        F, T = {"ilrma": (3, 20), "ipsdta": (4, 12), "mnmf": (3, 12), "cacgmm": (3, 12), "prox": (5, 16)}.get(fam, (3, 20))
        for n in (2, 3) if q else (2, 3, 4):
            for inp in ("mix:0",) if q else ("mix:0", "mix:2", "quiet:1", "gap:0"):
                for f in ("max", "low", "add", "sq") + (("id",) if not q else ()):
                    if q and slow and n == 3 and f in ("low", "sq"):
                        continue
                    out.append(dict(kind="step", cfg=cfg, n=n, F=F, T=T, inp=inp, f=f, N=3 if q else 5))
        out.append(dict(kind="hand", cfg=cfg, n=2 if q else 3, F=F, T=T, inp="mix:0"))
        out.append(dict(kind="library", cfg=cfg, n=2, F=F, T=T, inp="mix:0"))
        out.append(dict(kind="start", cfg=cfg, n=2, F=F, T=T, inp="mix:0"))
        if not q:
            out.append(dict(kind="hand", cfg=cfg, n=2, F=F, T=T, inp="mix:2"))
    for cfg in configs(0):
        if "update_once" in steps(cfg):
            F, T = (4, 8) if C.family(cfg) == "ipsdta" else (3, 8)
            out.append(dict(kind="history", cfg=cfg, n=2, F=F, T=T, inp="mix:1", depth=3 if q else 4))
    for name in FUNCTIONS:
        for n in (2, 3, 4):
            out.append(dict(kind="function", fn=name, n=n))
    return out


def case_name(c):
    if c["kind"] == "function":
        return "function/%s/%d" % (c["fn"], c["n"])
    return "%s/%s/%d/%s%s" % (c["kind"], C.cfg_name(c["cfg"]), c["n"], c["inp"], "/" + c["f"] if "f" in c else "")


def run(case, ctx):
    with np.errstate(all="ignore"):
        globals()["run_" + case["kind"]](case, ctx)


def steps(cfg):
    """public methods that accept a flooring function"""
    k = C.CLASSES[cfg["cls"]]
    return [m for m, f in inspect.getmembers(k, inspect.isfunction) if not m.startswith("_") and "flooring_fn" in inspect.signature(f).parameters]


# ---------------------------------------------------------------- every transition against the reference with that floor
def reference(cfg, pre, X, Z):
    cls, fam, kw = cfg["cls"], C.family(cfg), cfg["kw"]
    if fam == "fdica":
        return A.fdica_step(cfg, pre, X) if cls.startswith("Aux") else R.gradient_step(cfg, pre, X, 0.1, kw.get("is_holonomic", False))
    if cls == "FastIVA":
        return R.fastiva_step(cfg, pre, Z)
    if cls == "FasterIVA":
        return R.fasteriva_step(cfg, pre, Z)
    if fam == "iva":
        return A.iva_step(cfg, pre, X) if cls.startswith("Aux") else R.gradient_step(cfg, pre, X, 0.1, kw.get("is_holonomic", True))
    if fam == "ilrma":
        return A.ilrma_step(cfg, pre, X)
    if cls == "GaussMNMF":
        return L.mnmf_step(cfg, pre, X)
    if cls == "FastGaussMNMF":
        return L.fastmnmf_step(cfg, pre, X)
    if cls == "CACGMM":
        return E.step(cfg, pre, X)
    if cls == "MaskingADMMHVA":
        return R.admm_step(cfg, pre, X)
    return R.pds_step(cfg, pre, X)


def run_step(case, ctx):
    cfg, f = case["cfg"], FLOORS[case["f"]]
    alg = cfg["kw"].get("spatial_algorithm", cfg["kw"].get("diagonalizer_algorithm"))
    if C.family(cfg) == "ipsdta" or alg == "IPA":
        return  # floors act on intermediate matrices / thresholds of inner programs: see the other kinds
    X = C.shape_input(cfg, case["inp"], case["n"], case["F"], case["T"])
    if "ADMM" in cfg["cls"]:
        X = 0.85 * X  # with a spectral norm of exactly one the second iterate is singular
    rec = D.Recorder()
    kw = dict(quiet(cfg), flooring_fn=f)
    if cfg["cls"] == "CACGMM":
        kw["permutation_alignment"] = False
    try:
        m, _ = D.run(cfg, X, case["N"], callbacks=rec, record_loss=False, **kw)
    except np.linalg.LinAlgError:
        ctx.outcome("singular")
        return
    Z = getattr(m, "whitened_input", None)
    align = ("demix_filter", "output", "diagonalizer") if alg in ("IP2", "ISS2") or cfg["cls"] == "FasterIVA" else ()
    for i, (a, b) in enumerate(zip(rec.states, rec.states[1:])):
        if not all(np.isfinite(v).all() for s in (a, b) for v in s.values()):
            break
        key = "step%d" % i
        # with a user's score function, the floor has no place in a gradient step
        with S.flooring(DEFAULT if cfg.get("fn") and "Grad" in cfg["cls"] else f):
            if alg in NODENOM:
                with S.flooring(f, denom=FLOORS["id"]):
                    u = reference(cfg, a, X, Z)
                v = reference(cfg, a, X, Z)
                if any(not np.allclose(u[k], v[k], rtol=1e-9, atol=0) for k in u):
                    ctx.outcome("floor on a free scale")
                    continue
            compare(ctx, key, lambda p: reference(cfg, p, X, Z), a, b, rtol=1e-5, align=align, msg="not the documented step with this flooring function")
        ctx.step()
        ctx.trace()
        ctx.state(C.cfg_name(cfg), case["f"], b)
        ctx.outcome(case["f"])


# ---------------------------------------------------------------- steps with a handed floor
def at_mid(cfg, X, k, g, op):
    """run with floor g, apply op to the running method after k iterations, leave"""
    res = []
    count = [0]

    def cb(method):
        if count[0] == k:
            res.append(op(method))
            raise Stop()
        count[0] += 1

    m = C.build(cfg, record_loss=False, callbacks=cb, flooring_fn=g, **quiet(cfg))
    try:
        m(X, n_iter=k + 1)
    except Stop:
        pass
    return res[0]


def attempt(name, **kw):
    def op(m):
        try:
            getattr(m, name)(**kw)
        except Stop:
            raise
        except Exception as e:
            return ("raises", type(e).__name__)
        return ("state", C.snapshot(m))

    return op


def assigned(g, op):
    def f(m):
        m.flooring_fn = g
        return op(m)

    return f


def agree(ctx, a, b, key, msg):
    if a[0] != b[0] or a[0] == "raises":
        ctx.check(a == b, key, lambda: "%s: %s against %s" % (msg, a[:1] + (a[1] if a[0] == "raises" else "",), b[:1] + (b[1] if b[0] == "raises" else "",)))
        return
    for k in a[1]:
        ctx.close(a[1][k], b[1][k], key + ":" + k, rtol=1e-9, msg=msg)


def poison(v):
    raise AssertionError("the constructed floor was consulted although another one was handed")


def run_hand(case, ctx):
    cfg = case["cfg"]
    X = C.shape_input(cfg, case["inp"], case["n"], case["F"], case["T"])
    for name in steps(cfg):
        for g, f in (("low", "max"), ("max", "low"), ("low", "add"), ("top", "low"), ("id", "top"), ("low", "low")):
            bare = at_mid(cfg, X, 1, FLOORS[g], assigned(FLOORS[f], attempt(name)))
            hand = at_mid(cfg, X, 1, FLOORS[g], attempt(name, flooring_fn=FLOORS[f]))
            key = "%s:%s:%s" % (name, g, f)
            agree(ctx, hand, bare, key, "%s(flooring_fn=%s) in a method constructed with %s differs from the same step of a method whose floor is %s" % (name, f, g, f))
            ctx.step(2)
            ctx.outcome(bare[0])
            if bare[0] == "state":
                ctx.state(C.cfg_name(cfg), name, g, f, bare[1])
                only = at_mid(cfg, X, 1, FLOORS[g], assigned(poison, attempt(name, flooring_fn=FLOORS[f])))
                agree(ctx, only, bare, key + ":only", "the constructed flooring function was consulted although another one was handed")
                ctx.step()
        own = at_mid(cfg, X, 1, FLOORS["max"], attempt(name, flooring_fn="self"))
        bare = at_mid(cfg, X, 1, FLOORS["max"], attempt(name))
        agree(ctx, own, bare, name + ":self", "flooring_fn='self' is not the constructed one")
        none = at_mid(cfg, X, 1, FLOORS["max"], attempt(name, flooring_fn=None))
        if none[0] == "state":
            agree(ctx, none, at_mid(cfg, X, 1, FLOORS["max"], attempt(name, flooring_fn=FLOORS["id"])), name + ":none", "flooring_fn=None is not the identity")
        ctx.step(3)
        ctx.trace()
    # none at construction is the identity
    def whole(f):
        try:
            rec = D.Recorder()
            _, y = D.run(cfg, X, 2, callbacks=rec, record_loss=False, flooring_fn=f)
            return rec.states + [{"output": y}]
        except (np.linalg.LinAlgError, ValueError) as e:
            return type(e).__name__

    a, b = whole(None), whole(FLOORS["id"])
    if isinstance(a, str) or isinstance(b, str):
        ctx.check(type(a) is type(b), "none", "flooring_fn=None is not the identity")
    else:
        for i, (s, t) in enumerate(zip(a, b)):
            if all(np.isfinite(v).all() for v in list(s.values()) + list(t.values())):
                D.same_state(ctx, s, t, "none:%d" % i)
    ctx.step(4)
    # the same floor by construction and by reassignment after construction
    for f in ("max", "add"):
        recs = []
        for late in (False, True):
            rec = D.Recorder()
            m = C.build(cfg, record_loss=False, callbacks=rec, flooring_fn=FLOORS["low"] if late else FLOORS[f], **quiet(cfg))
            if late:
                m.flooring_fn = FLOORS[f]
            try:
                m(X, n_iter=2)
            except np.linalg.LinAlgError:
                ctx.outcome("singular")
            recs.append(rec.states)
        if ctx.check(len(recs[0]) == len(recs[1]), "late:" + f, "number of states"):
            for i, (s, t) in enumerate(zip(*recs)):
                if all(np.isfinite(v).all() for v in list(s.values()) + list(t.values())):
                    D.same_state(ctx, s, t, "late:%s:%d" % (f, i))
        ctx.step(4)


# ---------------------------------------------------------------- the library default has no influence
class no_default:
    """the library's default floor maps everything to a huge number"""

    def __enter__(self):
        self.saved = FL.max_flooring.__code__

        def max_flooring(input, eps=1e-10):
            return np.maximum(input, 1e12 * eps)  # noqa: F821

        FL.max_flooring.__code__ = max_flooring.__code__

    def __exit__(self, *a):
        FL.max_flooring.__code__ = self.saved


def run_library(case, ctx):
    cfg = case["cfg"]
    if C.family(cfg) == "ipsdta":
        return
    X = C.shape_input(cfg, case["inp"], case["n"], case["F"], case["T"])
    for f in ("max", "add", "low"):
        for full in (False, True):
            got = []
            for off in (False, True):
                rec = D.Recorder()
                try:
                    if off:
                        with no_default():
                            _, y = D.run(cfg, X, 2, callbacks=rec, flooring_fn=FLOORS[f], **({} if full else quiet(cfg)))
                    else:
                        _, y = D.run(cfg, X, 2, callbacks=rec, flooring_fn=FLOORS[f], **({} if full else quiet(cfg)))
                    got.append((rec.states + [{"output": y}], rec.lastloss))
                except (np.linalg.LinAlgError, ValueError) as e:
                    got.append((type(e).__name__, None))
            key = "%s:%s" % (f, full)
            if isinstance(got[0][0], str) or isinstance(got[1][0], str):
                ctx.check(got[0][0] == got[1][0], key, "the library's default floor has an influence although another floor was given")
                continue
            for i, (s, t) in enumerate(zip(got[0][0], got[1][0])):
                for k in s:
                    ctx.check(np.array_equal(s[k], t[k], equal_nan=True), "%s:%d:%s" % (key, i, k), "the library's default floor has an influence although another floor was given")
            ctx.check(repr(got[0][1]) == repr(got[1][1]), key + ":loss", "the library's default floor has an influence on the loss")
            ctx.step(4)
            ctx.trace()
            ctx.state(C.cfg_name(cfg), f, full)


# ---------------------------------------------------------------- initial parameters
def run_start(case, ctx):
    cfg = case["cfg"]
    X = C.shape_input(cfg, case["inp"], case["n"], case["F"], case["T"])

    def first(f):
        rec = D.Recorder()
        D.run(cfg, X, 0, callbacks=rec, record_loss=False, flooring_fn=f, **quiet(cfg))
        return rec.states[0]

    raw = first(FLOORS["id"])
    psd = C.family(cfg) == "ipsdta"
    names = [k for k in raw if k.split(".")[0] in ("basis", "activation", "latent") and not (psd and k.startswith("basis"))]
    if psd and cfg["kw"].get("source_normalization", True):
        names, DEP = [], DEPENDENT | {"activation"}  # floored, then normalized
    else:
        DEP = DEPENDENT
    if cfg["cls"] == "FastGaussMNMF":
        names.append("spatial")
    for f in ("max", "add", "top", "sq"):
        got = first(FLOORS[f])
        for k in names:
            ctx.close(got[k], FLOORS[f](raw[k]), "start:%s:%s" % (f, k), rtol=1e-12, msg="initial values are not the floored random draws")
        if C.family(cfg) == "ilrma" or psd or cfg["cls"] in ("CACGMM", "MaskingPDSHVA", "MaskingADMMHVA"):
            for k in set(got) - set(names) - DEP:
                ctx.close(got[k], raw[k], "start:%s:%s" % (f, k), rtol=1e-12, msg="a quantity without floor depends on it")
        ctx.step()
        ctx.state(C.cfg_name(cfg), f)
    ctx.trace()


# ---------------------------------------------------------------- histories: the floor is a register, handed floors do not stick
OPS = [("step", None), ("step", "max"), ("step", "add"), ("set", "max"), ("set", "add")]


def run_history(case, ctx):
    cfg, depth = case["cfg"], case["depth"]
    X = C.shape_input(cfg, case["inp"], case["n"], case["F"], case["T"])
    slow = C.family(cfg) in ("ipsdta", "mnmf")
    if slow:
        depth = min(depth, 2 if depth == 3 else 3)
    memo = {}

    def model(floors):
        """states after steps under the given floors, each set as the method's own"""
        if floors not in memo:
            def op(m):
                for f in floors:
                    m.flooring_fn = FLOORS[f]
                    m.update_once()
                return C.snapshot(m)

            try:
                memo[floors] = at_mid(cfg, X, 0, FLOORS["low"], op)
            except np.linalg.LinAlgError:
                memo[floors] = None
        return memo[floors]

    for k in range(1, depth + 1):
        for seq in itertools.product(OPS, repeat=k):
            if not any(o == "step" for o, _ in seq) or seq[-1][0] == "set":
                continue
            own, floors = "low", []
            for o, f in seq:
                if o == "set":
                    own = f
                else:
                    floors.append(f or own)

            def op(m):
                for o, f in seq:
                    if o == "set":
                        m.flooring_fn = FLOORS[f]
                    elif f is None:
                        m.update_once()
                    else:
                        m.update_once(flooring_fn=FLOORS[f])
                return C.snapshot(m)

            want = model(tuple(floors))
            try:
                got = at_mid(cfg, X, 0, FLOORS["low"], op)
            except np.linalg.LinAlgError:
                got = None
            key = "-".join("%s.%s" % (o, f or "own") for o, f in seq)
            if ctx.check((want is None) == (got is None), key, "one of both is singular") and want is not None:
                for a in want:
                    if np.isfinite(want[a]).all():
                        ctx.close(got[a], want[a], key + ":" + a, rtol=1e-9, msg="not the steps under the floors %s" % (floors,))
            ctx.step(k)
            ctx.trace()
            ctx.state(C.cfg_name(cfg), seq)


# ---------------------------------------------------------------- functions
def _spd(n, k, F=3):
    rng = np.random.default_rng(k)
    A_ = rng.standard_normal((F, n, n, n + 2)) + 1j * rng.standard_normal((F, n, n, n + 2))
    return A_ @ A_.swapaxes(-1, -2).conj() / n


def _mat(shape, k):
    rng = np.random.default_rng(50 + k)
    return rng.standard_normal(shape) + 1j * rng.standard_normal(shape)


def _phi(n, k, F=3, T=9):
    return np.random.default_rng(70 + k).random((n, F, T)) + 0.1


FUNCTIONS = {
    "update_by_ip1": lambda n, **k: U.update_by_ip1(_mat((3, n, n), n), _spd(n, n), overwrite=False, **k),
    "update_by_ip2": lambda n, **k: U.update_by_ip2(_mat((3, n, n), n), _spd(n, n), overwrite=False, **k),
    "update_by_ip2_one_pair": lambda n, **k: U.update_by_ip2_one_pair(_mat((3, n, n), n), _spd(n, n)[:, :2], pair=(0, 1), **k),
    "update_by_iss1": lambda n, **k: U.update_by_iss1(_mat((n, 3, 9), n), _phi(n, n), **k),
    "update_by_iss2": lambda n, **k: U.update_by_iss2(_mat((n, 3, 9), n), _phi(n, n), **k),
    "update_by_ipa": lambda n, **k: U.update_by_ipa(_mat((n, 3, 9), n), _phi(n, n), **k),
    "to_psd": lambda n, **k: to_psd(_spd(n, n) - 0.5 * np.eye(n), **k),
}

NEGLIGIBLE = {"update_by_ip1": 1e-6, "update_by_ip2": 1e-6, "update_by_ip2_one_pair": 1e-6, "update_by_iss1": 1e-2, "update_by_iss2": 1e-6, "update_by_ipa": 1e-12}


def run_function(case, ctx):
    fn, n = FUNCTIONS[case["fn"]], case["n"]
    a, b = fn(n, flooring_fn=None), fn(n, flooring_fn=FLOORS["id"])
    ctx.check(np.array_equal(a, b, equal_nan=True), "none", "flooring_fn=None is not the identity")
    base = fn(n, flooring_fn=lambda v: np.maximum(v, 1e-10))
    ctx.check(np.array_equal(fn(n), base, equal_nan=True), "default", "the default is not the maximum with 1e-10")
    for f in ("max", "low", "add", "top", "sq"):
        calls = [0]

        def counted(v):
            calls[0] += 1
            return FLOORS[f](v)

        got = fn(n, flooring_fn=counted)
        with no_default():
            off = fn(n, flooring_fn=FLOORS[f])
        ctx.check(np.array_equal(got, off, equal_nan=True), f + ":library", "the library's default floor has an influence although another floor was given")
        ctx.check(calls[0] > 0, f + ":unused", "the flooring function is never called")
        ctx.step(2)
        ctx.state(case["fn"], n, f)
    ctx.check(not np.allclose(fn(n, flooring_fn=lambda v: v + 30.0), base), "effect", "a large floor has no effect")
    if case["fn"] in NEGLIGIBLE:  # every updated filter is divided by the floored length: nothing of it is left under a huge floor
        axes = (0, 2) if "_ip1" in case["fn"] or "_ip2" in case["fn"] else (1, 2)
        huge = np.abs(fn(n, flooring_fn=lambda v: np.maximum(v, 1e8)))
        r = huge.max(axis=axes) / np.abs(base).max(axis=axes)
        ctx.check((r < NEGLIGIBLE[case["fn"]]).all(), "huge", "under a floor of 1e8 the updated rows shrink by %s only" % r)
    ctx.trace()
