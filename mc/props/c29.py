"""Every method x option x every history of constructing, printing, running (0, 1, 2 iterations), re-running and
reassigning options up to depth 4: in every state the printed form is produced, parsed, and each listed option is compared
with the value given at construction (or reassigned since); printing must not change any attribute or the later course of
the run (compared with the same history without printing)."""

import inspect
import itertools
import re
import warnings

from .. import configs as C
from .. import drive as D

ID = "C29"
TITLE = "The printed form of a method reports the options in effect"
BOUNDS = {
    "quick": "all methods and options, 2 sets of numerical values, all histories of {run 0, run 2, reassign, continue} up to depth 2",
    "thorough": "as quick, all histories up to depth 4",
}
ASSUMPTIONS = ["which options are listed and the displayed family name are a matter of taste and not judged"]
NUMS = {"step_size": (0.05, 0.125), "dof": (7, 3.5), "beta": (1.25, 0.75), "n_basis": (3, 4), "reference_id": (1, -1), "rho": (0.5, 2.25),
        "mu1": (0.9, 1.125), "mu2": (0.8, 0.75), "relaxation": (0.7, 1.5), "attenuation": (0.3, 0.45), "mask_iter": (2, 3), "domain": (1.5, 0.75), "n_blocks": (2, 1)}


def cases(tier):
    q = tier == "quick"
    out = []
    for cfg in C.all_configs(1):
        for k in (None, 0, 1):
            out.append({"cfg": cfg, "nums": k, "depth": 2 if q else 4})
    return out


def case_name(c):
    return "%s/%s" % (C.cfg_name(c["cfg"]), c["nums"])


def parse(text):
    body = re.fullmatch(r"\s*[\w.]+\((.*)\)\s*", text, re.S)
    if body is None:
        return None
    return re.findall(r"(\w+)=([^=]*?)(?=,\s*\w+=|$)", body.group(1), re.S)


def look(m, want, ctx, key):
    before = dict(m.__dict__)
    deep = C.snapshot(m)
    texts = [repr(m), str(m), "{}".format(m)]
    ctx.step()
    ctx.check(texts[0] == texts[1] == texts[2], key + ":same", "repr %r, str %r" % tuple(texts[:2]))
    after = m.__dict__
    ctx.check(sorted(after) == sorted(before) and all(after[k] is before[k] for k in before), key + ":pure", "attributes changed by printing")
    D.same_state(ctx, C.snapshot(m), deep, key + ":state", rtol=0)
    items = parse(texts[0])
    if not ctx.check(items is not None, key + ":form", texts[0]):
        return
    names = [k for k, _ in items]
    ctx.check(len(set(names)) == len(names), key + ":twice", texts[0])
    for k, v in items:
        if k in want:
            ctx.check(v.strip() in (str(want[k]), repr(want[k])), key + ":" + k, "%s lists %s=%s, in effect is %r" % (texts[0], k, v, want[k]))
        elif hasattr(m, k):
            ctx.check(v.strip() in (str(getattr(m, k)), repr(getattr(m, k))), key + ":" + k, "%s: attribute is %r" % (texts[0], getattr(m, k)))
    ctx.outcome("%d options" % len(items))


def run(case, ctx):
    cfg = case["cfg"]
    cls = C.CLASSES[cfg["cls"]]
    extra = {}
    if case["nums"] is not None:
        # value sets per option, given explicitly where the constructor knows the option
        sig = inspect.signature(cls.__init__).parameters
        for k, v in NUMS.items():
            if k in sig and not (k == "n_blocks" and case["nums"] == 0):
                extra[k] = v[case["nums"]]
        if cfg["kw"].get("partitioning"):
            extra.pop("n_basis", None)
        if cfg["kw"].get("source_algorithm") == "ME":
            extra.pop("domain", None)  # ME updates are defined for domain 2 only
        if cfg["cls"] in ("HVA",) and "attenuation" in extra and case["nums"] == 1:
            extra.pop("attenuation")
    cfg = C.with_kw(cfg, **extra)
    n = 2
    x = C.shape_input(cfg, "mix:0", n, 4, 12)
    given = dict(cfg["kw"])
    opts = ["run0", "run2", "again", "assign"]
    for d in range(case["depth"] + 1):
        for hist in itertools.product(opts, repeat=d):
            if d and hist[0] == "again":
                continue
            ends = []
            for show in (True, False):
                with warnings.catch_warnings():
                    warnings.simplefilter("ignore")
                    m = C.build(cfg)
                    want = dict(given)
                    if show:
                        look(m, want, ctx, "new")
                    died = None
                    for i, op in enumerate(hist):
                        try:
                            if op == "assign":
                                if "reference_id" in m.__dict__:
                                    m.reference_id = want["reference_id"] = 0 if m.reference_id else 1
                            else:
                                m(x.copy(), n_iter=2 if op == "run2" else 1 if op == "again" else 0, initial_call=op != "again")
                        except Exception as e:  # running twice is not supported by all methods (C04)
                            died = repr(e)[:60]
                            break
                        ctx.step()
                        if show:
                            look(m, want, ctx, "+".join(hist[: i + 1]))
                            ctx.state(C.cfg_name(cfg), hist[: i + 1], C.snapshot(m))
                    ends.append((m, died))
            ctx.trace()
            (a, da), (b, db) = ends
            ctx.check(da == db, "run:" + "+".join(hist), "printing changes the run: %s / %s" % (da, db))
            D.same_state(ctx, C.snapshot(a), C.snapshot(b), "end:" + "+".join(hist), rtol=0)
