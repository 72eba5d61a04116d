"""For every separation method x discrete option, every caller-side situation is enumerated on the real
object: read-only / strided / Fortran-ordered / reused input buffers, given parameter arrays, all merges of
the call sequences of two instances (different shapes), nesting one instance inside every callback of the
other, and a disturbed global random state; each must leave the caller's data untouched and reproduce the
solo run of a fresh instance."""

import itertools

import numpy as np

from .. import configs as C
from .. import drive as D
from .c04 import handover_kw, prepare

ID = "C05"
TITLE = "Caller data untouched, instances isolated, runs reproducible"
BOUNDS = {
    "quick": "full option product; 6 buffer situations; all 20 merges of 3x3 calls of two equal instances and 6 merges of 2x2 calls with another method; nesting in every callback",
    "thorough": "as quick, every method paired with four other methods, all 20 merges of 3x3 calls",
}
ASSUMPTIONS = ["single-threaded use (the library has no threads); random generators given explicitly are equal-seeded"]


def cases(tier):
    cfgs = C.all_configs(1)
    out = []
    for i, cfg in enumerate(cfgs):
        others = [cfg, cfgs[(i + 37) % len(cfgs)]] if tier == "quick" else [cfg] + [cfgs[(i + d) % len(cfgs)] for d in (1, 37, 83, 151)]
        for j, o in enumerate(others):
            out.append({"cfg": cfg, "other": o, "k": (3 if j == 0 else 2) if tier == "quick" else 3})
    return out


def case_name(case):
    return "%s|%s" % (C.cfg_name(case["cfg"]), C.cfg_name(case["other"]))


def adm(cfg):
    # a zero filter after the first ADMM step has no scale
    return C.with_kw(cfg, scale_restoration=False) if "ADMM" in cfg["cls"] else cfg


def run(case, ctx):
    cfg, other = adm(case["cfg"]), adm(case["other"])
    x = C.shape_input(cfg, "mix:0", 2, 3, 10)
    n = 2

    def solo(c, xx, k=n):
        return C.build(c, record_loss=D.can_record(c))(xx, n_iter=k)

    state0 = np.random.get_state()[1].copy()
    err0 = np.geterr()
    base = solo(cfg, x.copy())
    ctx.check(np.array_equal(state0, np.random.get_state()[1]), "globalrng", "the global random state was consumed")
    ctx.check(err0 == np.geterr(), "errstate", "numpy error state changed")
    if not np.isfinite(base).all():
        ctx.outcome("non-finite")
        return
    ctx.state(C.cfg_name(cfg), base)

    def same(out, key):
        ctx.step(n)
        ctx.trace()
        ctx.state(C.cfg_name(cfg), key, out)
        ctx.outcome(key.split(":")[0])
        return ctx.close(out, base, key, rtol=1e-8)

    # --- buffer situations
    ro = x.copy()
    ro.setflags(write=False)
    same(solo(cfg, ro), "readonly")
    ctx.check(np.array_equal(ro, x), "mutated:readonly", "input overwritten")
    strided = np.zeros(x.shape[:-1] + (2 * x.shape[-1],), x.dtype)
    strided[..., ::2] = x
    view = strided[..., ::2]
    view.setflags(write=False)
    same(solo(cfg, view), "strided")
    same(solo(cfg, np.asfortranarray(x)), "fortran")
    work = x.copy()
    out1 = solo(cfg, work)
    ctx.check(np.array_equal(work, x), "mutated:input", "input overwritten")
    same(out1, "plain")
    ctx.check(not np.shares_memory(out1, work), "aliased:output", "the result is a view of the input")
    # buffer reuse: the caller overwrites its buffer as soon as the method has started
    buf = x.copy()

    def clobber(method):
        buf[...] = 7.0

    m = C.build(cfg, record_loss=D.can_record(cfg), callbacks=clobber)
    same(m(buf, n_iter=n), "reused-buffer")
    # global random state is irrelevant
    np.random.seed(5)
    same(solo(cfg, x), "global-seed")
    np.random.seed(None)
    # results returned earlier survive later work of the same object and of others
    m = C.build(cfg, record_loss=D.can_record(cfg))
    first = m(x, n_iter=n)
    kept = first.copy()
    if not C.is_output_based(cfg):
        m(x, n_iter=1)
    solo(cfg, C.shape_input(cfg, "mix:1", 2, 3, 10))
    ctx.check(np.array_equal(first, kept), "aliased:previous-result", "an earlier result was overwritten")
    same(first, "first-of-two")
    # --- callbacks list and keyword arrays belong to the caller
    cb = [lambda s: None]
    C.build(cfg, record_loss=D.can_record(cfg), callbacks=cb)(x, n_iter=1)
    ctx.check(len(cb) == 1, "mutated:callbacks", "callback list modified")
    if cfg["cls"] != "CACGMM":
        src = C.build(prepare(cfg), record_loss=False)
        src(x, n_iter=1)
        kw = handover_kw(src)
        if kw:
            copies = {k: [np.array(u) for u in (v if isinstance(v, (list, tuple)) else [v])] for k, v in kw.items()}
            m = C.build(cfg, record_loss=False)
            m(x, n_iter=n, **kw)
            for k, v in kw.items():
                for u, w in zip(v if isinstance(v, (list, tuple)) else [v], copies[k]):
                    ctx.check(np.array_equal(u, w), "mutated:%s" % k, "the given %s was overwritten" % k)
            ctx.outcome("keyword-arrays")
    # --- two instances, all merges of their calls
    y = C.shape_input(other, "mix:2", 3, 4, 12)
    k = case["k"]

    def seq(c, xx):
        """results of k successive single-iteration calls on one object"""
        m = C.build(c, record_loss=D.can_record(c))
        if C.is_output_based(c):  # these objects serve one call
            return [C.build(c, record_loss=D.can_record(c))(xx, n_iter=i + 1) for i in range(k)]
        return [m(xx, n_iter=1) for _ in range(k)]

    exp = {0: seq(cfg, x), 1: seq(other, y)}
    fin = {i: all(np.isfinite(o).all() for o in exp[i]) for i in exp}
    for merge in set(itertools.permutations([0] * k + [1] * k)):
        objs = {0: C.build(cfg, record_loss=D.can_record(cfg)), 1: C.build(other, record_loss=D.can_record(other))}
        cc, data, pos, res = {0: cfg, 1: other}, {0: x, 1: y}, {0: 0, 1: 0}, {0: [], 1: []}
        for who in merge:
            if C.is_output_based(cc[who]):
                o = C.build(cc[who], record_loss=D.can_record(cc[who]))(data[who], n_iter=pos[who] + 1)
            else:
                o = objs[who](data[who], n_iter=1)
            res[who].append(o)
            pos[who] += 1
            ctx.step()
        ctx.trace()
        name = "merge" + "".join(map(str, merge))
        ctx.outcome(name)
        for who in (0, 1):
            if fin[who]:
                for i, (g, e) in enumerate(zip(res[who], exp[who])):
                    ctx.close(g, e, "%s:%d:%d" % (name, who, i), rtol=1e-8)
        l0, l1 = objs[0].loss, objs[1].loss
        ctx.check(l0 is None or l0 is not l1, "sharedloss", "two instances share their loss record")
    # --- nesting: the other method runs inside each callback of the first one
    nested = []

    def inner(method):
        nested.append(C.build(other, record_loss=D.can_record(other))(y, n_iter=1))

    m = C.build(cfg, record_loss=D.can_record(cfg), callbacks=inner)
    same(m(x, n_iter=n), "nested")
    if fin[1]:
        for o in nested:
            ctx.close(o, exp[1][0], "nested-inner", rtol=1e-8)
