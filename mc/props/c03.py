"""For every separation method x discrete option, every run history n_iter in 0..N x initial_call in
{yes,no} x recording {on,off} x callback arrangement (none, one function, list of two, tuple, repeated entries, empty) is executed
on the real object; a reference counter automaton predicts the number and order of callback calls, of
recorded losses and of update steps, and the states seen by the callbacks must be exactly the states
after 0,1,..,n updates (prefix-consistent over all histories, independent of who observes)."""

import inspect
import itertools

import numpy as np

from .. import configs as C
from .. import drive as D

ID = "C03"
TITLE = "Iteration protocol"
BOUNDS = {
    "quick": "full option product, 3 bins, 8 frames, n_iter<=3 (2 channels) and <=2 (3 channels), all observer arrangements; all histories of 2 calls of 0..2 iterations; one run of 270 iterations per class",
    "thorough": "full option product, 2-4 channels, n_iter<=5, all observer arrangements; all histories of 3 calls; one run of 1100 iterations per class",
}
ASSUMPTIONS = ["callbacks do not modify the method"]


def cases(tier):
    out = []
    q = tier == "quick"
    for cfg in C.all_configs(1):
        for n_ch in (2, 3) if q else (2, 3, 4):
            out.append({"cfg": cfg, "n_ch": n_ch, "N": (3 if n_ch == 2 else 2) if q else 5})
            out.append({"cfg": cfg, "n_ch": n_ch, "calls": 2 if q or n_ch > 2 else 3, "N": 2})
    seen = set()
    for cfg in C.all_configs(1):
        if cfg["cls"] not in seen:
            seen.add(cfg["cls"])
            out.append({"cfg": cfg, "n_ch": 2, "long": True, "N": 270 if q else 1100})
    return out


def case_name(case):
    return "%s/%d" % (C.cfg_name(case["cfg"]), case["n_ch"]) + ("/calls" if "calls" in case else "") + (
        "/long" if "long" in case else "")


def run_calls(case, ctx):
    """several calls of one object: each announces itself in full"""
    cfg, N = case["cfg"], case["N"]
    x = C.shape_input(cfg, "mix:0", case["n_ch"], 3, 10)
    rec = D.can_record(cfg)
    if "ADMM" in cfg["cls"]:
        x = 0.8 * x
    if C.family(cfg) != "cacgmm" and "scale_restoration" in inspect.signature(C.CLASSES[cfg["cls"]].__init__).parameters:
        cfg = C.with_kw(cfg, scale_restoration=False)
    letters = [(n, i) for n in range(N + 1) for i in (True, False)]
    for word in itertools.product(letters, repeat=case["calls"]):
        log = []

        def cb(m):
            log.append(("c", None if m.loss is None else len(m.loss)))

        m = C.build(cfg, record_loss=rec, callbacks=cb)
        orig = m.update_once

        def counted(*args, **kw):
            log.append(("u", None if m.loss is None else len(m.loss)))
            return orig(*args, **kw)

        m.update_once = counted
        exp, losses = [], 0
        for j, (n, init) in enumerate(word):
            try:
                with np.errstate(all="ignore"):
                    m(x.copy(), n_iter=n, initial_call=init)
            except Exception as e:  # noqa: BLE001 (continuing a run is the business of C04)
                if j == 0:
                    raise
                ctx.outcome("not continued: %s" % type(e).__name__)
                return
            for k in range(n + 1):
                if k:
                    exp.append(("u", losses if rec else None))
                if k or init:
                    losses += 1
                    exp.append(("c", losses if rec else None))
            ctx.step(n)
            ctx.check(log == exp, "calls:%s@%d" % (word, j), "updates, callbacks and recorded losses %s, expected %s" % (log, exp))
            ctx.check(not rec or len(m.loss) == losses, "calls-losses:%s@%d" % (word, j), lambda: "%d losses, expected %d" % (len(m.loss), losses))
        ctx.state(C.cfg_name(cfg), word)
        ctx.trace()
    ctx.outcome("calls")


def run_long(case, ctx):
    """bookkeeping of a long run: one update, one recorded loss and one callback per iteration, whatever their number
    (the update is replaced by one that leaves the parameters alone: its numbers are the business of other checks)"""
    cfg, N = case["cfg"], case["N"]
    x = C.shape_input(cfg, "mix:0", 2, 3, 10)
    rec = D.can_record(cfg)
    if "ADMM" in cfg["cls"]:
        cfg = C.with_kw(cfg, scale_restoration=False)
    log, exp, at = [], [], []

    def cb(m):
        log.append("c")
        at.append(None if m.loss is None else len(m.loss))

    m = C.build(cfg, record_loss=rec, callbacks=cb)
    m.update_once = lambda *args, **kw: log.append("u")
    with np.errstate(all="ignore"):
        m(x.copy(), n_iter=N)
    exp = ["c"] + ["u", "c"] * N
    ctx.step(N)
    ctx.check(log == exp, "long:order", lambda: "%d updates and %d callbacks in %d iterations" % (log.count("u"), log.count("c"), N))
    ctx.check(not rec or at == list(range(1, N + 2)), "long:losses", lambda: "losses seen by the callbacks: %s" % at)
    ctx.check(not rec or len(m.loss) == N + 1, "long:nloss", lambda: "%d losses after %d iterations" % (len(m.loss), N))
    ctx.state(C.cfg_name(cfg), "long")
    ctx.trace()
    ctx.outcome("long")


def run(case, ctx):
    if "long" in case:
        return run_long(case, ctx)
    if "calls" in case:
        return run_calls(case, ctx)
    cfg, N = case["cfg"], case["N"]
    x = C.shape_input(cfg, "mix:0", case["n_ch"], 3, 10)
    rec_ok = D.can_record(cfg)
    if "ADMM" in cfg["cls"]:  # the first ADMM step maps its zero auxiliaries to a zero filter, which has no scale
        cfg = C.with_kw(cfg, scale_restoration=False)
    # longest observed run: the reference trajectory
    r = D.Recorder()
    m, out_ref = D.run(cfg, x, N, callbacks=r, record_loss=rec_ok)
    ctx.step(N)
    ctx.check(len(r.states) == N + 1, "count", "callback calls %d for n_iter=%d" % (len(r.states), N))
    traj = r.states
    losses = list(m.loss) if rec_ok else None
    horizon = D.ok_iterations(traj)
    for s in traj:
        ctx.state(C.cfg_name(cfg), s)
    arrangements = ("none", "one", "list2", "tuple2", "twice", "aba", "empty")
    for n, init, rec, arr in itertools.product(range(N + 1), (True, False), (True, False), arrangements):
        if rec and not rec_ok:
            continue
        if arr in ("twice", "aba", "empty") and n != N:
            continue
        log = []
        a, b = D.Recorder("a", log), D.Recorder("b", log)
        cbs = {"none": None, "one": a, "list2": [a, b], "tuple2": (a, b), "twice": [a, a], "aba": [a, b, a], "empty": []}[arr]
        m = C.build(cfg, record_loss=rec, callbacks=cbs)
        steps = [0]
        orig = m.update_once

        def counted(*args, **kw):
            steps[0] += 1
            return orig(*args, **kw)

        m.update_once = counted
        out = m(x, n_iter=n, initial_call=init)
        ctx.step(n)
        ctx.trace()
        key = "n%d,init%d,rec%d,%s" % (n, init, rec, arr)
        ctx.check(steps[0] == n, "steps:" + key, "update steps %d" % steps[0])
        slots = n + int(init)
        expect_log = {"none": [], "empty": [], "one": ["a"], "twice": ["a", "a"], "aba": ["a", "b", "a"]}.get(arr, ["a", "b"]) * slots
        ctx.check(log == expect_log, "order:" + key, "callback order %s expected %s" % (log, expect_log))
        if rec:
            if ctx.check(isinstance(m.loss, list) and len(m.loss) == slots, "nloss:" + key,
                         lambda: "recorded %s losses for %d slots" % (m.loss, slots)):
                exp = losses[0 if init else 1 : n + 1]
                ctx.check(all(isinstance(v, float) for v in m.loss), "losstype:" + key, "loss is not a float: %s" % m.loss)
                ctx.close(np.asarray(m.loss[:horizon], float), np.asarray(exp[:horizon], float), "loss:" + key, rtol=1e-8)
        else:
            ctx.check(not m.loss, "nolossrec:" + key, "losses recorded although record_loss=False: %s" % (m.loss,))
        if arr in ("twice", "aba"):  # every call sees the same state
            ctx.check(len(a.states) % 2 == 0 and all(np.array_equal(u[k], v[k]) for u, v in zip(a.states[::2], a.states[1::2]) for k in u),
                      "repeated:" + key, "a callback listed twice sees different states")
            a.states, a.nloss = a.states[::2], a.nloss[::2]
        if arr not in ("none", "empty"):
            exp_states = traj[0 if init else 1 : n + 1]
            for k, (got, exp) in enumerate(zip(a.states, exp_states)):
                if k + (0 if init else 1) < horizon:
                    D.same_state(ctx, got, exp, "state%d:%s" % (k, key))
            if rec:  # a callback sees the loss of the state it observes as the last record
                ctx.check(a.nloss == list(range(1, slots + 1)), "lossbeforecb:" + key, "loss counts seen %s" % a.nloss)
        ctx.check(out is not None and np.shape(out) == np.shape(x), "shape:" + key, "output shape %s" % (np.shape(out),))
        if n == N and horizon > N:
            ctx.close(out, out_ref, "output:" + key, rtol=1e-8)
        ctx.outcome("slots=%d" % slots)
