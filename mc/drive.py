"""Driving one separator through its public interface and observing its states."""

import numpy as np

from . import configs as C


def can_record(cfg, record=True):
    """a loss is defined for this configuration"""
    return not (cfg["cls"] in C.HVAS or cfg["cls"].startswith("Masking"))


class Recorder:
    """callback object: the observable state at each call"""

    def __init__(self, name="a", log=None, snap=True):
        self.name, self.snap = name, snap
        self.log = log if log is not None else []
        self.states = []
        self.nloss = []
        self.lastloss = []
        self.recomputed = []

    def __call__(self, method):
        self.log.append(self.name)
        if self.snap:
            self.states.append(C.snapshot(method))
        self.nloss.append(None if method.loss is None else len(method.loss))
        self.lastloss.append(None if not method.loss else method.loss[-1])


def run(cfg, x, n_iter, initial_call=True, record_loss=None, callbacks=None, obj=None, call_kw=None, **extra):
    """returns (object, output)"""
    if record_loss is None:
        record_loss = can_record(cfg)
    m = obj
    if m is None:
        m = C.build(cfg, record_loss=record_loss, callbacks=callbacks, **extra)
    out = m(x, n_iter=n_iter, initial_call=initial_call, **(call_kw or {}))
    return m, out


def same_state(ctx, a, b, key, rtol=1e-8):
    """two snapshots agree, attribute by attribute"""
    ok = ctx.check(sorted(a) == sorted(b), key + ":attrs", lambda: "%s vs %s" % (sorted(a), sorted(b)))
    for k in sorted(set(a) & set(b)):
        ok &= ctx.close(a[k], b[k], key + ":" + k, rtol=rtol, msg=k)
    return ok


def ok_iterations(states):
    """number of leading states that are finite (the comparison horizon)"""
    n = 0
    for s in states:
        if not all(np.isfinite(v).all() for v in s.values()):
            break
        n += 1
    return n
