"""Compare one transition of the real code with a reference step, aware of the conditioning of the step itself."""

import numpy as np

from .ref import spatial as S


def aligned(g, v, align):
    return S.align_rows(g, v) if align and g.shape == v.shape else g


def compare(ctx, key, ref_fn, pre, got, rtol=1e-6, align=(), msg=""):
    """ref_fn(pre) -> expected values of a subset of the entries of `got`.

    A deviation beyond rtol counts unless the reference itself moves that much when its operands are perturbed in the
    last digits (perturbation 1e-9, allowance 1e-12): then nothing can be concluded and the step counts as ill-conditioned.
    """
    ref = ref_fn(pre)
    pert = None
    ctx.ill = False
    ok = True
    for k, v in sorted(ref.items()):
        if k not in got:
            ok = ctx.check(False, "%s:%s" % (key, k), "missing")
            continue
        v = np.asarray(v)
        g = aligned(np.asarray(got[k]), v, k in align)
        if g.shape == v.shape and np.isfinite(g).all() and np.isfinite(v).all():
            scale = np.max(np.abs(v)) if v.size else 0
            err = np.max(np.abs(g - v)) if v.size else 0
            if err > rtol * scale + 1e-300:
                if pert is None:
                    pert = []
                    for ph in (0.0, 1.0):
                        p = {n: (a * (1 + 1e-9 * np.cos(ph + 1.7 * np.arange(a.size))).reshape(a.shape)
                                 if isinstance(a, np.ndarray) and a.dtype.kind in "fc" else a) for n, a in pre.items()}
                        S.NOISE = 1e-9
                        try:
                            pert.append(ref_fn(p))
                        except Exception:
                            pert.append(None)
                        finally:
                            S.NOISE = 0.0
                dev = 0
                for p in pert:
                    if p is None or not np.isfinite(p[k]).all():
                        dev = np.inf
                    else:
                        dev = max(dev, np.max(np.abs(aligned(np.asarray(p[k]), v, k in align) - v)))
                if err <= 1e-3 * dev and dev > 1e-4 * scale:
                    ctx.outcome("ill-conditioned step")
                    ctx.ill = True
                    continue
        ok &= ctx.close(g, v, "%s:%s" % (key, k), rtol=rtol, msg=msg or k)
    return ok
