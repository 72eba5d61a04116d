"""Explicit-state / bounded-exhaustive explorer used by every check.

A property module provides

    ID, TITLE
    cases(tier)      -> list of JSON-able case descriptors: the bounded space, enumerated completely
    run(case, ctx)   -> explores one descriptor on the real code; reports to ctx

``ctx`` counts distinct visited states (by digest), transitions (operations applied to the
real implementation) and traces validated against the reference model.
"""

import hashlib
import json
import os
import signal
import sys
import time
import traceback
import warnings
from concurrent.futures import FIRST_COMPLETED, ProcessPoolExecutor, wait

import numpy as np

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = os.environ.get("MC_OUT", os.path.join(VERIF, "out"))
EVIDENCE = os.environ.get("MC_EVIDENCE", os.path.join(VERIF, "evidence"))
KNOWN = os.path.join(VERIF, "known_findings.txt")
CASE_TIMEOUT = 180


class HarnessError(Exception):
    """A defect of the machinery, never a verdict."""


class CaseTimeout(Exception):
    pass


def _digest_update(h, obj):
    if isinstance(obj, np.ndarray):
        a = np.ascontiguousarray(obj)
        h.update(str(a.dtype).encode() + str(a.shape).encode())
        h.update(a.tobytes())
    elif isinstance(obj, dict):
        for k in sorted(obj, key=str):
            h.update(b"k" + str(k).encode())
            _digest_update(h, obj[k])
    elif isinstance(obj, (list, tuple)):
        h.update(b"[" + str(len(obj)).encode())
        for o in obj:
            _digest_update(h, o)
    else:
        h.update(repr(obj).encode())


def digest(*objs):
    h = hashlib.blake2b(digest_size=8)
    for o in objs:
        _digest_update(h, o)
    return h.digest()


class Ctx:
    MAX_FAIL = 5

    def __init__(self):
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.outcomes = {}
        self.fails = []
        self.maxima = {}

    # ---- exploration accounting
    def state(self, *objs):
        """register a visited state; True when new"""
        d = digest(*objs)
        if d in self.states:
            return False
        self.states.add(d)
        return True

    def step(self, n=1):
        self.transitions += n

    def trace(self, n=1):
        self.traces += n

    def outcome(self, name):
        self.outcomes[name] = self.outcomes.get(name, 0) + 1

    def measure(self, name, value):
        v = float(value)
        if v > self.maxima.get(name, -np.inf):
            self.maxima[name] = v

    # ---- verdicts
    def fail(self, key, msg):
        if len(self.fails) < 200:
            self.fails.append((str(key), str(msg)))

    def check(self, ok, key, msg=""):
        if not bool(ok):
            self.fail(key, msg() if callable(msg) else msg)
            return False
        return True

    def close(self, a, b, key, rtol=1e-7, atol=None, msg=""):
        """|a-b| <= rtol*scale elementwise in max norm (scale = max|b|), shapes equal, finite."""
        a = np.asarray(a)
        b = np.asarray(b)
        if a.shape != b.shape:
            self.fail(key, "%s shape %s != %s" % (msg, a.shape, b.shape))
            return False
        if a.size == 0:
            return True
        if not (np.isfinite(a).all() and np.isfinite(b).all()):
            same = np.array_equal(a, b, equal_nan=True)
            if not same:
                self.fail(key, "%s non-finite values: got %s expected %s" % (msg, short(a), short(b)))
            return same
        scale = np.max(np.abs(b))
        tol = rtol * scale + (1e-300 if atol is None else atol)
        err = np.max(np.abs(a - b))
        if not err <= tol:
            self.fail(key, "%s max|diff|=%.3e tol=%.3e got %s expected %s" % (msg, err, tol, short(a), short(b)))
            return False
        return True


def short(a, n=6):
    a = np.asarray(a).ravel()
    return np.array2string(a[:n], precision=8, separator=",") + ("..." if a.size > n else "")


def jkey(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()[:12]


def _alarm(signum, frame):
    raise CaseTimeout()


def run_case(mod, case):
    ctx = Ctx()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT))
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with np.errstate(all="ignore"):
                mod.run(case, ctx)
    except CaseTimeout:
        ctx.fail("timeout", "no termination within %d s" % getattr(mod, "CASE_TIMEOUT", CASE_TIMEOUT))
    except (MemoryError, HarnessError, KeyboardInterrupt):
        raise
    except Exception as e:  # the real code raised where the model says it must not
        tb = traceback.format_exc()
        ctx.fail("exception:%s" % type(e).__name__, tb[-1500:])
    finally:
        signal.alarm(0)
    return ctx


_MOD = None


def _worker(chunk):
    out = []
    for idx, case in chunk:
        t = time.time()
        try:
            ctx = run_case(_MOD, case)
        except HarnessError as e:
            return ("harness", str(e))
        out.append((idx, ctx.states, ctx.transitions, ctx.traces, ctx.outcomes, ctx.fails, ctx.maxima, time.time() - t))
        if any(k == "timeout" for k, _ in ctx.fails):
            return ("cut", out)  # a case that does not terminate is a violation: no need to wait for more of them
    return ("ok", out)


def load_known(pid):
    """known findings: lines 'finding: property=Cxx key=<case-hash>/<fail-key> text'."""
    known = {}
    if os.path.exists(KNOWN):
        for line in open(KNOWN):
            line = line.strip()
            if not line.startswith("finding:"):
                continue
            parts = dict(p.split("=", 1) for p in line.split()[1:3])
            if parts.get("property") != pid:
                continue
            text = line.split(None, 3)[3] if len(line.split(None, 3)) > 3 else ""
            known[parts["key"]] = text
    return known


def main(mod, tier):
    global _MOD
    _MOD = mod
    t0 = time.time()
    seed = int(os.environ.get("VERIF_SEED", "1"))
    cases = list(mod.cases(tier))
    if not cases:
        raise HarnessError("empty space")
    hashes = [jkey(c) for c in cases]
    if len(set(hashes)) != len(hashes):
        raise HarnessError("duplicate cases in the enumeration")
    nproc = int(os.environ.get("MC_PROCS", "8"))
    indexed = list(enumerate(cases))
    # interleave so that expensive neighbours are spread over the chunks
    nchunk = max(1, min(len(cases), nproc * getattr(mod, "CHUNKS_PER_PROC", 16)))
    chunks = [indexed[i::nchunk] for i in range(nchunk)]
    states, outcomes, maxima = set(), {}, {}
    transitions = traces = 0
    fails = []
    slow = []
    budget = getattr(mod, "BUDGET", {"quick": 800, "thorough": 6 * 3600})[tier]
    done = 0
    cut = None
    ex = ProcessPoolExecutor(max_workers=nproc)
    try:
        pending = {ex.submit(_worker, c) for c in chunks}
        while pending and not cut:
            finished, pending = wait(pending, timeout=max(1, budget - (time.time() - t0)), return_when=FIRST_COMPLETED)
            if not finished:
                cut = "%d s budget used up" % budget
            for f in finished:
                kind, out = f.result()
                if kind == "harness":
                    raise HarnessError(out)
                if kind == "cut":
                    cut = "a case did not terminate"
                for idx, st, tr, tc, oc, fl, mx, dt in out:
                    done += 1
                    states |= st
                    transitions += tr
                    traces += tc
                    for k, v in oc.items():
                        outcomes[k] = outcomes.get(k, 0) + v
                    for k, v in mx.items():
                        maxima[k] = max(maxima.get(k, -np.inf), v)
                    slow.append((dt, idx))
                    for key, msg in fl:
                        fails.append((idx, key, msg))
    finally:
        procs = list((getattr(ex, "_processes", None) or {}).values())
        if cut:
            for p in procs:
                p.terminate()
        ex.shutdown(wait=not cut, cancel_futures=True)
    if done != len(cases) and not fails:
        raise HarnessError("explored %d of %d cases: %s" % (done, len(cases), cut))
    known = load_known(mod.ID)
    viol, seen_known = [], {}
    for idx, key, msg in fails:
        full = "%s/%s" % (mod.case_name(cases[idx]) if hasattr(mod, "case_name") else hashes[idx], key)
        full = full.replace(" ", "")
        if full in known:
            seen_known.setdefault(full, msg)
        else:
            viol.append((idx, full, msg))
    if done != len(cases) and not viol:
        raise HarnessError("explored %d of %d cases: %s" % (done, len(cases), cut))
    for k in sorted(seen_known):
        print("KNOWN-FINDING: property=%s key=%s %s" % (mod.ID, k, known[k]))
    slow.sort(reverse=True)
    samples = [cases[i] for i in sorted({0, len(cases) // 2, len(cases) - 1})]
    ev = {
        "property": mod.ID,
        "tier": tier,
        "seed": seed,
        "level": "model_checking",
        "coverage": {
            "states": len(states),
            "transitions": transitions,
            "traces_validated_against_impl": traces,
            "evaluations": len(cases),
            "rule": (mod.__doc__ or "").strip(),
            "bounds": mod.BOUNDS[tier] if hasattr(mod, "BOUNDS") else "",
            "samples": samples,
            "distinct_outcomes": len(outcomes),
            "outcomes": dict(sorted(outcomes.items(), key=lambda kv: -kv[1])[:60]),
            "worst_measured": maxima,
            "slowest_case_s": round(slow[0][0], 3),
            "known_findings_seen": len(seen_known),
            "exhaustive": done == len(cases),
        },
        "assumptions": list(getattr(mod, "ASSUMPTIONS", [])),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(viol),
    }
    os.makedirs(EVIDENCE, exist_ok=True)
    with open(os.path.join(EVIDENCE, mod.ID + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    print(
        "%s %s cases=%d states=%d transitions=%d traces=%d outcomes=%d violations=%d known=%d wall=%.1fs"
        % (mod.ID, tier, len(cases), len(states), transitions, traces, len(outcomes), len(viol), len(seen_known), ev["wall_s"])
    )
    if os.environ.get("MC_VERBOSE"):
        print("maxima", maxima)
        for k, v in sorted(outcomes.items(), key=lambda kv: -kv[1])[:60]:
            print("  outcome", k, v)
        for dt, idx in slow[:5]:
            print("  slow %.2fs %s" % (dt, json.dumps(cases[idx])[:200]))
    if not viol:
        return 0
    os.makedirs(OUT, exist_ok=True)
    viol.sort(key=lambda v: v[0])  # enumeration is simplest-first
    reported = set()
    nshow = int(os.environ.get("MC_SHOW", "5"))
    for idx, full, msg in viol:
        if len(reported) >= nshow:
            break
        if idx in reported:
            continue
        reported.add(idx)
        path = os.path.join(OUT, "%s-%s.json" % (mod.ID, hashes[idx]))
        with open(path, "w") as f:
            json.dump({"property": mod.ID, "case": cases[idx], "key": full, "message": msg,
                       "replay": "bash replay.sh %s" % path}, f, indent=1)
        print("VIOLATION property=%s replay=%s" % (mod.ID, path))
        print("   key=%s" % full)
        print("   " + msg[:1200].replace("\n", "\n   "))
    return 1


def replay(path):
    import importlib
    rec = json.load(open(path))
    mod = importlib.import_module("mc.props." + rec["property"].lower())
    a = run_case(mod, rec["case"])
    b = run_case(mod, rec["case"])
    if [f[0] for f in a.fails] != [f[0] for f in b.fails]:
        print("replay diverged between two runs")
        return 2
    for k, m in a.fails:
        print("FAIL", k, m)
    print("fails:", len(a.fails))
    return 1 if a.fails else 0
