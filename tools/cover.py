"""Which lines of ssspy do the checks execute?  python tools/cover.py [tier] [Cxx ...]  (prints what no check reaches)"""
import ast
import importlib
import io
import multiprocessing as mp
import os
import sys
import tokenize

sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
mon = sys.monitoring
hits = set()
ROOT = os.path.realpath(os.environ.get("MC_REPO", "/repo")) + "/ssspy/"
mon.use_tool_id(3, "cover")


def line(code, no):
    if code.co_filename.startswith(ROOT):
        hits.add((code.co_filename, no))
    return mon.DISABLE


mon.register_callback(3, mon.events.LINE, line)
mon.set_events(3, mon.events.LINE)
from mc import core  # noqa: E402


def work(args):
    pid, tier, k, n = args
    mod = importlib.import_module("mc.props." + pid.lower())
    before = set()
    cases = mod.cases(tier)[k::n]
    stride = max(1, len(cases) // int(os.environ.get("COVER_CASES", "400")))
    for c in cases[::stride]:
        core.run_case(mod, c)
    return pid, hits - before


def executable(path):
    src = open(path).read()
    out = set()

    def walk(code):
        for _, _, ln in code.co_lines():
            if ln:
                out.add(ln)
        for c in code.co_consts:
            if hasattr(c, "co_lines"):
                walk(c)

    walk(compile(src, path, "exec"))
    for node in ast.walk(ast.parse(src)):  # drop definition lines and docstrings: they run at import
        if isinstance(node, (ast.FunctionDef, ast.ClassDef, ast.Module)):
            b = node.body[0] if node.body else None
            if isinstance(b, ast.Expr) and isinstance(getattr(b, "value", None), ast.Constant):
                out -= set(range(b.lineno, b.end_lineno + 1))
    return out


if __name__ == "__main__":
    tier = sys.argv[1] if len(sys.argv) > 1 else "quick"
    pids = sys.argv[2:] or ["C%02d" % i for i in range(1, 34)]
    jobs = [(p, tier, k, 4) for p in pids for k in range(4)]
    tot = set(hits)
    per = {}
    with mp.get_context("fork").Pool(8, maxtasksperchild=1) as pool:
        for pid, h in pool.imap_unordered(work, jobs, chunksize=1):
            tot |= h
            per.setdefault(pid, set()).update(h)
    for d, _, fs in sorted(os.walk(ROOT)):
        for f in sorted(fs):
            if f.endswith(".py"):
                p = os.path.join(d, f)
                ex = executable(p)
                miss = sorted(ex - {n for q, n in tot if q == p})
                if not miss:
                    continue
                lines = open(p).read().split("\n")
                print("== %s %d/%d" % (p[len(ROOT):], len(ex) - len(miss), len(ex)))
                for n in miss:
                    t = lines[n - 1].strip()
                    print("   %4d %s" % (n, t[:110]))
