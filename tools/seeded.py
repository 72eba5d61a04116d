"""Planted bugs: create and verify (development tool, used by no check).

  seeded.py add SPEC.py     SPEC defines ID, PROPERTY, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source)
  seeded.py verify [ID...]  patch applies, package imports, 468 tests pass, demo 0 / nonzero; then runs the property's quick check
  seeded.py check [ID...] [--all]  only the checks (--all: every check against the bug)
"""
import ast
import json
import os
import runpy
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(HERE, "seeded")
PY = "/opt/venv/bin/python"
ENV = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg")
DEMO_SH = """#!/bin/bash
# run with cwd = the repository: exit 0 when the property holds
export PYTHONDONTWRITEBYTECODE=1 OMP_NUM_THREADS=1 OPENBLAS_NUM_THREADS=1
PYTHONPATH="$PWD" exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd=None, env=None, timeout=900):
    p = subprocess.run(cmd, cwd=cwd, env=env or ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    return p.returncode, p.stdout


def scratch():
    d = tempfile.mkdtemp(prefix="seeded-")
    shutil.copytree("/repo", d + "/repo", symlinks=True)
    return d, d + "/repo"


def tests(repo):
    env = dict(ENV, PYTHONPATH=repo + ":/opt/vp/plugins")
    rc, out = sh([PY, "-m", "pytest", "tests/package", "-q", "-p", "no:cacheprovider", "-p", "vp_network_marker", "-m", "not network", "--timeout=300"], repo, env)
    return rc, out.strip().splitlines()[-1] if out.strip() else ""


def demo(repo, d):
    return sh(["bash", os.path.join(d, "demo.sh")], repo, timeout=300)


def check(repo, prop, tier="quick"):
    ev = tempfile.mkdtemp(prefix="ev-")
    env = dict(ENV, MC_REPO=repo, MC_EVIDENCE=ev, MC_OUT=ev)
    rc, out = sh(["bash", os.path.join(HERE, "check.sh"), prop, tier], HERE, env)
    shutil.rmtree(ev)
    first = [l for l in out.splitlines() if l.startswith("VIOLATION")]
    return rc, (first[0] if first else out[-300:].strip())


def verify(i, with_tests=True, props=None):
    d = os.path.join(SEEDED, i)
    meta = json.load(open(os.path.join(d, "meta.json")))
    tmp, repo = scratch()
    msg = []
    try:
        if with_tests:
            rc, out = demo(repo, d)
            msg.append("demo clean: %d%s" % (rc, "" if rc == 0 else " BAD " + out[-600:]))
        rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if rc:
            return i + ": patch does not apply " + out
        if with_tests:
            rc, out = demo(repo, d)
            msg.append("demo patched: %d%s" % (rc, "" if rc else " BAD (passes)"))
            if rc:
                msg.append("(" + (out.strip().splitlines() or [""])[-1][:140] + ")")
            rc, out = tests(repo)
            msg.append("tests: %d %s%s" % (rc, out, "" if rc == 0 else " BAD"))
        for p in props or [meta["property"]]:
            rc, out = check(repo, p)
            if props is None or rc:
                msg.append("%s %s: %s" % ("CAUGHT" if rc == 1 else "MISSED" if rc == 0 else "ERROR", p, out[:220] if rc else ""))
    finally:
        shutil.rmtree(tmp)
    return i + "\n   " + "\n   ".join(msg)


def segment(text, scope):
    """Text before, of and after the class or function named by a dotted path."""
    node = ast.parse(text)
    for name in scope.split("."):
        node = next(n for n in ast.walk(node) if isinstance(n, (ast.ClassDef, ast.FunctionDef)) and n.name == name)
    lines = text.splitlines(True)
    a, b = node.lineno - 1, node.end_lineno
    return "".join(lines[:a]), "".join(lines[a:b]), "".join(lines[b:])


def add(spec):
    s = runpy.run_path(spec)
    d = os.path.join(SEEDED, s["ID"])
    tmp, repo = scratch()
    try:
        for file, *scope, old, new in s["EDITS"]:
            p = os.path.join(repo, file)
            text = open(p).read()
            head, body, tail = segment(text, scope[0]) if scope else ("", text, "")
            if body.count(old) != 1:
                return print(s["ID"], "BAD EDIT: %d matches of %r in %s" % (body.count(old), old[:80], file))
            open(p, "w").write(head + body.replace(old, new) + tail)
        rc, diff = sh(["git", "diff"], repo)
    finally:
        shutil.rmtree(tmp)
    os.makedirs(d, exist_ok=True)
    open(d + "/patch.diff", "w").write(diff)
    open(d + "/demo.sh", "w").write(DEMO_SH)
    open(d + "/demo.py", "w").write(s["DEMO"].lstrip())
    json.dump({"property": s["PROPERTY"], "needs": s["NEEDS"], "what_it_breaks": s["BREAKS"]}, open(d + "/meta.json", "w"), indent=1)
    out = verify(s["ID"])
    print(out, flush=True)
    if "BAD" in out or "does not apply" in out:
        shutil.rmtree(d)


def main():
    cmd, args = sys.argv[1], sys.argv[2:]
    if cmd == "add":
        with ThreadPoolExecutor(2) as ex:
            list(ex.map(add, args))
        return
    every = "--all" in args
    ids = [a for a in args if a != "--all"] or sorted(os.listdir(SEEDED))
    props = ["C%02d" % k for k in range(1, 34)] if every else None
    with ThreadPoolExecutor(1 if every else 2) as ex:
        for line in ex.map(lambda i: verify(i, cmd == "verify", props), ids):
            print(line, flush=True)


main()
