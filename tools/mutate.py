"""Mutation analysis (development tool, used by no check): which small edits of ssspy does no check notice?

  mutate.py index            executed lines of (a sample of) the quick cases of every check -> /tmp/mut/index.pkl
  mutate.py run [FILE..]     every mutant of the files against the cases that execute the edited line -> /tmp/mut/result.jsonl
  mutate.py deepindex        the same with more cases per line -> /tmp/mut/deep.pkl
  mutate.py deep [PATTERN]   the mutants that survived `run` against those -> /tmp/mut/deep.jsonl
  mutate.py tests            of the mutants no check noticed, those the repository's tests do not notice either
"""
import ast
import json
import os
import pickle
import random
import signal
import subprocess
import sys
import time

sys.dont_write_bytecode = True
sys.pycache_prefix = "/nonexistent/mc-no-pycache"
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
OUT = os.environ.get("MUT", "/tmp/mut")
REPO = os.path.realpath(os.environ.get("MC_REPO", "/repo"))
PIDS = ["C%02d" % i for i in range(1, 34)]
NPROC = int(os.environ.get("NPROC", "7"))
SAMPLE = int(os.environ.get("SAMPLE", "700"))
PER_LINE = int(os.environ.get("PER_LINE", "14"))


def pool(jobs, fn, nproc=NPROC, timeout=600):
    """run fn(job) in a forked child each; yields results in completion order"""
    running = {}
    jobs = list(jobs)[::-1]
    while jobs or running:
        while jobs and len(running) < nproc:
            job = jobs.pop()
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                try:
                    res = fn(job)
                except BaseException as e:  # noqa: B036
                    res = ("error", repr(e))
                with os.fdopen(w, "wb") as f:
                    pickle.dump(res, f)
                os._exit(0)
            os.close(w)
            running[r] = (pid, job, time.time())
        import select

        ready, _, _ = select.select(list(running), [], [], 1.0)
        for r in ready:
            pid, job, _ = running.pop(r)
            with os.fdopen(r, "rb") as f:
                data = f.read()
            os.waitpid(pid, 0)
            yield job, pickle.loads(data) if data else ("error", "died")
        for r, (pid, job, t) in list(running.items()):
            if time.time() - t > timeout:
                os.kill(pid, signal.SIGKILL)
                os.waitpid(pid, 0)
                os.close(r)
                del running[r]
                yield job, ("killed", "timeout")


# ---------------------------------------------------------------- coverage index
def index_job(job):
    pid, k, n = job
    import importlib

    mon = sys.monitoring
    lines = set()
    mon.use_tool_id(3, "cover")

    def line(code, no):
        if code.co_filename.startswith(REPO + "/ssspy/"):
            lines.add((code.co_filename[len(REPO) + 1:], no))
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    from mc import core

    mod = importlib.import_module("mc.props." + pid.lower())
    cases = mod.cases("quick")
    rnd = random.Random(7)
    pick = sorted(rnd.sample(range(len(cases)), min(SAMPLE, len(cases))))[k::n]
    out = []
    mon.set_events(3, mon.events.LINE)
    for i in pick:
        lines.clear()
        mon.restart_events()
        t = time.time()
        ctx = core.run_case(mod, cases[i])
        dt = time.time() - t
        if not ctx.fails:
            out.append((i, cases[i], dt, set(lines)))
    return pid, out


def index():
    idx = {}
    for job, (pid, out) in pool([(p, k, 4) for p in PIDS for k in range(4)], index_job, timeout=3000):
        for i, case, dt, lines in out:
            for fl in lines:
                idx.setdefault(fl, {}).setdefault(pid, []).append((dt, i))
        print(job, len(out), flush=True)
    rnd = random.Random(3)
    for fl in idx:
        for pid, lst in idx[fl].items():
            rnd.shuffle(lst)
            lst = sorted(lst[: 4 * PER_LINE], key=lambda c: c[0])
            # half cheap ones, half arbitrary
            cheap = lst[: PER_LINE // 2]
            rest = [c for c in lst if c not in cheap]
            rnd.shuffle(rest)
            idx[fl][pid] = [c for c in cheap + rest if c[0] < 5][:PER_LINE]
    pickle.dump(idx, open(OUT + "/index.pkl", "wb"))
    print("lines", len(idx))


def deep_index_job(job):
    pid, k, n = job
    import importlib

    mon = sys.monitoring
    lines = set()
    mon.use_tool_id(3, "cover")

    def line(code, no):
        if code.co_filename.startswith(REPO + "/ssspy/"):
            lines.add((code.co_filename[len(REPO) + 1:], no))
        return mon.DISABLE

    mon.register_callback(3, mon.events.LINE, line)
    from mc import core

    mod = importlib.import_module("mc.props." + pid.lower())
    cases = mod.cases("quick")
    rnd = random.Random(11)
    pick = sorted(rnd.sample(range(len(cases)), min(6000, len(cases))))[k::n]
    rnd.shuffle(pick)
    mon.set_events(3, mon.events.LINE)
    out = {}
    t0 = time.time()
    for i in pick:
        if time.time() - t0 > 600:
            break
        lines.clear()
        mon.restart_events()
        t = time.time()
        ctx = core.run_case(mod, cases[i])
        dt = time.time() - t
        if not ctx.fails:
            for fl in lines:
                lst = out.setdefault(fl, [])
                if len(lst) < 30:
                    lst.append((dt, i))
    return pid, out


def deep_index():
    idx = {}
    for job, res in pool([(p, k, 4) for p in PIDS for k in range(4)], deep_index_job, timeout=3000):
        if res[0] == "error":
            print(job, res)
            continue
        pid, out = res
        for fl, lst in out.items():
            idx.setdefault(fl, {}).setdefault(pid, []).extend(lst)
        print(job, flush=True)
    pickle.dump(idx, open(OUT + "/deep.pkl", "wb"))


def deep(pattern=""):
    global IDX, PER_LINE, LIMIT
    import numpy  # noqa: F401
    import numpy.lib.recfunctions  # noqa: F401
    import scipy.linalg  # noqa: F401

    PER_LINE, LIMIT = (10**6, 100) if ONLY else (120, 500)
    IDX = pickle.load(open(OUT + "/deep.pkl", "rb"))
    from mc.props import c16

    IDX["C16"] = {"C16": [(0.02, i) for i in range(len(c16.cases("quick")))]}
    path = OUT + "/deep.jsonl"
    done = set()
    if os.path.exists(path):
        for l in open(path):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    ms = []
    for l in open(OUT + "/result.jsonl"):
        r = json.loads(l)
        if r["verdict"] != "killed" and pattern in r["file"] and (r["file"], r["line"], r["new"]) not in done and "warnings.warn" not in r["old"]:
            ms.append(r)
    print(len(ms), "mutants", flush=True)
    with open(path, "a") as f:
        for m, (kind, text) in pool(ms, run_job, timeout=700):
            f.write(json.dumps(dict(m, verdict=kind, by=text)) + "\n")
            f.flush()


LIMIT = 240
ONLY = os.environ.get("ONLY")  # deep: default arguments against C16 and flooring edits against C30, C15 alone


# ---------------------------------------------------------------- mutants
SWAP = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}
CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt], ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
UNWRAP = {"flooring_fn", "maximum", "abs", "real", "to_psd", "sqrt", "conj", "copy", "normalize", "mean", "minimum", "sorted", "reversed", "log", "argsort", "permutation_fn"}


SECOND = bool(os.environ.get("SECOND"))  # names and order instead of operators
PEERS = [("n_sources", "n_channels"), ("n_bins", "n_frames"), ("n_bins", "n_sources"), ("basis", "activation"), ("demix_filter", "output"), ("input", "output"),
         ("spatial", "diagonalizer"), ("dual1", "dual2"), ("auxiliary1", "auxiliary2"), ("mu1", "mu2"), ("n_basis", "n_sources"),
         ("unit_input", "input"), ("whitened_input", "input"), ("mixing", "posterior"), ("_m", "_n"), ("low", "high"), ("left", "right"), ("T", "V"), ("num", "denom"),
         ("min", "max"), ("P", "Q"), ("X", "Y"), ("W", "U"), ("m", "n"), ("i", "j"), ("row", "col"), ("_Hermite", ""), ("_inv", ""), ("_scaled", ""), ("_tilde", ""),
         ("_hat", ""), ("_normalized", ""), ("_conj", ""), ("1", "2"), ("_sqrt", ""), ("_trans", ""), ("_inverse", "")]
LOCALS = {}


def second(node, fn):
    """the name of a peer instead of the right one"""
    out = []
    if isinstance(node, ast.Attribute) and isinstance(node.ctx, ast.Load) and isinstance(node.value, ast.Name) and node.value.id == "self":
        for a, b in PEERS:
            for x, y in ((a, b), (b, a)):
                if node.attr == x and len(x) > 2:
                    out.append(("self.%s for self.%s" % (y, x), ast.Attribute(node.value, y, ast.Load())))
    if isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load):
        names = LOCALS.get(fn, ())
        for w in names:
            if w != node.id and (any((a and a in node.id and node.id.replace(a, b) == w) or (b and b in node.id and node.id.replace(b, a) == w) for a, b in PEERS)
                                 or (len(w) <= 3 and len(node.id) <= 3 and w[0].isupper() == node.id[0].isupper())):
                out.append(("%s for %s" % (w, node.id), ast.Name(w, ast.Load())))
    return out


def swapped(body, fn):
    """neighbouring statements of a block exchanged, as one replacement for both"""
    for a, b in zip(body, body[1:]):
        if all(isinstance(x, (ast.Assign, ast.AugAssign, ast.Expr, ast.If, ast.For)) for x in (a, b)) and not (isinstance(a, ast.Expr) and isinstance(a.value, ast.Constant)):
            yield a, b


def variants(node):
    """(description, replacement node) for one expression or statement node"""
    import copy

    out = []

    def new(desc, f):
        n = copy.deepcopy(node)
        r = f(n)
        out.append((desc, n if r is None else r))

    if isinstance(node, ast.BinOp) and type(node.op) in SWAP:
        new("binop %s->%s" % (type(node.op).__name__, SWAP[type(node.op)].__name__), lambda n: setattr(n, "op", SWAP[type(node.op)]()))
        if isinstance(node.op, (ast.Add, ast.Sub, ast.Mult)):
            new("left operand only", lambda n: n.left)
    if isinstance(node, ast.BinOp) and isinstance(node.op, ast.MatMult):
        new("matmul swapped", lambda n: ast.BinOp(n.right, ast.MatMult(), n.left))
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
        new("unary dropped", lambda n: n.operand)
    if isinstance(node, ast.Compare) and len(node.ops) == 1 and type(node.ops[0]) in CMP:
        for c in CMP[type(node.ops[0])]:
            new("compare %s->%s" % (type(node.ops[0]).__name__, c.__name__), lambda n: setattr(n, "ops", [c()]))
    if isinstance(node, ast.BoolOp):
        new("and/or", lambda n: setattr(n, "op", ast.Or() if isinstance(node.op, ast.And) else ast.And()))
        new("first operand only", lambda n: n.values[0])
    if isinstance(node, ast.Constant) and not isinstance(node.value, str) and node.value is not None and node.value is not Ellipsis:
        v = node.value
        if isinstance(v, bool):
            new("%s->%s" % (v, not v), lambda n: setattr(n, "value", not v))
        elif isinstance(v, int):
            for w in ([1, -1] if v == 0 else [0, 2] if v == 1 else [v - 1, v + 1]):
                new("%s->%s" % (v, w), lambda n: setattr(n, "value", w))
        elif isinstance(v, float):
            new("%s->%s" % (v, v * 2), lambda n: setattr(n, "value", v * 2))
    if isinstance(node, ast.Call):
        f = node.func
        name = f.attr if isinstance(f, ast.Attribute) else f.id if isinstance(f, ast.Name) else ""
        if name in UNWRAP:
            if node.args and not (isinstance(f, ast.Attribute) and name in ("conj", "copy", "mean") and not isinstance(f.value, ast.Name)):
                new("%s unwrapped" % name, lambda n: n.args[0])
            elif isinstance(f, ast.Attribute) and not node.args:
                new(".%s dropped" % name, lambda n: n.func.value)
        if name in ("max", "sum", "min") and isinstance(f, ast.Attribute):
            new("%s->mean" % name, lambda n: setattr(n.func, "attr", "mean"))
        if name in ("transpose", "swapaxes", "einsum") and len(node.args) >= 2:
            def sw(n):
                n.args[-1], n.args[-2] = n.args[-2], n.args[-1]
            new("last two arguments swapped", sw)
        if name == "T" or name == "transpose" and len(node.args) <= 1:
            pass
        if len(node.args) == 2 and not any(isinstance(a, ast.Starred) for a in node.args) and name not in ("transpose", "swapaxes", "isinstance", "hasattr", "getattr", "setattr", "zeros", "ones", "maximum", "minimum"):
            def sw2(n):
                n.args[0], n.args[1] = n.args[1], n.args[0]
            new("arguments swapped", sw2)
        for i, k in enumerate(node.keywords):
            if k.arg and k.arg not in ("dtype", "stacklevel"):
                new("keyword %s dropped" % k.arg, lambda n: n.keywords.pop(i) and None)
    if isinstance(node, ast.Attribute) and node.attr == "T":
        new(".T dropped", lambda n: n.value)
    if isinstance(node, ast.Attribute) and node.attr in ("real", "imag") and isinstance(node.ctx, ast.Load):
        new(".%s dropped" % node.attr, lambda n: n.value)
    if isinstance(node, ast.IfExp):
        new("then branch", lambda n: n.body)
        new("else branch", lambda n: n.orelse)
    if isinstance(node, ast.Slice) and (node.lower or node.upper):
        new("slice opened", lambda n: (setattr(n, "lower", None), setattr(n, "upper", None)) and None)
    return out


def stmt_variants(node):
    out = []
    if isinstance(node, (ast.Assign, ast.AugAssign)):
        t = node.targets[0] if isinstance(node, ast.Assign) else node.target
        if isinstance(t, ast.Attribute) or isinstance(t, ast.Subscript) or isinstance(node, ast.AugAssign):
            out.append(("statement dropped", ast.Pass()))
        elif isinstance(node.value, (ast.BinOp, ast.Call)) and isinstance(t, ast.Name) and any(isinstance(x, ast.Name) and x.id == t.id for x in ast.walk(node.value)):
            out.append(("reassignment dropped", ast.Pass()))
    elif isinstance(node, ast.Expr) and isinstance(node.value, ast.Call):
        out.append(("call dropped", ast.Pass()))
    elif isinstance(node, ast.If) and not any(isinstance(b, ast.Raise) for b in node.body):
        import copy

        n = copy.deepcopy(node)
        n.test = ast.Constant(True)
        out.append(("if True", n))
        n = copy.deepcopy(node)
        n.test = ast.Constant(False)
        out.append(("if False", n))
    return out


def mutants(path):
    src = open(os.path.join(REPO, path)).read()
    tree = ast.parse(src)
    lines = src.split("\n")
    res = []
    seen = set()

    def emit(node, desc, repl, fn):
        try:
            ast.copy_location(repl, node)
            ast.fix_missing_locations(repl)
            text = ast.unparse(repl)
        except Exception:
            return
        l0, c0, l1, c1 = node.lineno, node.col_offset, node.end_lineno, node.end_col_offset
        # byte offsets -> work on utf8
        head = lines[l0 - 1].encode()[:c0].decode()
        tail = lines[l1 - 1].encode()[c1:].decode()
        is_stmt = isinstance(node, ast.stmt)
        if is_stmt:
            ind = head
            body = "\n".join(("" if i == 0 else ind) + t for i, t in enumerate(text.split("\n")))
        else:
            body = text if isinstance(repl, (ast.Name, ast.Constant, ast.Slice)) or isinstance(node, ast.Slice) else "(" + text + ")"
        pad = "\n" * max(0, (l1 - l0) - body.count("\n")) if is_stmt else ""
        newsrc = "\n".join(lines[: l0 - 1] + [head + body + tail] + lines[l1:])
        if newsrc in seen or newsrc == src:
            return
        try:
            if not SECOND:  # many: a random part is run, those that do not compile count as killed
                compile(newsrc, path, "exec")
                if ast.dump(ast.parse(newsrc)) == ast.dump(tree):
                    return
        except SyntaxError:
            return
        seen.add(newsrc)
        del pad
        res.append({"file": path, "fn": fn, "line": l0, "end": l1, "desc": desc, "old": "\n".join(lines[l0 - 1 : l1]), "new": (head + body + tail), "pos": [l0, c0, l1, c1]})

    def emit_swap(a, b, fn):
        l0, l1, l2, l3 = a.lineno, a.end_lineno, b.lineno, b.end_lineno
        new = "\n".join(lines[l2 - 1 : l3] + lines[l1 : l2 - 1] + lines[l0 - 1 : l1])
        names = lambda x, c: {ast.unparse(n) for n in ast.walk(x) if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, c)}
        sa, sb, la, lb = names(a, ast.Store), names(b, ast.Store), names(a, ast.Load), names(b, ast.Load)
        calls = [x for x in (a, b) if any(isinstance(n, ast.Call) and ast.unparse(n.func).startswith(("self.", "super")) for n in ast.walk(x))]
        if not (sa & (sb | lb) or sb & la or len(calls) > 0):
            return
        res.append({"file": path, "fn": fn, "line": l0, "end": l3, "desc": "statements exchanged", "old": "\n".join(lines[l0 - 1 : l3]), "new": new, "pos": [l0, 0, l3, 0]})

    def walk(node, fn, skip):
        if SECOND and fn:
            for field in ("body", "orelse"):
                blk = getattr(node, field, None)
                if isinstance(blk, list) and not isinstance(node, ast.ClassDef):
                    for a, b in swapped(blk, fn):
                        emit_swap(a, b, fn)
        for child in ast.iter_child_nodes(node):
            f = fn
            if isinstance(child, (ast.FunctionDef, ast.ClassDef)):
                f = (fn + "." if fn else "") + child.name
                if isinstance(child, ast.FunctionDef) and child.name == "__repr__":
                    continue
                if isinstance(child, ast.FunctionDef):
                    LOCALS[f] = sorted({n.id for n in ast.walk(child) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | {a.arg for a in child.args.args if a.arg != "self"})
            if isinstance(child, (ast.Raise, ast.Assert, ast.Import, ast.ImportFrom)):
                continue
            if isinstance(child, ast.Expr) and isinstance(child.value, ast.Constant):
                continue
            if isinstance(child, ast.Call) and ast.unparse(child.func) in ("warnings.warn",):
                continue
            if isinstance(child, (ast.arguments, ast.arg)) and not isinstance(node, ast.Lambda):
                if isinstance(child, ast.arguments):
                    for d in list(child.defaults) + [k for k in child.kw_defaults if k]:
                        if isinstance(d, ast.Constant):
                            for desc, r in variants(d):
                                emit(d, "default " + desc, r, f)
                continue
            if isinstance(child, ast.AnnAssign):
                continue
            if isinstance(node, ast.FunctionDef) and child is node.returns:
                continue
            if SECOND:
                if isinstance(child, ast.expr):
                    for desc, r in second(child, f):
                        emit(child, desc, r, f)
            elif isinstance(child, ast.stmt):
                if fn:
                    for desc, r in stmt_variants(child):
                        emit(child, desc, r, f)
            elif isinstance(child, (ast.expr, ast.Slice)) and (fn or True):
                for desc, r in variants(child):
                    emit(child, desc, r, f)
            walk(child, f, skip)

    walk(tree, "", False)
    return res


def apply(m):
    src = open(os.path.join(REPO, m["file"])).read()
    lines = src.split("\n")
    return "\n".join(lines[: m["line"] - 1] + [m["new"]] + lines[m["end"] :])


IDX = None


def run_job(m):
    """child: import ssspy with the edited module, run the cases that execute the edited lines"""
    import importlib
    import importlib.machinery

    target = os.path.join(REPO, m["file"])
    text = apply(m).encode()
    orig = importlib.machinery.SourceFileLoader.get_data

    def get_data(self, path):
        if os.path.realpath(path) == target:
            return text
        return orig(self, path)

    importlib.machinery.SourceFileLoader.get_data = get_data
    devnull = os.open(os.devnull, os.O_WRONLY)
    os.dup2(devnull, 1)
    os.dup2(devnull, 2)
    try:
        import mc  # noqa: F401
        from mc import core
    except Exception as e:
        return ("import", repr(e)[:80])
    hit = {}
    for l in range(m["line"], m["end"] + 1):
        for pid, lst in IDX.get((m["file"], l), {}).items():
            hit.setdefault(pid, []).extend(c for c in lst if c not in hit.get(pid, []))
    default = m["desc"].startswith("default ") and "C16" in IDX and "/bss/" in m["file"]
    if default:
        hit["C16"] = IDX["C16"]["C16"]
    if ONLY:
        if default:
            hit = {"C16": hit["C16"]}
        elif "flooring" in m["old"] or "flooring" in m["desc"]:
            hit = {k: v for k, v in hit.items() if k in ("C30", "C15")}
        else:
            return ("skipped", "")
    if ONLY:  # cases of the classes defined in (or derived from) the edited module, spread over kinds and classes
        from mc import configs as C

        stem = "ssspy.bss." + os.path.basename(m["file"])[:-3]
        users = {k for k, c in C.CLASSES.items() if any(b.__module__ == stem for b in c.__mro__)} or set(C.CLASSES)
        if "." in m["fn"]:
            owner = m["fn"].split(".")[0]
            users = {k for k in users if any(b.__name__ == owner for b in C.CLASSES[k].__mro__)} or users
        for pid in ("C16",) if default else ("C30", "C15"):
            groups = {}
            for i, c in enumerate(importlib.import_module("mc.props." + pid.lower()).cases("quick")):
                if "cfg" not in c or c["cfg"]["cls"] in users:
                    groups.setdefault((c.get("kind"), c.get("cfg", {}).get("cls"), c.get("n"), c.get("f")), []).append(i)
            rnd = random.Random(5)
            hit[pid] = []
            for g in groups.values():
                rnd.shuffle(g)
            for r in range(6 if default else 4):
                hit[pid] += [(0, g[r]) for g in groups.values() if r < len(g)]
    if not hit:
        return ("uncovered", "")
    core.CASE_TIMEOUT = 30
    tried = 0
    t0 = time.time()
    mods = {}
    # round robin: the cheapest case of each check first
    order = []
    for r in range(max(min(PER_LINE, 1000) * 2, max(map(len, hit.values())))):
        for pid in sorted(hit, key=lambda p: -len(hit[p])):
            if r < (len(hit[pid]) if default and pid == "C16" else min(len(hit[pid]), PER_LINE)):
                order.append((pid, hit[pid][r][1]))
    for pid, i in order:
        if pid not in mods:
            try:
                mod = importlib.import_module("mc.props." + pid.lower())
                if hasattr(mod, "CASE_TIMEOUT"):
                    mod.CASE_TIMEOUT = 30
                mods[pid] = (mod, mod.cases("quick"))
            except Exception as e:
                return ("killed", pid + " import " + repr(e)[:60])
        mod, cases = mods[pid]
        try:
            ctx = core.run_case(mod, cases[i])
        except BaseException as e:
            return ("killed", "%s harness %r" % (pid, e))
        tried += 1
        if ctx.fails:
            return ("killed", "%s %s" % (pid, ctx.fails[0][0][:60]))
        if time.time() - t0 > LIMIT:
            break
    return ("survived", "%d cases of %s" % (tried, ",".join(sorted(hit))))


def run(files):
    global IDX
    import numpy  # noqa: F401
    import numpy.lib.recfunctions  # noqa: F401
    import scipy.linalg  # noqa: F401

    IDX = pickle.load(open(OUT + "/index.pkl", "rb"))
    ms = [m for f in files for m in mutants(f)]
    if os.environ.get("ONLY"):
        ms = [m for m in ms if os.environ["ONLY"] in m["fn"]]
    if SECOND:
        ms = [m for m in ms if not m["desc"].startswith("default ") and not m["desc"].split()[-1] in ("np", "na", "_", "flooring_fn")]
        random.Random(7).shuffle(ms)
        ms = ms[: int(os.environ.get("MAX", "6000"))]
    done = set()
    path = OUT + "/result.jsonl"
    if os.path.exists(path):
        for l in open(path):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    ms = [m for m in ms if (m["file"], m["line"], m["new"]) not in done]
    print(len(ms), "mutants", flush=True)
    count = {}
    with open(path, "a") as f:
        for m, (kind, text) in pool(ms, run_job, timeout=400):
            count[kind] = count.get(kind, 0) + 1
            f.write(json.dumps(dict(m, verdict=kind, by=text)) + "\n")
            f.flush()
    print(count)


def tests_job(m):
    import shutil
    import tempfile

    d = tempfile.mkdtemp(prefix="mut-")
    try:
        shutil.copytree(REPO, d + "/repo", symlinks=True, ignore=shutil.ignore_patterns(".git", "notebooks", "docs"))
        with open(os.path.join(d, "repo", m["file"]), "w") as f:
            f.write(apply(m))
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONPATH=d + "/repo:/opt/vp/plugins")
        mod = m["file"].split("/")
        p = subprocess.run(["/opt/venv/bin/python", "-m", "pytest", "tests/package", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_network_marker", "-m", "not network", "--timeout=120"],
                           cwd=d + "/repo", env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=500)
        del mod
        return ("pass" if p.returncode == 0 else "fail", p.stdout.strip().splitlines()[-1][:100])
    finally:
        shutil.rmtree(d)


def tests():
    rs = [json.loads(l) for l in open(OUT + "/result.jsonl")]
    surv = [r for r in rs if r["verdict"] in ("survived", "uncovered", "error")]
    path = OUT + "/tests.jsonl"
    done = set()
    if os.path.exists(path):
        for l in open(path):
            r = json.loads(l)
            done.add((r["file"], r["line"], r["new"]))
    surv = [r for r in surv if (r["file"], r["line"], r["new"]) not in done]
    print(len(surv), flush=True)
    with open(path, "a") as f:
        for m, (kind, text) in pool(surv, tests_job, timeout=600):
            f.write(json.dumps(dict(m, tests=kind, tail=text)) + "\n")
            f.flush()


if __name__ == "__main__":
    os.makedirs(OUT, exist_ok=True)
    if sys.argv[1] == "index":
        index()
    elif sys.argv[1] == "run":
        fs = sys.argv[2:]
        if not fs:
            fs = sorted(os.path.relpath(os.path.join(d, f), REPO) for d, _, ff in os.walk(REPO + "/ssspy") for f in ff if f.endswith(".py") and f != "_version.py")
        run(fs)
    elif sys.argv[1] == "deepindex":
        deep_index()
    elif sys.argv[1] == "deep":
        deep(*sys.argv[2:])
    elif sys.argv[1] == "tests":
        tests()
    elif sys.argv[1] == "count":
        import glob

        for f in sys.argv[2:]:
            print(f, len(mutants(f)))
