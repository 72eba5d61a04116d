"""All request histories of the bound over two SiSEC tags, three reverberation times, several source counts, durations and both mixing modes are executed on the
real helpers with a stub download server in a scratch directory; for every request every crash point of downloading, unpacking and cache writing
(each write call: before, halfway, after; as a hard kill and as an interrupting exception) is injected and followed by every short history. Each returned array is compared with
a scalar reference computed from the served archives; downloads are counted per file."""

import builtins
import io
import itertools
import os
import shutil
import sys
import tempfile
import urllib.request
import zipfile

import numpy as np

from ssspy.utils.dataset import download_sample_speech_data

from ..ref import wav as R

ID = "C27"
TITLE = "Dataset helpers serve what was asked for across any history and crash"
BOUNDS = {
    "quick": "16 requests: all histories of length <= 2 and all of length 3 over 7 requests; every crash point (each write call x before/half/after x kill/interrupt) of 6 requests followed by the same and by another request; every subset of the arguments left at its default; sources longer than the default duration",
    "thorough": "all histories of length 3 over 7 x 16 x 16 requests and of length 4 over 5; every crash point of 8 requests followed by six histories; two crashes in a row",
}
ASSUMPTIONS = [
    "the network is a stub that serves well-formed archives or is cut off while writing",
    "after a crash a request may raise (the user then removes the directory) but never returns other data",
    "microphone selection 3,4,2,5,... and source directions 30,345,0,60 degrees are the ones of the pinned code",
]
CASE_TIMEOUT = 300
DEGREES = [30, 345, 0, 60, 315]
MICS = [3, 4, 2, 5, 1, 6, 0, 7]
TAGS = {"dev1_female3": 3, "dev1_female4": 4}
DURATIONS = [0.16, 0.36, 0.61]
FS = 16000


def req(tag=3, n=3, rt=0.16, dur=10, conv=True):
    return ("dev1_female%d" % tag, n, rt, dur, conv)


REQ = [
    req(),
    req(tag=4),
    req(rt=0.36),
    req(n=2),
    req(conv=False),
    req(dur=0.001),
    req(tag=4, n=4, rt=0.61),
    req(tag=4, n=2),
    req(tag=4, conv=False),
    req(n=2, rt=0.36),
    req(n=2, conv=False),
    req(tag=4, n=4, conv=False, dur=0.002),
    req(n=2, rt=0.61, dur=0.001),
    req(tag=4, rt=0.61),
    req(n=3, rt=0.36, dur=0.0005),
    req(n=4),  # dev1_female3 has three sources only: must raise
]


def source(tag, k):
    """k-th dry source: small integers, different for each tag and index; lengths differ from the window lengths."""
    n = 37
    a = TAGS[tag] * 11 + k * 5
    return [((a * (i + 1) * (i + 3) + 17 * i) % 211 - 105) * 64 for i in range(n)]


def rir48(rt, degree):
    """(n, 8) impulse responses at 48 kHz."""
    n = 48 if (rt, degree) != (0.16, 345) else 48 + 3 * int(FS * rt)  # one is longer than the nominal reverberation
    a = int(rt * 100) + degree
    i, c = np.arange(n)[:, None], np.arange(8)
    return ((a * (i + 1) + 7 * c * (i + 2)) % 23 - 11) / (1.0 + i)


def archives():
    """file name at the server -> bytes (an ordinary zip)."""
    from scipy.io import savemat

    def mat(d):
        b = io.BytesIO()
        savemat(b, d)
        return b.getvalue()

    def pack(files):
        b = io.BytesIO()
        with zipfile.ZipFile(b, "w", zipfile.ZIP_DEFLATED) as z:
            for name, data in files:
                z.writestr(zipfile.ZipInfo(name), data)
        return b.getvalue()

    out = {}
    files = []
    for tag, n in TAGS.items():
        for k in range(1, n + 1):
            files.append(("%s_src_%d.wav" % (tag, k), R.encode([[v] for v in source(tag, k)], FS, 16, 1)))
        files.append(("%s_inst_matrix.mat" % tag, mat({"A": np.eye(2)})))
    out["dev1.zip"] = pack(files)
    for rt in DURATIONS:
        name = "Impulse_response_Acoustic_Lab_Bar-Ilan_University__Reverberation_%.3fs__3-3-3-8-3-3-3.zip" % rt
        inner = "Impulse_response_Acoustic_Lab_Bar-Ilan_University_(Reverberation_%.3fs)_3-3-3-8-3-3-3_1m_%03d.mat"
        out[name] = pack([(inner % (rt, d), mat({"impulse_response": rir48(rt, d)})) for d in sorted(DEGREES)])
    return out


_SERVED = {}


def served():
    if not _SERVED:
        _SERVED.update(archives())
    return _SERVED


_EXPECT = {}


def expected(r):
    """Scalar reference of a request; None: must raise."""
    if r in _EXPECT:
        return _EXPECT[r]
    tag, n, rt, dur, conv = r
    if n > TAGS[tag]:
        return None
    T = min(37, int(FS * dur))
    src = [[v / 32768.0 for v in source(tag, k + 1)][:T] for k in range(n)]
    if not conv:
        out = np.array(src)
    else:
        from scipy.signal import resample_poly

        out = np.zeros((n, n, T))
        for s in range(n):
            h = resample_poly(rir48(rt, DEGREES[s]), FS, 48000, axis=0)
            for m in range(n):
                for t in range(T):
                    out[m, s, t] = sum(h[k, MICS[m]] * src[s][t - k] for k in range(min(t + 1, len(h))))
    _EXPECT[r] = out
    return out


class Crash(BaseException):
    pass


class World:
    """Stub server and file system with an optional crash point; everything happens below `root`."""

    def __init__(self, root):
        self.root = root
        self.downloads = []
        self.calls = 0
        self.crash = None  # (index of the write call, "before"/"half"/"after", "kill"/"soft")
        self.dead = False
        self.open = builtins.open

    def urlretrieve(self, url, filename=None, *a, **k):
        name = os.path.basename(url)
        if name not in served():
            raise OSError("404 " + url)
        if not os.path.abspath(filename).startswith(self.root):
            raise AssertionError("download outside the requested directory: %s" % filename)
        self.downloads.append(name)
        data = served()[name]
        with builtins.open(filename, "wb") as f:
            step = max(1, len(data) // 3)
            for i in range(0, len(data), step):
                f.write(data[i : i + step])
        return filename, None

    def opener(self, path, mode="r", *a, **k):
        if not any(c in mode for c in "wax+") or not isinstance(path, (str, os.PathLike)):
            return self.open(path, mode, *a, **k)
        if not os.path.abspath(path).startswith(self.root):
            return self.open(path, mode, *a, **k)
        if self.dead:
            raise Crash()
        return File(self, self.open(path, mode, *a, **k))

    def __enter__(self):
        self.saved = (builtins.open, io.open, urllib.request.urlretrieve, os.environ.get("HOME"))
        builtins.open = io.open = self.opener
        urllib.request.urlretrieve = self.urlretrieve
        return self

    def __exit__(self, *a):
        builtins.open, io.open, urllib.request.urlretrieve = self.saved[:3]


class File:
    def __init__(self, world, f):
        self.__dict__.update(w=world, f=f)

    def write(self, data):
        w = self.w
        if w.dead:
            return len(data)
        i = w.calls
        w.calls += 1
        if w.crash and w.crash[0] == i:
            _, where, mode = w.crash
            b = memoryview(data).cast("B") if not isinstance(data, str) else data
            part = {"before": 0, "half": len(b) // 2, "after": len(b)}[where]
            self.f.write(b[:part])
            w.crash = None
            if mode == "kill":
                self.f.flush()
                w.dead = True
            raise Crash()
        return self.f.write(data)

    def truncate(self, *a):
        return None if self.w.dead else self.f.truncate(*a)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, name):
        return getattr(self.f, name)

    def __iter__(self):
        return iter(self.f)


def request(w, r):
    tag, n, rt, dur, conv = r
    return download_sample_speech_data(
        sisec2010_root=os.path.join(w.root, "S"), mird_root=os.path.join(w.root, "M"), n_sources=n, sisec2010_tag=tag, max_duration=dur, reverb_duration=rt, conv=conv
    )


SMALL = [0, 1, 2, 3, 4, 5, 7]
CRASHED = {"quick": [0, 1, 2, 4, 6, 9], "thorough": [0, 1, 2, 3, 4, 6, 8, 9]}
AFTER = {"quick": [(None,), (1,), (2,), (3,)], "thorough": [(None,), (1,), (2,), (3,), (1, 3), (4, 1)]}


def cases(tier):
    q = tier == "quick"
    out = [dict(kind="history", seq=(i,)) for i in range(len(REQ))]
    out += [dict(kind="history", seq=s) for s in itertools.product(range(len(REQ)), repeat=2)]
    for s in itertools.product(SMALL, repeat=3):
        out.append(dict(kind="history", seq=s))
    if not q:
        out += [dict(kind="history", seq=s) for s in itertools.product(SMALL, range(len(REQ)), range(len(REQ))) if not set(s) <= set(SMALL)]
        out += [dict(kind="history", seq=s) for s in itertools.product(SMALL[:5], repeat=4)]
    for i in CRASHED[tier]:
        for mode in ("kill", "soft"):
            for where in ("before", "half", "after"):
                for after in AFTER[tier]:
                    out.append(dict(kind="crash", first=i, mode=mode, where=where, after=after, twice=False))
                if not q:
                    out.append(dict(kind="crash", first=i, mode=mode, where=where, after=(1,), twice=True))
    out += [dict(kind="reject", i=i) for i in range(len(INVALID))]
    out += [dict(kind="path")]
    out += [dict(kind="defaults", seq=s) for s in itertools.product((None, 1, 2, 4), repeat=1 if q else 2)]
    out += [dict(kind="long", seq=s) for s in itertools.permutations((None, 9.9, 10, 10.005), 2 if q else 3)]
    return out


def case_name(c):
    return "/".join("-".join(map(str, c[k])) if isinstance(c[k], tuple) else str(c[k]) for k in ("kind", "seq", "first", "mode", "where", "after", "twice", "i") if k in c)


def judge(ctx, w, i, key, may_raise=False):
    r = REQ[i]
    want = expected(r)
    ctx.step()
    try:
        got, rate = request(w, r)
    except Exception as e:
        ctx.outcome("raises " + type(e).__name__)
        if want is not None and not may_raise:
            ctx.fail(key + ":raised", "request %s raised %r" % (r, e))
        return False
    ctx.outcome("serves")
    if want is None:
        ctx.fail(key + ":invented", "request %s cannot be served but returned %s" % (r, got.shape))
        return True
    ctx.check(rate == FS, key + ":rate", "rate %s" % rate)
    n, T = r[1], want.shape[-1]
    if not ctx.check(got.shape == (n, n, T), key + ":shape", "shape %s want %s" % (got.shape, (n, n, T))):
        return True
    if r[4]:
        ctx.close(got, want, key + ":data", rtol=1e-9, atol=1e-12, msg=lambda: "request %s: other data than asked for" % (r,))
    else:  # each image is its own source times a full-rank mixing that does not depend on the data
        gain = np.einsum("mst,st->ms", got, want) / np.einsum("st,st->s", want, want)
        ctx.close(got, gain[:, :, None] * want[None], key + ":data", rtol=1e-9, atol=1e-12, msg=lambda: "request %s: images are not the requested sources" % (r,))
        ctx.check(np.linalg.matrix_rank(gain) == n, key + ":mixing", "singular mixing")
        if n not in _GAIN:
            _GAIN[n] = gain
        ctx.close(gain, _GAIN[n], key + ":gain", rtol=1e-9, msg="the mixing changed between requests")
    return True


_GAIN = {}


def needed(r):
    names = ["dev1.zip"]
    if r[4]:
        names.append([k for k in served() if "%.3fs" % r[2] in k][0])
    return set(names)


def files(root):
    out = []
    for d, _, fs in os.walk(root):
        for f in fs:
            p = os.path.join(d, f)
            out.append((os.path.relpath(p, root), os.path.getsize(p)))
    return sorted(out)


def scratch():
    return os.path.realpath(tempfile.mkdtemp(prefix="c27-"))


def run(case, ctx):
    for i in range(len(REQ)):
        expected(REQ[i])
    served()
    globals()["run_" + case["kind"]](case, ctx)
    ctx.trace()


def run_history(case, ctx):
    root = scratch()
    try:
        with World(root) as w:
            allowed = set()
            for j, i in enumerate(case["seq"]):
                key = "-".join(map(str, case["seq"][: j + 1]))
                allowed |= needed(REQ[i]) if expected(REQ[i]) is not None else set(served())
                before = files(root)
                n = len(w.downloads)
                judge(ctx, w, i, key)
                ctx.check(len(set(w.downloads)) == len(w.downloads), key + ":again", lambda: "downloaded again: %s" % w.downloads)
                ctx.check(set(w.downloads) <= allowed, key + ":needless", lambda: "downloaded without need: %s" % w.downloads)
                if i in case["seq"][:j] and expected(REQ[i]) is not None:
                    ctx.check(files(root) == before and len(w.downloads) == n, key + ":idempotent", "a repeated request changed the cache")
                ctx.state(files(root))
    finally:
        shutil.rmtree(root)


def attempt(root, i, crash):
    """-> (number of write calls, crashed)"""
    with World(root) as w:
        w.crash = crash
        try:
            request(w, REQ[i])
            return w.calls, False
        except Crash:
            return w.calls, True
        except Exception:
            return w.calls, True


def run_crash(case, ctx):
    i = case["first"]
    k = 0
    while True:
        root = scratch()
        try:
            calls, crashed = attempt(root, i, (k, case["where"], case["mode"]))
            ctx.step()
            if not crashed:
                ctx.check(k > 3, "few", "only %d write calls seen: the crash injection does not reach the cache" % k)
                ctx.measure("crash_points", k)
                return
            ctx.state(files(root))
            if case["twice"]:
                attempt(root, i, (1, case["where"], case["mode"]))
                ctx.step()
            with World(root) as w:
                for j, a in enumerate((i if a is None else a) for a in case["after"]):
                    judge(ctx, w, a, "write%d:%d:%d" % (k, j, a), may_raise=True)
                judge(ctx, w, i, "write%d:again" % k, may_raise=True)
            ctx.trace()
        finally:
            shutil.rmtree(root)
        k += 1


INVALID = [
    dict(sisec2010_tag="dev2_female3"),
    dict(sisec2010_tag=""),
    dict(reverb_duration=0.2),
    dict(reverb_duration=0.160001),
    dict(n_sources=5, sisec2010_tag="dev1_female4"),
    dict(n_sources=9),
    dict(n_sources=4),
    dict(n_sources=4, conv=False),
    dict(n_sources=5, sisec2010_tag="dev1_female4", conv=False),
]


def run_reject(case, ctx):
    """Requests that cannot be served raise, on an empty and on a filled cache."""
    for fill in ((), (0, 1), (6, 0, 11)):
        root = scratch()
        try:
            with World(root) as w:
                for j in fill:
                    request(w, REQ[j])
                kw = dict(sisec2010_root=os.path.join(root, "S"), mird_root=os.path.join(root, "M"))
                ctx.step()
                try:
                    got, _ = download_sample_speech_data(**kw, **INVALID[case["i"]])
                except Exception as e:
                    ctx.outcome("raises " + type(e).__name__)
                else:
                    ctx.fail("served%s" % (fill,), "%s was served with shape %s" % (INVALID[case["i"]], got.shape))
                ctx.state(case["i"], fill)
        finally:
            shutil.rmtree(root)


ARGS = dict(n_sources=3, sisec2010_tag="dev1_female3", max_duration=10, reverb_duration=0.16, conv=True)  # the documented defaults


def run_defaults(case, ctx):
    """Every subset of the arguments left out (also the directories, which then are .data/... below the current one), after other requests."""
    here = os.getcwd()
    for k in range(len(ARGS) + 1):
        for given in itertools.combinations(ARGS, k):
            for roots in (True, False):
                root = scratch()
                try:
                    os.chdir(root)
                    with World(root) as w:
                        kw = dict(sisec2010_root="S", mird_root="M") if roots else {}
                        place = ("S", "M") if roots else (os.path.join(".data", "SiSEC2010"), os.path.join(".data", "MIRD"))
                        for i in case["seq"]:
                            if i is not None:
                                tag, n, rt, dur, conv = REQ[i]
                                download_sample_speech_data(n_sources=n, sisec2010_tag=tag, max_duration=dur, reverb_duration=rt, conv=conv, **kw)
                        ctx.step()
                        got, rate = download_sample_speech_data(**kw, **{a: ARGS[a] for a in given})
                        key = "given:%s:%s" % ("-".join(given), roots)
                        want = expected(req())
                        if ctx.check(got.shape == want.shape and rate == FS, key + ":shape", lambda: "shape %s want %s" % (got.shape, want.shape)):
                            ctx.close(got, want, key + ":data", rtol=1e-9, atol=1e-12, msg="other data than the documented defaults ask for")
                        tops = {os.path.join(*f.split(os.sep)[: len(place[0].split(os.sep))]) for f, _ in files(root)}
                        ctx.check(tops == set(place), key + ":place", lambda: "files in %s" % sorted(tops))
                        ctx.state(given, roots)
                finally:
                    os.chdir(here)
                    shutil.rmtree(root)


def run_long(case, ctx):
    """Sources longer than the default duration: every order of default and explicit durations."""
    n = 10 * FS + 123
    b = io.BytesIO()
    src = {k: [((k * 7 + 3) * i) % 20011 - 10005 for i in range(n)] for k in (1, 2, 3)}
    with zipfile.ZipFile(b, "w") as z:
        for k in src:
            z.writestr(zipfile.ZipInfo("dev1_female3_src_%d.wav" % k), R.encode([[v] for v in src[k]], FS, 16, 1))
    saved = dict(served())
    root = scratch()
    try:
        served()["dev1.zip"] = b.getvalue()
        with World(root) as w:
            for j, dur in enumerate(case["seq"]):
                kw = {} if dur is None else dict(max_duration=dur)
                ctx.step()
                got, _ = download_sample_speech_data(sisec2010_root=os.path.join(root, "S"), mird_root=os.path.join(root, "M"), conv=False, **kw)
                T = min(n, int(FS * (10 if dur is None else dur)))
                if ctx.check(got.shape == (3, 3, T), "len%d" % j, lambda: "shape %s want %s samples" % (got.shape, T)):
                    for k in src:
                        x = np.array(src[k][:T]) / 32768.0
                        g = got[:, k - 1, 1] / x[1]
                        ctx.close(got[:, k - 1], g[:, None] * x, "data%d" % j, rtol=1e-9, atol=1e-12, msg="not the requested source")
                ctx.state(dur, j)
    finally:
        _SERVED.clear()
        _SERVED.update(saved)
        shutil.rmtree(root)


def run_path(case, ctx):
    """The two download functions themselves: the file they return holds exactly the requested sources, in order, for every order of requests."""
    from ssspy.utils.dataset.mird import download as mird
    from ssspy.utils.dataset.sisec2010 import download as sisec
    from scipy.signal import resample_poly

    S = [(t, n) for t in TAGS for n in range(1, TAGS[t] + 1)]
    M = [(rt, n) for rt in DURATIONS for n in range(1, 5)]

    def check_s(w, t, n, key):
        z = np.load(sisec(root=os.path.join(w.root, "S"), n_sources=n, tag=t))
        ctx.step()
        for k in range(1, n + 1):
            ctx.close(z["src_%d" % k], np.array(source(t, k)) / 32768.0, key, rtol=1e-12, msg=lambda: "%s source %d" % (t, k))
        ctx.check(int(z["sample_rate"]) == FS and int(z["n_sources"]) == n and "src_%d" % (n + 1) not in z, key + ":meta", "metadata")

    def check_m(w, rt, n, key):
        z = np.load(mird(root=os.path.join(w.root, "M"), n_sources=n, reverb_duration=rt))
        ctx.step()
        for k in range(1, n + 1):
            h = resample_poly(rir48(rt, DEGREES[k - 1]), FS, 48000, axis=0).T[MICS[:n], : int(FS * rt)]
            ctx.close(z["src_%d" % k], h, key, rtol=1e-9, atol=1e-14, msg=lambda: "%s source %d" % (rt, k))
        ctx.check(int(z["sample_rate"]) == FS and int(z["n_sources"]) == n and "src_%d" % (n + 1) not in z, key + ":meta", "metadata")

    here = os.getcwd()
    root = scratch()
    try:  # documented defaults
        os.chdir(root)
        with World(root):
            z = np.load(sisec())
            ctx.close(z["src_3"], np.array(source("dev1_female3", 3)) / 32768.0, "sisec:default", rtol=1e-12, msg="default source")
            ctx.check("src_4" not in z and os.path.isdir(os.path.join(".data", "SiSEC2010")), "sisec:default:n", "default count or directory")
            z = np.load(mird())
            ctx.close(z["src_3"], resample_poly(rir48(0.16, DEGREES[2]), FS, 48000, axis=0).T[MICS[:3], : int(FS * 0.16)], "mird:default", rtol=1e-9, atol=1e-14, msg="default response")
            ctx.check("src_4" not in z and os.path.isdir(os.path.join(".data", "MIRD")), "mird:default:n", "default count or directory")
    finally:
        os.chdir(here)
        shutil.rmtree(root)
    for items, fn, name in ((S, check_s, "sisec"), (M, check_m, "mird")):
        for a, b in itertools.product(items, repeat=2):
            root = scratch()
            try:
                with World(root) as w:
                    fn(w, *a, "%s:%s" % (name, a))
                    fn(w, *b, "%s:%s:%s" % (name, a, b))
                    ctx.state(name, a, b)
                    ctx.trace()
            finally:
                shutil.rmtree(root)
