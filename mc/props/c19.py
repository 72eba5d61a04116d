"""Every sample word over an alphabet of extreme and ordinary values up to the length bound, in every supported dtype, memory layout,
channel count and orientation, is written and judged by an independent byte-level decoder (and the standard library), then read back; every
window (offset, length) - valid or not - of every file of the bound is read and compared with the slice of the whole, also across page boundaries;
all short histories of writes and reads over two paths are executed against a model of the file contents."""

import io
import itertools
import os
import shutil
import tempfile
import wave

import numpy as np

from ssspy import wavread, wavwrite

from ..ref import wav as R

ID = "C19"
TITLE = "WAV files round-trip and partial reads are slices"
BOUNDS = {
    "quick": "all words of <= 3 samples over 7 values per dtype (i1,i2,f2,f4,f8,f16), 1-2 channels, both orientations, 9 memory layouts, 7 rates; all windows of files of 0-6 frames, 1-4 channels, 8/16/32 bits, and around page boundaries; all histories of <= 4 operations over 2 paths",
    "thorough": "words of <= 4 samples over 11 values; windows of files of 0-12 frames; histories of <= 5 operations",
}
ASSUMPTIONS = [
    "floating-point samples within [-1, 1) are written with an error below one quantization step, values outside are clipped to full scale",
    "16- and 8-bit PCM follow the WAV standard (8-bit is offset binary)",
    "24-bit files may be rejected",
]
INTS = {"i1": [-128, -127, -1, 0, 1, 64, 127], "i2": [-32768, -32767, -256, -1, 0, 255, 32767]}
MORE = {"i1": [-64, 2, 100, -100], "i2": [1, -2, 12345, -12346]}
FLOATS = [-1.0, -0.5, -1 / 32768, 0.0, 1 / 32768, 32767 / 32768, 1.0]
MOREF = [0.3, -0.7, 1.5, -2.0]
DTYPES = ["i1", "i2", "f2", "f4", "f8", "f16"]
RATES = [1, 8000, 11025, 16000, 44100, 48000, 192000]
LAYOUTS = ["c", "f", "reversed", "strided", "offset", "readonly", "broadcast", "transposed", "subclass"]
BAD = ["u1", "u2", "u4", "i4", "i8", "u8", "c8", "c16", "?", ">i2"]


def alphabet(dtype, q):
    if dtype in INTS:
        return INTS[dtype] + ([] if q else MORE[dtype])
    return FLOATS + ([] if q else MOREF)


def cases(tier):
    q = tier == "quick"
    out = []
    for dtype in DTYPES:
        for shape in ("1d", "n1", "n2", "1n", "2n"):
            for n in range(0, 4 if q else 5):
                n_val = n * (2 if "2" in shape else 1)
                if n_val > (3 if q else 4):
                    n = n_val = 2 if n == 2 else 0
                    if n == 0:
                        continue
                    n_val = 4
                if n_val == 4:  # four samples: split over the first value
                    out += [dict(kind="words", dtype=dtype, shape=shape, n=n, q=q, first=i) for i in range(len(alphabet(dtype, q)))]
                else:
                    out.append(dict(kind="words", dtype=dtype, shape=shape, n=n, q=q, first=-1))
        for layout in LAYOUTS:
            for shape in ("1d", "n1", "n2", "2n", "1n"):
                out.append(dict(kind="layout", dtype=dtype, shape=shape, layout=layout))
    for rate in RATES:
        out.append(dict(kind="rate", rate=rate))
    for bits in (8, 16, 32):
        for ch in (1, 2, 3, 4):
            for n in range(0, 7 if q else 13):
                out.append(dict(kind="windows", bits=bits, ch=ch, n=n))
            out.append(dict(kind="pages", bits=bits, ch=ch))
    for first in ("w0", "w1", "w2", "r", "ro", "m", "u"):
        for second in ("w0", "w1", "w2", "r", "ro", "m", "u"):
            out.append(dict(kind="history", first=first, second=second, depth=4 if q else 5))
    out += [dict(kind="reject")]
    return out


def case_name(c):
    return "/".join(str(c[k]) for k in ("kind", "dtype", "shape", "n", "first", "second", "layout", "rate", "bits", "ch") if k in c)


def orient(v, shape, n):
    if shape == "1d":
        return v.reshape(n), None
    if shape in ("n1", "n2"):
        return v.reshape(n, int(shape[1])), False
    return v.reshape(n, int(shape[0])).T, True  # channels first


def expect(dtype, v):
    """Admissible integers for one written value."""
    if dtype in INTS:
        return [int(v)]
    s = float(v) * 32768
    lo, hi = int(np.floor(s)), int(np.ceil(s))
    if lo == hi:
        ok = [lo]
    else:
        ok = [lo, hi]
    return [min(max(k, -32768), 32767) for k in ok]


def read_bytes(path):
    with open(path, "rb") as f:
        return f.read()


def check_written(ctx, path, x, frames, dtype, rate, key):
    """frames: list of lists of the values handed in."""
    raw = read_bytes(path)
    try:
        d = R.decode(raw)
    except R.Bad as e:
        return ctx.fail(key + ":file", "not a valid file: %s" % e)
    bits = 8 if dtype == "i1" else 16
    ctx.check(d["rate"] == rate and d["bits"] == bits and d["channels"] == (len(frames[0]) if frames else d["channels"]), key + ":header", lambda: str({k: d[k] for k in ("rate", "bits", "channels")}))
    ctx.check(d["complete"] and d["present"] == d["announced"] and R.num(raw[4:8]) == len(raw) - 8, key + ":sizes", lambda: "announced %d present %d riff %d file %d" % (d["announced"], d["present"], R.num(raw[4:8]), len(raw)))
    good = len(d["frames"]) == len(frames) and all(w in expect(dtype, v) for a, b in zip(d["frames"], frames) for w, v in zip(a, b))
    ctx.check(good, key + ":samples", lambda: "wrote %s, file holds %s" % (frames[:4], d["frames"][:4]))
    with wave.open(io.BytesIO(raw)) as f:
        ctx.check((f.getframerate(), f.getsampwidth() * 8, f.getnframes()) == (rate, bits, len(frames)), key + ":stdlib", "the standard library disagrees")
    return d


def check_read(ctx, path, d, key, q_full=True):
    scale = 2.0 ** (1 - d["bits"])
    whole = np.array(d["frames"], float).reshape(-1, d["channels"]) * scale
    for two_d in (None, False, True):
        for cf in (None, False, True):
            y, rate = wavread(path, return_2d=two_d, channels_first=cf)
            want = whole
            if d["channels"] == 1 and not two_d:
                want = whole[:, 0]
            elif cf:
                want = whole.T
            ctx.check(rate == d["rate"], key + ":rate", "rate %s" % rate)
            ctx.check(y.shape == want.shape and np.array_equal(y, want), key + ":read(%s,%s)" % (two_d, cf), lambda: "read %s want %s" % (y.tolist()[:4], want.tolist()[:4]))
    return whole


def lay(x, layout):
    if layout == "f":
        return np.asfortranarray(x)
    if layout == "reversed":
        return np.ascontiguousarray(x[::-1])[::-1]
    if layout == "strided":
        z = np.zeros((2 * x.shape[0],) + x.shape[1:], x.dtype)
        z[::2] = x
        return z[::2]
    if layout == "offset":
        z = np.zeros(x.size + 3, x.dtype)
        z[3:] = x.ravel()
        return z[3:].reshape(x.shape)
    if layout == "readonly":
        x = x.copy()
        x.flags.writeable = False
        return x
    if layout == "broadcast":
        return np.broadcast_to(x[:1], x.shape)
    if layout == "transposed":
        return np.ascontiguousarray(x.T).T
    if layout == "subclass":
        return x.view(_Sub)
    return np.ascontiguousarray(x)


class _Sub(np.ndarray):
    pass


def run(case, ctx):
    tmp = tempfile.mkdtemp(prefix="c19-")
    try:
        globals()["run_" + case["kind"]](case, ctx, tmp)
    finally:
        shutil.rmtree(tmp)
    ctx.outcome(case["kind"])


def write_and_read(ctx, path, x, cf, dtype, rate, key):
    before = np.array(x, copy=True)
    wavwrite(path, x, rate, channels_first=cf)
    ctx.step()
    ctx.check(np.array_equal(before, x), key + ":mutated", "the argument was modified")
    frames = (x[:, None] if x.ndim == 1 else (x.T if cf else x)).tolist()
    d = check_written(ctx, path, x, frames, dtype, rate, key)
    if d:
        ctx.state("file", np.array(d["frames"]), d["channels"], d["bits"])
        check_read(ctx, path, d, key)
        y, _ = wavread(path, return_2d=x.ndim == 2, channels_first=cf)
        ctx.check(y.shape == x.shape, key + ":shape", "wrote %s read %s" % (x.shape, y.shape))
        if dtype in INTS and x.size:
            ctx.check(np.array_equal(y * 2.0 ** (d["bits"] - 1), before), key + ":exact", "integers differ")
        elif x.size:
            err = np.abs(y - np.clip(before.astype(float), -1, 32767 / 32768))
            ctx.check(err.max() < 2.0 ** -15, key + ":quantization", "error %g" % err.max())


def run_words(case, ctx, tmp):
    dtype, shape, n = case["dtype"], case["shape"], case["n"]
    m = n * (2 if "2" in shape else 1)
    al = alphabet(dtype, case["q"])
    path = os.path.join(tmp, "a.wav")
    for word in itertools.product(al, repeat=m):
        if case["first"] >= 0 and word[0] != al[case["first"]]:
            continue
        x, cf = orient(np.array(word, dtype=dtype), shape, n)
        write_and_read(ctx, path, x, cf, dtype, 16000, "w%s" % (word,))
    ctx.trace()


def run_layout(case, ctx, tmp):
    dtype, shape, layout = case["dtype"], case["shape"], case["layout"]
    n = 6
    rng = np.random.default_rng(len(dtype) + 7 * len(shape))
    v = rng.integers(-100, 100, n * (2 if "2" in shape else 1))
    v = v.astype(dtype) if dtype in INTS else (v / 128).astype(dtype)
    x, cf = orient(v, shape, n)
    for flag in {cf, None} if cf is False else {cf}:
        x2 = lay(x, layout)
        write_and_read(ctx, os.path.join(tmp, "b.wav"), x2, flag, dtype, 8000, layout)
    ctx.trace()


def run_rate(case, ctx, tmp):
    for dtype in DTYPES:
        for shape in ("1d", "n2"):
            x, cf = orient(np.array([0, 1, -1, 0]).astype(dtype), shape, 4 if shape == "1d" else 2)
            write_and_read(ctx, os.path.join(tmp, "b.wav"), x, cf, dtype, case["rate"], dtype + shape)


def window(ctx, path, whole, off, num, ch, key):
    n = len(whole)
    end = n if num is None else off + num
    valid = 0 <= off <= n and (num is None or num >= 0) and end <= n
    for two_d, cf in ((None, None), (True, False), (True, True), (False, True)):
        ctx.step()
        try:
            y, _ = wavread(path, frame_offset=off, num_frames=num, return_2d=two_d, channels_first=cf)
        except Exception as e:
            if valid:
                ctx.fail(key + ":raised", "valid window raised %r" % e)
            continue
        if not valid:
            ctx.fail(key + ":accepted", "window outside the file was accepted and returned %s samples" % y.size)
            continue
        want = whole[off:end]
        want = want[:, 0] if ch == 1 and not two_d else (want.T if cf else want)
        ctx.check(y.shape == want.shape and np.array_equal(y, want), key + ":slice(%s,%s)" % (two_d, cf), lambda: "window %s+%s: %s want %s" % (off, num, y.tolist()[:3], want.tolist()[:3]))


def make(bits, ch, n):
    frames = [[((7 * i + 3 * c + 1) * 0x1234567 + i * i) % (1 << bits) - (1 << (bits - 1)) for c in range(ch)] for i in range(n)]
    return frames, np.array(frames, float).reshape(-1, ch) * 2.0 ** (1 - bits)


def run_windows(case, ctx, tmp):
    bits, ch, n = case["bits"], case["ch"], case["n"]
    frames, whole = make(bits, ch, n)
    path = os.path.join(tmp, "r.wav")
    for tail in (b"", b"LIST\x04\x00\x00\x00abcd"):
        with open(path, "wb") as f:
            f.write(R.encode(frames, 22050, bits, ch, extra_after=tail))
        ctx.state("file", bits, ch, n, tail)
        for off in list(range(-2, n + 3)) + [n + 1000]:
            for num in [None] + list(range(-2, n + 3)) + [10**6]:
                window(ctx, path, whole, off, num, ch, "o%d:%s%s" % (off, num, ":tail" if tail else ""))
    ctx.trace()


def run_pages(case, ctx, tmp):
    bits, ch = case["bits"], case["ch"]
    block = ch * bits // 8
    n = 3 * 4096 // block
    frames, whole = make(bits, ch, n)
    path = os.path.join(tmp, "p.wav")
    with open(path, "wb") as f:
        f.write(R.encode(frames, 22050, bits, ch))
    for page in (4096, 8192, 12288):
        k = (page - 44) // block
        for off in range(k - 2, k + 4):
            for num in (None, 0, 1, 2, 5, 4096 // block, n - off, n - off + 1):
                if off <= n:
                    window(ctx, path, whole, off, num, ch, "p%d:o%d:%s" % (page, off, num))
    ctx.trace()


def run_history(case, ctx, tmp):
    """All operation sequences: write one of three contents, read all, read a window, mutate a read array, write to the other path."""
    content = {
        "w0": np.array([1, -2, 3, -4, 5], dtype="i2"),
        "w1": np.array([[0.5, -0.25], [0.75, 0.125]]),
        "w2": np.array([7, -7], dtype="i1"),
    }
    scale = {"w0": 32768, "w1": 1, "w2": 128}
    ops = ("w0", "w1", "w2", "r", "ro", "m", "u")
    a, b = os.path.join(tmp, "a.wav"), os.path.join(tmp, "b.wav")
    for rest in itertools.product(ops, repeat=case["depth"] - 2):
        seq = (case["first"], case["second"]) + rest
        model, held = {}, []
        for p in (a, b):
            if os.path.exists(p):
                os.unlink(p)
        target = a
        for i, op in enumerate(seq):
            key = "-".join(seq[: i + 1])
            if op in content:
                wavwrite(target, content[op], 8000)
                model[target] = content[op] / scale[op]
            elif op == "u":
                target = b if target == a else a
            elif target not in model:
                try:
                    wavread(target)
                    ctx.fail(key, "a missing file was read")
                except OSError:
                    pass
            else:
                off = 1 if op == "ro" else 0
                y, _ = wavread(target, frame_offset=off)
                want = model[target][off:]
                ctx.check(np.array_equal(y, want), key, lambda: "read %s want %s" % (y.tolist(), want.tolist()))
                if op == "m":
                    y[...] = 9
                held.append((y, y.copy()))
            ctx.step()
            for y, z in held:
                ctx.check(np.array_equal(y, z), key + ":held", "an array read earlier changed")
        ctx.state("history", seq)
        ctx.trace()
        for p in model:
            y, _ = wavread(p)
            ctx.check(np.array_equal(y, model[p]), "-".join(seq) + ":final", "file content differs from the last write")
    ctx.check(sorted(os.listdir(tmp)) in (["a.wav"], ["a.wav", "b.wav"], ["b.wav"], []), "residue", "unexpected files %s" % os.listdir(tmp))


def run_reject(case, ctx, tmp):
    def rejected(key, fn):
        path = os.path.join(tmp, key.replace("/", "_") + ".wav")
        try:
            fn(path)
        except Exception:
            ctx.step()
            return
        ctx.fail("accepted:" + key, "invalid request was accepted")

    for t in BAD:
        for shape in ((4,), (4, 1), (4, 2)):
            rejected("dtype%s%s" % (t.replace(">", "be").replace("?", "bool"), len(shape)), lambda p: wavwrite(p, np.ones(shape, t), 8000))
    for shape in ((), (2, 2, 2), (1, 1, 1), (4, 3), (4, 0), (5, 4)):
        rejected("shape%s" % (shape,), lambda p: wavwrite(p, np.zeros(shape), 8000))
    for shape in ((3, 4), (0, 4), (3, 3)):
        rejected("cf%s" % (shape,), lambda p: wavwrite(p, np.zeros(shape), 8000, channels_first=True))
    for name in ("a.mp3", "wav", "a.wav.txt"):
        try:
            wavwrite(os.path.join(tmp, name), np.zeros(3), 8000)
            ctx.fail("accepted:name:" + name, "non-wav name accepted")
        except Exception:
            ctx.check(not os.path.exists(os.path.join(tmp, name)), "created:" + name, "file created")
    ctx.state("reject")
    ctx.trace()
