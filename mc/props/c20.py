"""Every truncation point of every base file of the bound, every value of every header byte (all 256), every pair of header fields over a value alphabet,
every chunk arrangement (extra, reordered, repeated, odd-sized chunks), and every crash point of wavwrite (each byte of the output, by an injected
write error) is read back: wavread must raise, or return exactly the samples, count, channels, scale and rate an independent chunk-walking decoder finds."""

import builtins
import itertools
import os
import shutil
import tempfile

import numpy as np

import ssspy.io
from ssspy import wavread, wavwrite

from ..ref import wav as R

ID = "C20"
TITLE = "Malformed or truncated WAV files never yield wrong samples"
BOUNDS = {
    "quick": "base files: 8/16/32 bits x 1-2 channels x 0-3 frames x with/without trailing chunk; every truncation point x 5 windows; 44 header bytes x 256 values; all field pairs and 4 triples over 5-15 values; 250 chunk arrangements; every crash byte of wavwrite for 6 waveforms, fresh and overwriting",
    "thorough": "up to 5 frames, 4 channels, every truncation point x all windows; header bytes and fields of 12 base files (8 in the quick tier); all pairs of header bytes x 13 x 13 values",
}
ASSUMPTIONS = [
    "a header is consistent when byte rate and block align follow from channels, bits and rate; anything else must be rejected",
    "the RIFF size field is advisory (ignored by decoders)",
    "rejecting a readable file with uncommon chunks is allowed (documented as unsupported)",
]
CASE_TIMEOUT = 300
WINDOWS = [(0, None), (1, None), (0, 1), (1, 1), (0, 2)]
FIELDS = {
    "channels": [0, 1, 2, 3, 4, 65535],
    "rate": [0, 1, 8000, 16000, 2**31, 2**32 - 1],
    "byte_rate": [0, 1, 8000, 16000, 32000, 64000, 128000, 2**32 - 1],
    "align": [0, 1, 2, 3, 4, 6, 8, 16, 65535],
    "bits": [0, 1, 4, 7, 8, 12, 15, 16, 24, 31, 32, 64, 128, 65535],
    "data_size": [0, 1, 2, 3, 4, 5, 6, 7, 8, 11, 12, 13, 1000, 2**31, 2**32 - 1],
    "fmt_size": [0, 14, 15, 17, 18, 40, 2**32 - 1],
    "tag": [0, 2, 3, 6, 7, 0xFFFE],
    "total": [0, 1, 36, 37, 2**32 - 1],
}


def bases(q):
    out = []
    for bits in (8, 16, 32):
        for ch in (1, 2) if q else (1, 2, 3, 4):
            for n in range(0, 4 if q else 6):
                for tail in (0, 1):
                    out.append((bits, ch, n, tail))
    return out


def cases(tier):
    q = tier == "quick"
    out = [dict(kind="truncate", base=b, q=q) for b in bases(q)]
    heads = [(16, 1, 3, 0), (16, 2, 2, 1), (8, 1, 3, 1), (8, 2, 2, 0)] + [(32, 1, 3, 0), (32, 2, 2, 1), (16, 3, 2, 0), (16, 1, 0, 0)] + ([] if q else [(16, 4, 2, 1), (8, 4, 3, 0), (16, 2, 1, 0), (8, 1, 1, 0)])
    out += [dict(kind="byte", base=b, at=i) for b in heads for i in range(44)]
    if not q:
        out += [dict(kind="bytes", base=b, at=i) for b in heads[:4] for i in range(44)]
    for b in heads:
        for f, g in itertools.combinations(FIELDS, 2):
            out.append(dict(kind="pair", base=b, fields=(f, g)))
        for fields in (("channels", "align", "bits"), ("align", "byte_rate", "bits"), ("rate", "byte_rate", "align"), ("channels", "byte_rate", "align")):
            out.append(dict(kind="pair", base=b, fields=fields))
    out += [dict(kind="chunks", first=i, q=q) for i in range(len(CHUNKS))]
    for dtype in ("i1", "i2", "f8"):
        for ch in (1, 2):
            for old in ("none", "longer", "shorter"):
                out.append(dict(kind="crash", dtype=dtype, ch=ch, old=old))
    return out


def case_name(c):
    return "/".join(str(c[k]).replace(" ", "") for k in ("kind", "base", "at", "fields", "first", "dtype", "ch", "old") if k in c)


def make(base, **k):
    bits, ch, n, tail = base
    frames = [[((7 * i + 3 * c + 1) * 0x1234567 + i * i) % (1 << bits) - (1 << (bits - 1)) for c in range(ch)] for i in range(n)]
    return R.encode(frames, 8000, bits, ch, extra_after=b"LIST\x04\x00\x00\x00abcd" if tail else b"", fields=k)


def judge(ctx, path, raw, key, windows=WINDOWS, must=False):
    with open(path, "wb") as f:
        f.write(raw)
    try:
        d = R.decode(raw)
    except R.Bad:
        d = None
    except Exception:
        d = None
    ctx.state(raw)
    for off, num in windows:
        for two_d, cf in ((None, None), (True, True)):
            ctx.step()
            try:
                y, rate = wavread(path, frame_offset=off, num_frames=num, return_2d=two_d, channels_first=cf)
            except Exception as e:
                ctx.outcome("raises " + type(e).__name__)
                continue
            k = "%s:%s+%s" % (key, off, num)
            if d is None:
                ctx.fail(k + ":accepted", "a malformed file was accepted: %d samples" % y.size)
                continue
            ctx.outcome("reads")
            end = len(d["frames"]) if num is None else off + num
            if off > len(d["frames"]) or end > len(d["frames"]):
                ctx.fail(k + ":invented", lambda: "only %d frames are present, got %s" % (len(d["frames"]), y.shape))
                continue
            want = np.array(d["frames"][off:end], float).reshape(-1, d["channels"]) * 2.0 ** (1 - d["bits"])
            want = want[:, 0] if d["channels"] == 1 and not two_d else (want.T if cf else want)
            ctx.check(rate == d["rate"], k + ":rate", "rate %s, file says %s" % (rate, d["rate"]))
            ctx.check(y.shape == want.shape and np.array_equal(y, want), k + ":samples", lambda: "read %s, file holds %s" % (y.tolist()[:3], want.tolist()[:3]))


def run(case, ctx):
    tmp = tempfile.mkdtemp(prefix="c20-")
    try:
        globals()["run_" + case["kind"]](case, ctx, os.path.join(tmp, "x.wav"))
    finally:
        shutil.rmtree(tmp)
    ctx.trace()


def run_truncate(case, ctx, path):
    raw = make(case["base"])
    n = case["base"][2]
    w = WINDOWS if case["q"] else [(o, m) for o in range(n + 1) for m in [None] + list(range(n + 2))]
    for k in range(len(raw) + 1):
        judge(ctx, path, raw[:k], "cut%d" % k, w)
        ctx.trace()


def run_byte(case, ctx, path):
    raw = make(case["base"])
    i = case["at"]
    for v in range(256):
        judge(ctx, path, raw[:i] + bytes([v]) + raw[i + 1 :], "byte%d=%d" % (i, v), WINDOWS[:3])
        ctx.trace()


def run_bytes(case, ctx, path):
    raw = make(case["base"])
    i = case["at"]
    al = [0, 1, 2, 3, 4, 6, 8, 16, 32, 64, 127, 128, 255]
    for j in range(i + 1, 44):
        for a, b in itertools.product(al, repeat=2):
            r = bytearray(raw)
            r[i], r[j] = a, b
            judge(ctx, path, bytes(r), "bytes%d=%d,%d=%d" % (i, a, j, b), WINDOWS[:1])
            ctx.trace()


def run_pair(case, ctx, path):
    for values in itertools.product(*[FIELDS[f] for f in case["fields"]]):
        k = dict(zip(case["fields"], values))
        judge(ctx, path, make(case["base"], **k), ",".join("%s=%s" % i for i in k.items()), WINDOWS[:3])
        ctx.trace()


def chunk(name, body, pad=True):
    return name + R.u(len(body), 4) + body + (b"\0" if pad and len(body) % 2 else b"")


FMT = R.u(1, 2) + R.u(1, 2) + R.u(8000, 4) + R.u(16000, 4) + R.u(2, 2) + R.u(16, 2)
CHUNKS = [
    chunk(b"fmt ", FMT),
    chunk(b"fmt ", FMT + R.u(0, 2)),
    chunk(b"data", b"\x01\x02\x03\x84"),
    chunk(b"data", b"\x05\x06\x07"),
    chunk(b"data", b""),
    chunk(b"LIST", b"INFOdata"),
    chunk(b"fact", R.u(2, 4)),
    chunk(b"junk", b"abc"),
    chunk(b"bext", chunk(b"data", b"\x11\x12")),
]


def run_chunks(case, ctx, path):
    for size in (0, 1, 2) if case["q"] else (0, 1, 2, 3):
        for rest in itertools.product(range(len(CHUNKS)), repeat=size):
            body = b"".join(CHUNKS[i] for i in (case["first"],) + rest)
            judge(ctx, path, b"RIFF" + R.u(len(body) + 4, 4) + b"WAVE" + body, "chunks%s" % "-".join(map(str, (case["first"],) + rest)), WINDOWS[:3])


class Faulty:
    """A file object whose storage is full after `left` bytes."""

    def __init__(self, f, left):
        self.f, self.left = f, left

    def write(self, data):
        data = bytes(data)
        if len(data) > self.left:
            self.f.write(data[: self.left])
            self.left = 0
            raise OSError(28, "No space left on device")
        self.left -= len(data)
        return self.f.write(data)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.f.close()

    def __getattr__(self, name):
        return getattr(self.f, name)


def run_crash(case, ctx, path):
    dtype, ch = case["dtype"], case["ch"]
    n = 3
    v = np.arange(1, n * ch + 1) * 17
    x = (v / 128 if dtype == "f8" else v).astype(dtype).reshape(n, ch)
    scale = {"i1": 128.0, "i2": 32768.0, "f8": 1.0}[dtype]
    old = {"none": None, "longer": np.arange(40, dtype="i2"), "shorter": np.array([5], dtype="i2")}[case["old"]]
    real = builtins.open
    completed = 0
    for left in range(0, 80):
        if os.path.exists(path):
            os.unlink(path)
        if old is not None:
            wavwrite(path, old, 8000)
        ssspy.io.open = lambda p, *a, **k: Faulty(real(p, *a, **k), left)
        try:
            wavwrite(path, x, 8000)
            crashed = False
        except OSError:
            crashed = True
        finally:
            del ssspy.io.open
        ctx.state(case["dtype"], ch, left, crashed)
        ctx.step()
        completed += not crashed
        ctx.outcome("crash" if crashed else "complete")
        try:
            y, rate = wavread(path, return_2d=True)
        except Exception:
            if not crashed:
                ctx.fail("crash%d:unreadable" % left, "a completed write cannot be read")
            ctx.trace()
            continue
        want = x / scale
        k = len(y)
        ok = rate == 8000 and np.array_equal(y, want[:k]) and (crashed or k == n)
        if crashed and old is not None and not ok:  # an implementation may keep the previous file until the new one is complete
            ok = np.array_equal(y[:, 0], old / 32768) and y.shape[1] == 1
        ctx.check(ok, "crash%d" % left, lambda: "after an interrupted write: %s" % y.tolist()[:3])
        ctx.trace()
    ctx.check(completed > 0, "never", "the write never completed")
