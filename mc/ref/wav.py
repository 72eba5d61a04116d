"""An independent encoder/decoder of canonical PCM WAV files: plain byte arithmetic, shares nothing with ssspy.io."""


def u(v, n):
    return bytes((v >> (8 * i)) & 255 for i in range(n))


def encode(frames, rate, bits, channels, extra_before=b"", extra_after=b"", fields=None):
    """frames: list of lists of signed integers. fields override header entries."""
    size = bits // 8
    body = b"".join(u(v + 128 if bits == 8 else v % (1 << bits), size) for frame in frames for v in frame)
    h = dict(
        riff=b"RIFF", total=None, wave=b"WAVE", fmt=b"fmt ", fmt_size=16, tag=1, channels=channels, rate=rate,
        byte_rate=rate * channels * size, align=channels * size, bits=bits, data=b"data", data_size=len(body),
    )
    h.update(fields or {})
    if h["total"] is None:
        h["total"] = 36 + len(extra_before) + len(body) + len(extra_after)
    return (
        h["riff"] + u(h["total"], 4) + h["wave"] + h["fmt"] + u(h["fmt_size"], 4) + u(h["tag"], 2) + u(h["channels"], 2)
        + u(h["rate"], 4) + u(h["byte_rate"], 4) + u(h["align"], 2) + u(h["bits"], 2) + extra_before
        + h["data"] + u(h["data_size"], 4) + body + extra_after
    )


def num(b):
    return sum(v << (8 * i) for i, v in enumerate(b))


class Bad(Exception):
    pass


def decode(raw):
    """-> (rate, bits, channels, frames); walks the chunks, raises Bad unless the header is consistent and all
    announced data are present."""
    if raw[:4] != b"RIFF" or raw[8:12] != b"WAVE" or len(raw) < 12:
        raise Bad("not RIFF/WAVE")
    pos, fmt = 12, None
    while True:
        if len(raw) < pos + 8:
            raise Bad("truncated chunk header")
        name, size = raw[pos : pos + 4], num(raw[pos + 4 : pos + 8])
        pos += 8
        if name == b"fmt ":
            if len(raw) < pos + 16 or size < 16:
                raise Bad("truncated format")
            f = raw[pos : pos + 16]
            fmt = dict(tag=num(f[:2]), channels=num(f[2:4]), rate=num(f[4:8]), byte_rate=num(f[8:12]), align=num(f[12:14]), bits=num(f[14:16]))
        elif name == b"data":
            break
        pos += size + size % 2
    if fmt is None or fmt["tag"] != 1 or fmt["channels"] == 0 or fmt["bits"] not in (8, 16, 24, 32, 64):
        raise Bad("format")
    step = fmt["bits"] // 8
    if fmt["align"] != step * fmt["channels"] or fmt["byte_rate"] != fmt["align"] * fmt["rate"]:
        raise Bad("inconsistent format")
    present = len(raw) - pos
    frames = []
    for i in range(min(size, present) // fmt["align"]):
        frame = []
        for c in range(fmt["channels"]):
            at = pos + i * fmt["align"] + c * step
            v = num(raw[at : at + step])
            if step == 1:
                v -= 128
            elif v >= 1 << (8 * step - 1):
                v -= 1 << (8 * step)
            frame.append(v)
        frames.append(frame)
    return dict(fmt, frames=frames, announced=size, present=present, complete=present >= size)
