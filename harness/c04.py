"""C04: Steim decoders follow the format on any frames."""
import simplemseed
from simplemseed import CodecException
from harness import steimspec as sp

OUTSIDE = ("frames with more than the stated number of arbitrary control codes; several "
           "frames other than the stated ones; sample counts further from the number of differences present than stated")


def frame(ctx, name, codes):
    """64 bytes: data words arbitrary, control codes given or ('?') arbitrary.

    Codes that start with '=': the same, but with fixed data words."""
    if codes[0] == "=":
        codes = codes[1:]
        data = bytes(range(7, 67))
    else:
        data = ctx.bytes(name, 60)
    ctl = 0
    for i, c in enumerate(codes):
        v = ctx.int(f"{name}.code{i}", 0, 3) if c == "?" else int(c)
        ctl = ctl | (v << (30 - 2 * i))
    return bytes([(ctl >> 24) & 255, (ctl >> 16) & 255, (ctl >> 8) & 255, ctl & 255]) + data


def decode(ctx, version, frames, extra=(1, 3), bias=False, below=(1,)):
    b = b""
    for k, codes in enumerate(frames):
        b = b + frame(ctx, f"f{k}", codes)
    odd = False
    for k in range(len(frames)):
        odd = odd | ((b[64 * k] & 0xC0) != 0)
    odd = odd | ((b[0] & 0x3C) != 0)
    split = sp.split1 if version == 1 else sp.split2
    ds = []
    bad = None
    for f in range(len(frames)):
        ctl = sp.word(b, 64 * f)
        for i in range(3 if f == 0 else 1, 16):
            if bad is None:
                try:
                    ds = ds + split((ctl >> (30 - 2 * i)) & 3, sp.word(b, 64 * f + 4 * i))
                except sp.Undefined:
                    bad = len(ds)
    x0 = sp.s32(sp.word(b, 4))
    total = len(ds)
    fn = simplemseed.decodeSteim1 if version == 1 else simplemseed.decodeSteim2
    counts = sorted({0, 1, total} | {total - k for k in below} | {total + k for k in extra})
    bv = ctx.int("bias", -(1 << 31), (1 << 31) - 1) if bias else 0
    for n in counts:
        if n < 0:
            continue
        if bias:
            import numpy as np
            r = ctx.call(fn, b, n, np.int32(bv))
        else:
            r = ctx.call(fn, b, n)
        if not r.ok:
            ctx.check(isinstance(r.exc, CodecException), f"n={n}: raised {r.exname}")
            # a control code of the header words other than 00 may be refused
            ctx.check((n > total) | (bad is not None) | odd, f"n={n} refused")
            ctx.reach("refused")
            continue
        ctx.check(n <= total, f"n={n}: more samples than differences")
        want = sp.undo(x0, ds, n)
        y = r.value
        ctx.check(len(y) == n, f"n={n}: count")
        if bias and n > 0:
            first = (bv + ds[0]) if not (bv == 0) else x0
            shift = first - x0
        else:
            shift = 0
        for i in range(n):
            ctx.check(sp.s32(y[i].item() - want[i] - shift) == 0, f"n={n}: sample {i}")
        ctx.reach("ok")
    ctx.observe("total", total)


def length(ctx, version, n):
    b = ctx.bytes("b", n)
    k = ctx.int("n", 0, 20)
    fn = simplemseed.decodeSteim1 if version == 1 else simplemseed.decodeSteim2
    r = ctx.call(fn, b, k)
    ctx.check(not r.ok and isinstance(r.exc, CodecException), "length not refused: " + r.exname)
    ctx.reach("ok")


def empty(ctx, version):
    k = ctx.int("n", 1, 5)
    fn = simplemseed.decodeSteim1 if version == 1 else simplemseed.decodeSteim2
    r = ctx.call(fn, b"", k)
    ctx.check(not r.ok and isinstance(r.exc, CodecException), "no frames not refused: " + r.exname)
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    h = "000"
    for ver in (1, 2):
        pats = {
            "one": [h + "?" + "0" * 12], "two": [h + "??" + "0" * 11],
            "last": [h + "1" * 11 + "??"], "gap": [h + "0?0?" + "0" * 9],
            "c12": ["0??" + "2" + "0" * 12], "c0": ["?00" + "1" + "0" * 12],
            "f2-first": [h + "3" * 13 if ver == 1 else h + "1" * 13, "0??" + "0" * 13],
            "f2-c0": [h + "1" + "0" * 12, "?1" + "0" * 14],
            "f2-last": [h + "1" + "0" * 12, "0" + "1" * 14 + "?"],
            "all2": [h + "2" * 3 + "0" * 10] if ver == 2 else [h + "2" * 13],
            "all3": [h + "3" * 2 + "0" * 11] if ver == 2 else [h + "3" * 13],
            "all1": [h + "1" * 13],
            "empty": [h + "0" * 13],
            "empty-then": [h + "0" * 13, "0?" + "0" * 14],
            "long": ["=" + h + "1" * 13] + ["=0" + "1" * 15] * 66 + ["0?" + "0" * 14],
            "long-gap": ["=" + h + "1" * 13] + ["=0" + "1" * 14 + "0"] * 20 + ["0" * 15 + "?"],
            "mix": [h + "123" * 4 + "1"] if ver == 1 else [h + "21" + "0" * 10 + "3"],
        }
        if not q:
            pats.update({"three": [h + "???" + "0" * 10], "four": [h + "?" * (5 if ver == 1 else 4)
                                                                  + "0" * (8 if ver == 1 else 9)],
                         "f3": [h + "1" * 13, "0" + "1" * 15, "0??" + "1" * 13],
                         "mid": [h + "11???11" + "1" * 6],
                         "33": [h + "333" + "0" * 10]})
        for k, fr in pats.items():
            must = ["ok"]
            out.append(dict(name=f"steim{ver}-{k}", fn=decode, params=dict(version=ver, frames=fr),
                            weight=10 ** sum(f.count("?") for f in fr), must=must,
                            bound=f"Steim{ver} frames with control codes {fr} (? = any), data "
                            "arbitrary, sample counts 0, 1 and around the number present"))
        out.append(dict(name=f"steim{ver}-bias", fn=decode,
                        params=dict(version=ver, frames=[h + "1" + "?" + "0" * 11], bias=True),
                        weight=30, bound="as above, any starting bias"))
        for n in (1, 32, 63, 65, 127):
            out.append(dict(name=f"steim{ver}-length-{n}", fn=length,
                            params=dict(version=ver, n=n), bound=f"any {n} bytes, 0 to 20 samples"))
        out.append(dict(name=f"steim{ver}-no-frames", fn=empty, params=dict(version=ver),
                        bound="no bytes, 1 to 5 samples"))
    return out
