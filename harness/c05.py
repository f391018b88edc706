"""C05: size-limited Steim encoding splits a series without loss."""
import numpy as np
import simplemseed
from simplemseed import steim1, steim2, CodecException
from harness import steimspec as sp

OUTSIDE = ("series longer than the stated lengths; word patterns other than the listed ones; more "
           "than twelve blocks; frame limits other than the stated ones")
LO, HI = -(1 << 29), (1 << 29) - 1


def split(ctx, version, n=None, shape=None, free=0, limit=1, bias=False, maxblocks=4, long=None):
    if long is not None:
        x = sp.long_series(ctx, *long)
        n = len(x)
    elif shape is None:
        x = ctx.array("x", "i4", n)
    else:
        x = sp.family(ctx, version, shape, free)
        n = len(x)
    prev = ctx.int("bias", -(1 << 31), (1 << 31) - 1) if bias else 0
    dec = simplemseed.decodeSteim1 if version == 1 else simplemseed.decodeSteim2
    at = 0
    blocks = 0
    while at < n:
        ctx.check(blocks < maxblocks, "no end to the blocks")
        if version == 1:
            r = ctx.call(steim1.encodeSteim1FrameBlock, x, limit, np.int32(prev), at)
        else:
            r = ctx.call(steim2.encodeSteim2FrameBlock, x[at:], limit, np.int32(prev))
        if not r.ok:
            ctx.check(version == 2 and isinstance(r.exc, CodecException), "raised " + r.exname)
            fits = True
            p = prev
            for i in range(at, n):
                d = sp.s32(x[i].item() - p)
                fits = fits & (d >= LO) & (d <= HI)
                p = x[i].item()
            ctx.check(not fits, "refused although every difference fits")
            ctx.reach("refused")
            return
        blk = r.value
        m = blk.getNumSamples()
        ctx.check((m >= 1) & (m <= n - at), "sample count of a block")
        b = blk.pack()
        ctx.check(len(b) % 64 == 0, "whole frames")
        ctx.check((limit == 0) | (len(b) <= 64 * limit), "frame limit")
        padded = blk.getEncodedData()
        ctx.check((limit == 0) | (len(padded) == 64 * limit), "padded length")
        x0, xn, ds = sp.diffs(b, version)
        # the last word of the series may be padded
        ctx.check((len(ds) == m) | ((m == n - at) & (len(ds) > m) & (len(ds) <= m + 3)),
                  "the block holds exactly as many samples as it reports")
        ctx.check((x0 == x[at]) & (xn == x[at + m - 1]), "first and last sample of the block")
        ctx.check(ds[0] == sp.s32(x[at].item() - prev), "the first difference is the one to the bias")
        for name, data, bb in (("own start", b, 0), ("bias", b, prev), ("padded", padded, 0)):
            r = ctx.call(dec, data, m, np.int32(bb))
            ctx.check(r.ok, name + ": block cannot be decoded: " + r.exname)
            y = r.value
            ctx.check(len(y) == m, name + ": count")
            for i in range(m):
                ctx.check(y[i] == x[at + i], f"{name}: block {blocks} sample {i}")
        ctx.observe("block", b)
        at += m
        prev = x[at - 1].item()
        blocks += 1
    ctx.check(at == n, "samples are counted once")
    if version == 1:
        b = simplemseed.encodeSteim1(x, limit, np.int32(0), 0)
    else:
        b = simplemseed.encodeSteim2(x, limit, np.int32(0)) if not bias else b""
    ctx.check((limit == 0) | (len(b) <= 64 * limit), "limit of the byte form")
    ctx.reach("ok")


def offset(ctx, n, at):
    """Steim1 encoding that starts at an offset, with any bias."""
    x = ctx.array("x", "i4", n)
    bias = ctx.int("bias", -(1 << 31), (1 << 31) - 1)
    zero = ctx.bool("zero")
    if zero:
        bias = 0
    blk = steim1.encodeSteim1FrameBlock(x, 0, np.int32(bias), at)
    ctx.check(blk.getNumSamples() == n - at, "samples from the offset on")
    b = blk.pack()
    x0, xn, ds = sp.diffs(b, 1)
    ctx.check((len(ds) >= n - at) & (len(ds) <= n - at + 3), "differences from the offset on")
    ctx.check((x0 == x[at]) & (xn == x[n - 1]), "first and last sample of the block")
    p = bias
    for i in range(at, n):
        ctx.check(ds[i - at] == sp.s32(x[i].item() - p), f"difference {i}")
        p = x[i].item()
    ctx.check(b == simplemseed.encodeSteim1(x, 0, np.int32(bias), at), "byte form")
    ctx.reach("ok")


def args(ctx, version):
    """Arguments that make no sense are refused with a codec exception."""
    x = ctx.array("x", "i4", 3)
    limit = ctx.int("limit", -3, 3)
    off = ctx.int("offset", -3, 6)
    if version == 1:
        r = ctx.call(steim1.encodeSteim1FrameBlock, x, limit, np.int32(0), off)
        good = (limit >= 0) & (off >= 0) & (off < 3)
    else:
        r = ctx.call(steim2.encodeSteim2FrameBlock, x, limit, np.int32(0))
        good = limit >= 0
    if r.ok:
        ctx.check(good, "accepted")
        if version == 1:
            ctx.check(r.value.getNumSamples() == 3 - off, "count")
        ctx.reach("ok")
    else:
        ctx.check(isinstance(r.exc, CodecException), "raised " + r.exname)
        ctx.check((version == 2) | (not good), "refused")
        ctx.reach("refused")
    e = ctx.call(steim1.encodeSteim1FrameBlock if version == 1 else steim2.encodeSteim2FrameBlock,
                 x[0:0], 1)
    ctx.check(not e.ok and isinstance(e.exc, CodecException), "no samples: " + e.exname)


def cases(tier):
    q = tier == "quick"
    out = []
    for ver in (1, 2):
        for n in range(1, 4 if q else 6):
            out.append(dict(name=f"steim{ver}-bias-{n}", fn=split,
                            params=dict(version=ver, n=n, bias=True), weight=3 * n,
                            bound=f"Steim{ver}, {n} samples and starting bias any int32, limit 1"))
        shapes = {"1x13": ([1] * 13, 3, 1), "1x12": ([1] * 12, 4, 1),
                  "1x12-2": ([1] * 12 + [2], 3, 1), "1x12-4": ([1] * 12 + [4], 2, 1),
                  "2x13": ([2] * 13, 2, 1), "1x26": ([1] * 26, 2, 1),
                  "1x27": ([1] * 27, 3, 2), "1x28": ([1] * 28, 2, 2)}
        if ver == 2:
            shapes.update({"1x12-7": ([1] * 12 + [7], 2, 1), "1x12-6": ([1] * 12 + [6], 2, 1),
                           "1x12-5": ([1] * 12 + [5], 2, 1), "1x12-3": ([1] * 12 + [3], 2, 1),
                           "mix": ([7, 1, 3, 2, 1, 1, 4, 1, 1, 2, 1, 1, 5], 2, 1)})
        else:
            shapes.update({"4x13": ([4] * 13, 3, 1), "mix": ([4, 2, 1] * 5, 2, 1)})
        if not q:
            if ver == 2:
                shapes.update({"7x13": ([7] * 13, 2, 1),
                               "mix2": ([7, 6, 5, 4, 3, 2, 1] * 2, 2, 1)})
            shapes.update({"1x39": ([1] * 39, 2, 1), "1x11": ([1] * 11, 6, 1),
                           "2x28": ([2] * 28, 3, 2), "4x28": ([4] * 28, 3, 2)})
        for k, (s, free, lim) in shapes.items():
            out.append(dict(name=f"steim{ver}-{k}-lim{lim}", fn=split,
                            params=dict(version=ver, shape=s, free=free, limit=lim),
                            weight=len(s) * 4,
                            bound=f"Steim{ver}, {sum(s) + free} samples: {len(s)} words of "
                            f"{s if len(set(s)) > 1 else s[0]} differences, then {free} arbitrary "
                            f"samples, blocks of at most {lim} frames"))
        for kind, n, lim, at in (("small", 600, 3, 200), ("mid", 400, 5, 133), ("steep", 300, 7, 100),
                                 ("steep", 1000, 63, 941), ("steep", 130, 2, 43)):
            out.append(dict(name=f"steim{ver}-long-{kind}-{n}-lim{lim}", fn=split,
                            params=dict(version=ver, long=(n, kind, at, 2), limit=lim, maxblocks=12), weight=90,
                            bound=f"Steim{ver}, {n} samples alternating between 0 and {sp.BASE[kind]}, 2 of them from "
                            f"number {at} on any int32, blocks of at most {lim} frames"))
        if ver == 1:
            for n, at in ((2, 1), (3, 1), (3, 2)) if q else ((2, 1), (3, 1), (3, 2), (5, 2), (5, 4)):
                out.append(dict(name=f"offset-{n}-{at}", fn=offset, params=dict(n=n, at=at), weight=5,
                                bound=f"Steim1, {n} samples from sample {at} on, samples and bias any int32"))
        out.append(dict(name=f"steim{ver}-args", fn=args, params=dict(version=ver), weight=4,
                        bound="limit -3 to 3, offset -3 to 6, 3 samples"))
    return out
