"""C03: encoded Steim frames conform to the format."""
import simplemseed
from simplemseed import steim1, steim2
from harness import steimspec as sp

OUTSIDE = ("series longer than the stated lengths; word patterns other than the listed ones in "
           "second and later frames")


def conforms(ctx, version, n=None, shape=None, free=0, frames=0, long=None):
    if long is not None:
        x = sp.long_series(ctx, *long)
        n = len(x)
    elif shape is None:
        x = ctx.array("x", "i4", n)
    else:
        x = sp.family(ctx, version, shape, free)
        n = len(x)
    enc = steim1.encodeSteim1FrameBlock if version == 1 else steim2.encodeSteim2FrameBlock
    r = ctx.call(enc, x, frames)
    if not r.ok:
        ctx.check(version == 2 and isinstance(r.exc, simplemseed.CodecException),
                  "refused with " + r.exname)
        ctx.reach("refused")
        return
    blk = r.value
    b = blk.pack()
    m = blk.numSamples
    ctx.check(len(b) % 64 == 0, "whole frames")
    nf = len(b) // 64
    if frames == 0:
        ctx.check(m == n, "every sample is encoded")
    else:
        ctx.check(nf <= frames, "frame limit")
        ctx.check(m == n if nf < frames else (m <= n), "encoded sample count")
    full = blk.getEncodedData()
    ctx.check(len(full) == 64 * (frames if frames > 0 else nf), "padded length")
    ctx.check(full[: len(b)] == b, "padded data starts with the frames")
    for i in range(len(b), len(full)):
        ctx.check(full[i] == 0, "padding is zero")
    ctx.check((blk.getNumSamples() == m) & (blk.getNumFrames() == (frames or nf))
              & (blk.getSteimVersion() == version), "what the block says of itself")
    fs = blk.getSteimFrames()
    ctx.check(len(fs) == nf, "number of frames")
    for f in range(nf):
        ctx.check(fs[f].pack() == b[64 * f:64 * f + 64], "bytes of a frame")
        ctx.check(not fs[f].isEmpty(), "frame that holds data")
    v = [e.item() for e in x]
    data = 0
    split = sp.split1 if version == 1 else sp.split2
    ended = False
    i = 0
    ctx.check(sp.s32(sp.word(b, 4)) == v[0], "X0")
    ctx.check(sp.s32(sp.word(b, 8)) == v[m - 1], "XN")
    for f in range(nf):
        o = 64 * f
        ctl = sp.word(b, o)
        for k in range(0, 3 if f == 0 else 1):
            ctx.check(((ctl >> (30 - 2 * k)) & 3) == 0, "header words have code 00")
        for k in range(3 if f == 0 else 1, 16):
            nib = (ctl >> (30 - 2 * k)) & 3
            w = sp.word(b, o + 4 * k)
            if nib == 0:
                ended = True
                ctx.check(w == 0, "unused words are zero")
                continue
            ctx.check(not ended, "no data after an unused word")
            ctx.check(i < m, "no data beyond the last sample")
            ds = split(nib, w)
            left = m - i
            if version == 2:
                ctx.check(len(ds) <= left, "no extra differences")
            for d in ds[:left]:
                want = v[i] - (v[i - 1] if i > 0 else 0)
                ctx.check(sp.s32(want - d) == 0, "difference")
                i += 1
            data += 1
    ctx.check(i == m, "all samples present")
    if frames > 0 and m < n:
        ctx.check(data == 13 + 15 * (frames - 1), "a block ends early only when full")
    ctx.observe("bytes", b)
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    for ver in (1, 2):
        for n in range(1, (6 if ver == 1 else 7) if q else 9):
            out.append(dict(name=f"steim{ver}-any-{n}", fn=conforms, params=dict(version=ver, n=n),
                            weight=2 ** n, budget=200 if q else 2500,
                            bound=f"Steim{ver}, {n} samples, each any int32, no frame limit"))
        shapes = {"1x13": ([1] * 13, 2, 0), "1x13-lim1": ([1] * 13, 3, 1),
                  "1x12-lim1": ([1] * 12, 4, 1), "1x12-2-lim1": ([1] * 12 + [2], 2, 1),
                  "1x12-4-lim1": ([1] * 12 + [4], 2, 1), "1x12-lim2": ([1] * 12, 4, 2),
                  "1x28-lim2": ([1] * 28, 2, 2), "4x13": ([4] * 13, 1, 0),
                  "2x13": ([2] * 13, 1, 0), "1x5-lim3": ([1] * 5, 2, 3)}
        if ver == 2:
            shapes.update({"mix": ([7, 6, 5, 4, 3, 2, 1] * 2, 2, 0),
                           "1x12-7-lim1": ([1] * 12 + [7], 2, 1),
                           "1x12-6-lim1": ([1] * 12 + [6], 2, 1),
                           "1x12-3-lim1": ([1] * 12 + [3], 2, 1),
                           "6x13": ([6] * 13, 1, 0)})
        else:
            shapes.update({"mix": ([4, 2, 1] * 5, 2, 0)})
        if not q:
            shapes.update({"1x43": ([1] * 43, 3, 0), "1x43-lim3": ([1] * 43, 3, 3),
                           "2x28": ([2] * 28, 2, 0), "4x28-lim2": ([4] * 28, 3, 2),
                           "1x11-lim1": ([1] * 11, 6, 1)})
        for k, (s, free, lim) in shapes.items():
            out.append(dict(name=f"steim{ver}-{k}", fn=conforms,
                            params=dict(version=ver, shape=s, free=free, frames=lim),
                            weight=4 * len(s),
                            bound=f"Steim{ver}, {sum(s) + free} samples: {len(s)} words with "
                            f"{s if len(set(s)) > 1 else s[0]} differences each, then {free} "
                            f"arbitrary samples, frame limit {lim or 'none'}"))
        for kind, n, lim in (("flat", 900, 0), ("small", 900, 0), ("mid", 500, 7), ("steep", 900, 0), ("steep", 900, 63),
                             ("steep", 300, 8)):
            for at in (n // 2, n - 2) if lim == 0 else (n // 3,):
                out.append(dict(name=f"steim{ver}-long-{kind}-{at}-lim{lim}", fn=conforms,
                                params=dict(version=ver, long=(n, kind, at, 2), frames=lim), weight=90,
                                bound=f"Steim{ver}, {n} samples alternating between 0 and {sp.BASE[kind]}, 2 of them "
                                f"from number {at} on any int32, frame limit {lim or 'none'}"))
    return out
