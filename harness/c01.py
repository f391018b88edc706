"""C01: Steim1 compression is lossless."""
import simplemseed
from harness import steimspec as sp

OUTSIDE = ("series longer than the stated lengths; word patterns other than the listed ones in "
           "second and later frames; differences outside the stated width classes there")


def roundtrip(ctx, n=None, shape=None, free=0, long=None):
    if long is not None:
        x = sp.long_series(ctx, *long)
        n = len(x)
    elif shape is None:
        x = ctx.array("x", "i4", n)
    else:
        x = sp.family(ctx, 1, shape, free)
        n = len(x)
    r = ctx.call(simplemseed.encodeSteim1, x)
    ctx.check(r.ok, "encoding refused: " + r.exname)
    b = r.value
    ctx.check(len(b) % 64 == 0, "whole frames")
    y = simplemseed.decodeSteim1(b, n)
    ctx.check(len(y) == n, "count")
    for i in range(n):
        ctx.check(y[i] == x[i], f"sample {i}")
    z = simplemseed.decompress(simplemseed.seedcodec.STEIM1, b, n, False)
    ctx.check(len(z) == n, "count (decompress)")
    for i in range(n):
        ctx.check(z[i] == x[i], f"sample {i} (decompress)")
    ctx.observe("bytes", b)
    ctx.observe("y", y)
    ctx.reach("ok")


def cases(tier):
    out = []
    q = tier == "quick"
    for n in range(1, 8 if q else 11):
        out.append(dict(name=f"any-{n}", fn=roundtrip, params=dict(n=n), weight=2 ** n,
                        budget=200 if q else 2500,
                        bound=f"{n} samples, each any int32"))
    shapes = {
        "1x13": ([1] * 13, 3), "1x12-2": ([1] * 12 + [2], 3), "1x12-4": ([1] * 12 + [4], 3),
        "1x11": ([1] * 11, 5), "4x13": ([4] * 13, 3), "2x13": ([2] * 13, 3),
        "421": ([4, 2, 1] * 4 + [4], 4), "124": ([1, 2, 4] * 5, 2),
        "1x28": ([1] * 28, 3), "2x30": ([2] * 30, 2), "4x28": ([4] * 28, 2),
    }
    if not q:
        shapes.update({"1x13-5": ([1] * 13, 5), "2x12-5": ([2] * 12, 5), "4x12-5": ([4] * 12, 5),
                       "1x43": ([1] * 43, 4), "4x43": ([4] * 43, 3), "mix60": ([4, 1, 2, 2] * 15, 3),
                       "1x58": ([1] * 58, 2)})
    for k, (s, free) in shapes.items():
        out.append(dict(name=f"words-{k}", fn=roundtrip, params=dict(shape=s, free=free),
                        weight=len(s) * 4, bound=f"{sum(s) + free} samples: {len(s)} words of "
                        f"{s if len(set(s)) > 1 else s[0]} differences (each any of that width), "
                        f"then {free} arbitrary samples"))
    sizes = {"flat": 1400, "small": 1300, "mid": 1000, "steep": 1000}
    for kind, n in sizes.items():
        for at, free in ((n - 40, 2), (n - 3, 3)):
            out.append(dict(name=f"long-{kind}-{at}", fn=roundtrip, params=dict(long=(n, kind, at, free)), weight=90,
                            bound=f"{n} samples alternating between 0 and {sp.BASE[kind]}, {free} of them from "
                            f"number {at} on any int32"))
    return out
