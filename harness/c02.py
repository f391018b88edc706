"""C02: Steim2 compression is lossless or refused."""
import simplemseed
from harness import steimspec as sp

OUTSIDE = ("series longer than the stated lengths; word patterns other than the listed ones in "
           "second and later frames")

LO, HI = -(1 << 29), (1 << 29) - 1


def roundtrip(ctx, n=None, shape=None, free=0, long=None, big=False):
    if long is not None:
        x = sp.long_series(ctx, *long)
        n = len(x)
    elif shape is None:
        x = ctx.array("x", "i4", n)
    else:
        x = sp.family(ctx, 2, shape, free)
        n = len(x)
    r = ctx.call(simplemseed.encodeSteim2, x)
    fits = True
    prev = 0
    for v in x:
        d = sp.s32(v.item() - prev)
        fits = fits & (d >= LO) & (d <= HI)
        prev = v.item()
    if not r.ok:
        ctx.check(isinstance(r.exc, simplemseed.CodecException), "raised " + r.exname)
        ctx.check(not_(fits), "refused although every difference fits")
        ctx.reach("refused")
        return
    b = r.value
    ctx.check(len(b) % 64 == 0, "whole frames")
    y = simplemseed.decodeSteim2(b, n)
    ctx.check(len(y) == n, "count")
    for i in range(n):
        ctx.check(y[i] == x[i], f"sample {i}")
    z = simplemseed.decompress(simplemseed.seedcodec.STEIM2, b, n, False)
    ctx.check(len(z) == n, "count (decompress)")
    for i in range(n):
        ctx.check(z[i] == x[i], f"sample {i} (decompress)")
    ctx.observe("bytes", b)
    ctx.observe("y", y)
    ctx.reach("ok")


def not_(c):
    return not c


def cases(tier):
    out = []
    q = tier == "quick"
    for n in range(1, 8 if q else 10):
        out.append(dict(name=f"any-{n}", fn=roundtrip, params=dict(n=n), weight=2 ** n,
                        budget=200 if q else 2500, must=["ok", "refused"],
                        bound=f"{n} samples, each any int32"))
    shapes = {
        "1x13": ([1] * 13, 3), "1x12-2": ([1] * 12 + [2], 2), "1x12-7": ([1] * 12 + [7], 2),
        "7x13": ([7] * 13, 2), "6x13": ([6] * 13, 2), "5x13": ([5] * 13, 2), "4x13": ([4] * 13, 2),
        "3x13": ([3] * 13, 2), "2x13": ([2] * 13, 2),
        "mixed": ([7, 6, 5, 4, 3, 2, 1] * 2, 2), "1x28": ([1] * 28, 3), "2x28": ([2] * 28, 2),
        "6-1": ([6, 1], 3), "5-1": ([5, 1], 3), "7-1": ([7, 1], 3),
    }
    if not q:
        shapes.update({"rev": ([1, 2, 3, 4, 5, 6, 7] * 4, 3), "7x28": ([7] * 28, 2),
                       "1x43": ([1] * 43, 4), "3x43": ([3] * 43, 3), "6-6": ([6, 6], 5),
                       "5-5": ([5, 5], 5), "7-7": ([7, 7], 5), "1x13-5": ([1] * 13, 5)})
    for k, (s, free) in shapes.items():
        out.append(dict(name=f"words-{k}", fn=roundtrip, params=dict(shape=s, free=free),
                        weight=len(s) * 4, bound=f"{sum(s) + free} samples: {len(s)} words of "
                        f"{s if len(set(s)) > 1 else s[0]} differences (each any of that width), "
                        f"then {free} arbitrary samples"))
    sizes = {"flat": 1400, "small": 1300, "mid": 1000, "steep": 1000}
    for kind, n in sizes.items():
        for at, free in ((n - 40, 2), (n - 3, 3)):
            out.append(dict(name=f"long-{kind}-{at}", fn=roundtrip, params=dict(long=(n, kind, at, free)), weight=90,
                            bound=f"{n} samples alternating between 0 and {sp.BASE[kind]}, {free} of them from "
                            f"number {at} on any int32"))
    return out
