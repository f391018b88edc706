"""Reference reading of Steim frames, written from SEED appendix B, plus sample families."""

import numpy as np

MASK = 0xFFFFFFFF


def s32(v):
    """v modulo 2^32 as a signed value."""
    v = v & MASK
    return v - (1 << 32) if v >= (1 << 31) else v


def word(b, o):
    return (b[o] << 24) | (b[o + 1] << 16) | (b[o + 2] << 8) | b[o + 3]


def signed(v, bits):
    return v - (1 << bits) if v >= (1 << (bits - 1)) else v


class Undefined(Exception):
    """A control code the format does not define."""


def split1(nib, w):
    if nib == 0:
        return []
    if nib == 1:
        return fields(w, 4, 8)
    if nib == 2:
        return fields(w, 2, 16)
    return [signed(w, 32)]


def split2(nib, w):
    if nib == 0:
        return []
    if nib == 1:
        return fields(w, 4, 8)
    dnib = w >> 30
    if nib == 2:
        if dnib == 1:
            return fields(w, 1, 30)
        if dnib == 2:
            return fields(w, 2, 15)
        if dnib == 3:
            return fields(w, 3, 10)
        raise Undefined("2,0")
    if dnib == 0:
        return fields(w, 5, 6)
    if dnib == 1:
        return fields(w, 6, 5)
    if dnib == 2:
        return fields(w, 7, 4)
    raise Undefined("3,3")


def fields(w, n, bits):
    return [signed((w >> ((n - 1 - i) * bits)) & ((1 << bits) - 1), bits) for i in range(n)]


def diffs(b, version):
    """(X0, XN, differences of every frame in order) of the frames in b."""
    split = split1 if version == 1 else split2
    out = []
    for f in range(len(b) // 64):
        o = f * 64
        ctl = word(b, o)
        for i in range(3 if f == 0 else 1, 16):
            nib = (ctl >> (30 - 2 * i)) & 3
            out.extend(split(nib, word(b, o + 4 * i)))
    return s32(word(b, 4)), s32(word(b, 8)), out


def undo(x0, ds, n):
    """First n samples: X0, then the running sum of the later differences."""
    out = []
    v = x0
    for i in range(n):
        if i > 0:
            v = s32(v + ds[i])
        out.append(v)
    return out


RANGES1 = {4: (-128, 127), 2: (-32768, 32767), 1: (-(1 << 31), (1 << 31) - 1)}
RANGES2 = {7: (-8, 7), 6: (-16, 15), 5: (-32, 31), 4: (-128, 127), 3: (-512, 511),
           2: (-16384, 16383), 1: (-(1 << 29), (1 << 29) - 1)}


def family(ctx, version, shape, free):
    """Samples whose differences pack as the word shapes in shape, then `free` free samples.

    In each word the first difference needs the word's own width; the others only fit it."""
    rng = RANGES1 if version == 1 else RANGES2
    sizes = sorted(rng, reverse=True)
    n = sum(shape) + free
    x = ctx.array("x", "i4", n)
    i = 0
    for k in shape:
        lo, hi = rng[k]
        w = sizes.index(k)
        for j in range(k):
            d = int_of_np(x[i]) - (int_of_np(x[i - 1]) if i > 0 else 0)
            ctx.assume(d >= lo)
            ctx.assume(d <= hi)
            if j == 0 and w > 0:
                slo, shi = rng[sizes[w - 1]]
                ctx.assume((d < slo) | (d > shi))
            i += 1
    return x


BASE = {"flat": 0, "small": 20, "mid": 20000, "steep": 100000}


def long_series(ctx, n, kind, at, free, lo=-(1 << 31), hi=(1 << 31) - 1):
    """n samples going up and down by a fixed amount, `free` of them from `at` on anything."""
    v = [BASE[kind] * (i % 2) for i in range(n)]
    for i in range(free):
        v[at + i] = ctx.int(f"x{at + i}", lo, hi)
    return np.array(v, dtype=np.dtype("int32"))


def int_of_np(v):
    return v.item()
