"""C06: values a Steim encoding cannot hold are refused, never altered."""
import numpy as np
import simplemseed
from simplemseed import CodecException
from harness import steimspec as sp

OUTSIDE = "more samples than stated; lists of other things than integers; integers beyond 63 bits"
IMIN, IMAX = -(1 << 31), (1 << 31) - 1
LO, HI = -(1 << 29), (1 << 29) - 1


def vals_of(x):
    return [v if isinstance(v, int) else v.item() for v in x]


def container(ctx, version, x, v):
    n = len(v)
    enc = simplemseed.encodeSteim1 if version == 1 else simplemseed.encodeSteim2
    dec = simplemseed.decodeSteim1 if version == 1 else simplemseed.decodeSteim2
    r = ctx.call(enc, x)
    inside = True
    fits = True
    p = 0
    for e in v:
        inside = inside & (e >= IMIN) & (e <= IMAX)
        d = sp.s32(e - p)
        fits = fits & (d >= LO) & (d <= HI)
        p = e
    if not r.ok:
        ctx.check(isinstance(r.exc, CodecException), "raised " + r.exname)
        ok = inside & fits if version == 2 else inside
        ctx.check(not ok, "refused although every value can be held")
        ctx.reach("refused")
        return
    ctx.check(inside, "a value outside 32 bits was accepted")
    y = dec(r.value, n)
    ctx.check(len(y) == n, "count")
    for i in range(n):
        ctx.check(y[i].item() == v[i], f"sample {i} altered")
    ctx.observe("y", y)
    ctx.reach("ok")


def arr(ctx, version, dtype, n):
    x = ctx.array("x", dtype, n)
    container(ctx, version, x, [e.item() for e in x])


def lst(ctx, version, n, bits):
    v = [ctx.int(f"x{i}", -(1 << bits), (1 << bits) - 1) for i in range(n)]
    container(ctx, version, list(v), v)


def floats(ctx, version, dtype):
    x = ctx.array("x", dtype, 2)
    enc = simplemseed.encodeSteim1 if version == 1 else simplemseed.encodeSteim2
    r = ctx.call(enc, x)
    ctx.check(not r.ok and isinstance(r.exc, CodecException),
              "floating point samples: " + (r.exname or "accepted"))
    r = ctx.call(enc, [ctx.f64("f"), ctx.f64("g")])
    ctx.check(not r.ok and isinstance(r.exc, CodecException),
              "list of floats: " + (r.exname or "accepted"))
    ctx.reach("ok")


def shape(ctx, version):
    enc = simplemseed.encodeSteim1 if version == 1 else simplemseed.encodeSteim2
    r = ctx.call(enc, np.ones((2, 2), dtype=np.int32))
    ctx.check(not r.ok and isinstance(r.exc, CodecException),
              "two dimensional: " + (r.exname or "accepted"))
    ctx.reach("ok")


def record(ctx, n):
    """64-bit arrays given to a miniSEED3 record."""
    x = ctx.array("x", "i8", n)
    v = [e.item() for e in x]
    inside = True
    for e in v:
        inside = inside & (e >= IMIN) & (e <= IMAX)
    h = simplemseed.MSeed3Header()
    r = ctx.call(simplemseed.MSeed3Record, h, simplemseed.FDSNSourceId.parse("FDSN:XX_S__B_H_Z"), x)
    if not r.ok:
        ctx.check(isinstance(r.exc, simplemseed.Miniseed3Exception), "raised " + r.exname)
        ctx.check(not inside, "refused although every value fits")
        ctx.reach("refused")
        return
    ctx.check(inside, "a value outside 32 bits was accepted")
    y = r.value.decompress()
    ctx.check(len(y) == n, "count")
    for i in range(n):
        ctx.check(y[i].item() == v[i], f"sample {i} altered")
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    for ver in (1, 2):
        for dt in ("i8", "u4", "u8", "i2", "u2", "i1", "u1", ">i4", ">i2", ">i8"):
            wide = dt.lstrip(">") in ("i8", "u4", "u8")
            must = ["ok"]
            if wide or ver == 2 and dt == ">i4":
                must.append("refused")
            for n in ((1, 3) if q else (1, 2, 3, 5)):
                out.append(dict(name=f"steim{ver}-{dt}-{n}", fn=arr, must=must,
                                params=dict(version=ver, dtype=dt, n=n), weight=n,
                                bound=f"Steim{ver}, {n} samples of dtype {dt}, any value"))
        for n in ((1, 3) if q else (1, 2, 3, 4)):
            for bits in (20, 33, 62):
                out.append(dict(name=f"steim{ver}-list-{n}-{bits}", fn=lst,
                                params=dict(version=ver, n=n, bits=bits), weight=n,
                                bound=f"Steim{ver}, list of {n} integers of {bits} bits and sign"))
        for dt in ("f4", "f8"):
            out.append(dict(name=f"steim{ver}-{dt}", fn=floats, params=dict(version=ver, dtype=dt),
                            bound="two floating samples, any bit pattern"))
        out.append(dict(name=f"steim{ver}-2d", fn=shape, params=dict(version=ver),
                        bound="one 2 by 2 array"))
    for n in (1, 3):
        out.append(dict(name=f"record-{n}", fn=record, params=dict(n=n), must=["ok", "refused"],
                        bound=f"miniSEED3 record of {n} 64-bit integers"))
    return out
