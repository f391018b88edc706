"""M04: truncated or malformed miniSEED3 input is rejected."""
import simplemseed
from simplemseed import (MSeed3Header, MSeed3Record, Miniseed3Exception, unpackMSeed3Record,
                         readMSeed3Records)

OUTSIDE = "longer records than stated; what happens with a damaged length field beyond the cut"
ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))


def build(ctx, name, idn, ehn, n, ranges=((32, 126),)):
    h = MSeed3Header()
    h.flags = ctx.bits(name + ".flags", 8)
    h.year = ctx.bits(name + ".year", 16)
    s = ctx.str(name + ".id", idn, ranges)
    eh = '{"a":"' + ctx.str(name + ".eh", ehn, ((97, 122),)) + '"}' if ehn else None
    if n < 0:
        h.encoding = 0
        h.numSamples = -n
        x = ctx.bytes(name + ".x", -n)
    else:
        x = ctx.array(name + ".x", "i2", n)
    return bytes(MSeed3Record(h, s, x, eh).pack()), s


def single(ctx, idn, ehn, n, lo, hi, crc, ranges=((32, 126),), forge=False):
    b, s = build(ctx, "r", idn, ehn, n, ranges)
    k = ctx.choice("cut", range(lo, min(hi, len(b))))
    cut = b[:k]
    if forge and k >= 40:
        # whatever the CRC field says
        cut = cut[:28] + ctx.bytes("crc", 4) + cut[32:]
    if crc is None:
        r = ctx.call(unpackMSeed3Record, cut)
    else:
        r = ctx.call(unpackMSeed3Record, cut, crc)
    ctx.check(not r.ok, "truncated record returned")
    ctx.check(isinstance(r.exc, Miniseed3Exception), "raised " + r.exname)
    ctx.reach("ok")


def stream(ctx, idn, ehn, n, lo, hi, crc, pattern, before):
    b, s = build(ctx, "r", idn, ehn, n)
    first, fs = build(ctx, "f", 2, 0, 1)
    k = ctx.choice("cut", range(lo, min(hi, len(b))))
    got = []

    def follow():
        f = ctx.file(first * before + b[:k])
        for m in readMSeed3Records(f, check_crc=crc, matchsid=pattern):
            got.append(m)
    r = ctx.call(follow)
    if r.ok:
        ctx.check(len(got) <= before, "truncated record returned")
    else:
        ctx.check(isinstance(r.exc, Miniseed3Exception), "raised " + r.exname)
    if pattern is None:
        ctx.check(len(got) == before, "the complete records come first")
        ctx.check((k == 0) == r.ok, "cut record not reported")
    for m in got:
        ctx.check(m.identifier == fs, "a complete record")
    ctx.reach("ok")


def merged(ctx, k):
    """Merging does not hide a truncated record."""
    b, s = build(ctx, "r", 2, 0, 2)
    got = []

    def follow():
        for m in readMSeed3Records(ctx.file(b[:len(b) - k]), check_crc=False, merge=True):
            got.append(m)
    r = ctx.call(follow)
    ctx.check(not got and not r.ok and isinstance(r.exc, Miniseed3Exception),
              "truncated record merged")
    ctx.reach("ok")


def foreign(ctx, n):
    """Bytes that are no record, in the middle of a stream."""
    first, fs = build(ctx, "f", 2, 0, 1)
    junk = ctx.bytes("junk", n)
    ctx.assume((junk[0] != 0x4D) | (junk[1] != 0x53) | (junk[2] != 3))
    got = []

    def follow():
        for m in readMSeed3Records(ctx.file(first + junk)):
            got.append(m)
    r = ctx.call(follow)
    ctx.check(len(got) == 1, "the record before")
    ctx.check(not r.ok and isinstance(r.exc, Miniseed3Exception), "junk accepted")
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    shapes = [(3, 2, 2), (5, 0, -3), (4, 0, 0)] if q else \
        [(3, 2, 2), (5, 0, -3), (4, 0, 0), (16, 8, 6), (1, 0, 20), (0, 0, 2), (0, 0, 0)]
    for a, e, n in shapes:
        size = 40 + a + (e + 8 if e else 0) + (2 * n if n >= 0 else -n)
        nm = f"{a}-{e}-{n}"
        what = f"record of {size} bytes, all contents, cut at "
        for crc in (None, True, False):
            for lo, hi in ((0, 40), (40, size)):
                if lo >= size:
                    continue
                out.append(dict(name=f"single-{nm}-{crc}-{lo}", fn=single,
                                params=dict(idn=a, ehn=e, n=n, lo=lo, hi=hi, crc=crc),
                                bound=what + f"{lo} to {hi - 1}, check_crc={crc}"))
        out.append(dict(name=f"forged-{nm}", fn=single, params=dict(
            idn=a, ehn=e, n=n, lo=40, hi=size, crc=False, forge=True),
            bound=what + "any byte, any CRC field, no CRC check"))
        for crc in (True, False):
            for pat, before in ((None, 0), (None, 1), ("A", 1), ("^.*$", 1)):
                if pat == "^.*$" and q and crc:
                    continue
                out.append(dict(name=f"stream-{nm}-{crc}-{pat}-{before}", fn=stream, weight=3,
                                params=dict(idn=a, ehn=e, n=n, lo=0 if before else 1, hi=size,
                                            crc=crc, pattern=pat, before=before),
                                bound=what + f"any byte after {before} complete records, "
                                f"check_crc={crc}, pattern {pat}"))
    out.append(dict(name="single-unicode", fn=single, params=dict(
        idn=1, ehn=0, n=1, lo=38, hi=46, crc=None, ranges=ANY), bound="identifier of one "
        "Unicode character, cut at 38 to 45"))
    for k in (1, 3, 5):
        out.append(dict(name=f"merge-{k}", fn=merged, params=dict(k=k), bound="merging reader"))
    for k in (3, 40, 41):
        out.append(dict(name=f"junk-{k}", fn=foreign, params=dict(n=k), bound=f"any {k} bytes "
                        "without a signature after a record"))
    return out
