"""M03: miniSEED3 CRC detects corruption."""
import simplemseed
from simplemseed import (MSeed3Header, MSeed3Record, unpackMSeed3Record, readMSeed3Records)

OUTSIDE = ("bursts that touch the signature, the format version or one of the three length "
           "fields (there the CRC covers other bytes, and no CRC can promise detection), and "
           "bursts that touch both the CRC field and its neighbours; records longer than stated")


def ref_crc(b):
    """CRC-32C bit by bit."""
    c = 0xFFFFFFFF
    for x in b:
        c = c ^ x
        for _ in range(8):
            c = (c >> 1) ^ (0x82F63B78 if c & 1 else 0)
    return c ^ 0xFFFFFFFF


def build(ctx, idn, ehn, n, concrete=False):
    h = MSeed3Header()
    if not concrete:
        h.flags = ctx.bits("flags", 8)
        h.nanosecond = ctx.bits("nanosecond", 32)
        h.year = ctx.bits("year", 16)
        h.publicationVersion = ctx.bits("pub", 8)
        h.sampleRatePeriod = ctx.f64("rate")
        x = ctx.array("x", "i4", n)
        s = ctx.str("id", idn, ((32, 126),))
        eh = '{"a":"' + ctx.str("eh", ehn, ((97, 122),)) + '"}' if ehn > 0 else '{}' if ehn < 0 else None
    else:
        import numpy as np
        x = np.arange(n, dtype=np.int32)
        s = "A" * idn
        eh = None
    rec = MSeed3Record(h, s, x, eh)
    return rec.pack(), s, x


def carried(ctx, n):
    """The checksum of a packed record is the CRC-32C over the record."""
    b, s, x = build(ctx, 1, 0, 0, concrete=True)
    b = bytearray(b)
    h = MSeed3Header()
    h.flags = ctx.bits("flags", 8) if n > 0 else 0
    h.second = ctx.bits("second", 8) if n > 1 else 0
    rec = MSeed3Record(h, ctx.str("id", 1, ((32, 126),)) if n > 2 else "A", None)
    b = rec.pack()
    z = bytes(b[:28]) + bytes(4) + bytes(b[32:])
    crc = b[28] | (b[29] << 8) | (b[30] << 16) | (b[31] << 24)
    ctx.check(crc == ref_crc(z), "CRC-32C of the record with the CRC field zeroed")
    ctx.check(rec.header.crc == crc, "CRC in the header")
    ctx.check(rec.header.crcAsHex() == f"0x{crc:08X}", "CRC as text")
    ctx.reach("ok")


def accepted(ctx, idn, ehn, n):
    b, s, x = build(ctx, idn, ehn, n)
    r = ctx.call(unpackMSeed3Record, b)
    ctx.check(r.ok, "own record rejected: " + r.exname)
    r = ctx.call(lambda: list(readMSeed3Records(ctx.file(b))))
    ctx.check(r.ok, "own record rejected by the stream reader: " + r.exname)
    ctx.check(len(r.value) == 1 and r.value[0].identifier == s, "the record")
    r = ctx.call(lambda: list(readMSeed3Records(ctx.file(b + b))))
    ctx.check(r.ok and len(r.value) == 2, "two records")
    ctx.reach("ok")


def burst(ctx, idn, ehn, n, first, last):
    """Any burst of at most 32 bits (five bytes) starting in bytes first to last."""
    b, s, x = build(ctx, idn, ehn, n)
    b = bytes(b)
    size = len(b)
    region = (3, 27) if first < 28 else ((28, 31) if first < 32 else
                                         ((32, 32) if first == 32 else (40, size - 1)))
    p = ctx.choice("byte", range(first, min(last, region[1]) + 1))
    k = min(5, region[1] - p + 1)
    err = ctx.bytes("err", k)
    bit = ctx.int("bit", 0, 7)
    whole = 0
    for i in range(k):
        whole = whole | (err[i] << (8 * i))
    ctx.assume(whole != 0)
    # bits of each byte enter the checksum least significant first
    ctx.assume((whole & ((1 << bit) - 1)) == 0)
    ctx.assume((whole >> bit) < (1 << 32))
    bad = b[:p] + bytes([b[p + i] ^ err[i] for i in range(k)]) + b[p + k:]
    r = ctx.call(unpackMSeed3Record, bad)
    ctx.check(not r.ok, "corrupted record accepted")
    r = ctx.call(lambda: list(readMSeed3Records(ctx.file(bad))))
    ctx.check(not r.ok, "corrupted record accepted by the stream reader")
    got = []

    def follow():
        for m in readMSeed3Records(ctx.file(b + bad + b)):
            got.append(m)
    r = ctx.call(follow)
    ctx.check(len(got) <= 1 and not r.ok, "corrupted second record accepted")
    ctx.reach("ok")


def unchecked(ctx):
    """With checking off the same bytes are read."""
    b, s, x = build(ctx, 3, 0, 2)
    bad = b[:28] + ctx.bytes("crc", 4) + b[32:]
    r = ctx.call(unpackMSeed3Record, bad, False)
    ctx.check(r.ok, "rejected although checking is off")
    y = r.value.decompress()
    ctx.check(len(y) == 2 and y[0] == x[0] and y[1] == x[1], "samples")
    r = ctx.call(lambda: list(readMSeed3Records(ctx.file(bad), check_crc=False)))
    ctx.check(r.ok and len(r.value) == 1, "stream reader rejected although checking is off")
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    for n in (0, 1, 2, 3):
        out.append(dict(name=f"carried-{n}", fn=carried, params=dict(n=n), weight=5 * n,
                        bound=f"record of 41 bytes with {n} arbitrary bytes"))
    shapes = [(3, 0, 2), (16, 3, 4), (2, -1, 1), (0, 0, 1)] if q else [(2, -1, 1), (0, 0, 1), (3, 0, 2), (16, 3, 4), (20, 8, 12), (1, 0, 40)]
    for a, e, n in shapes:
        size = 40 + a + (e + 8 if e > 0 else -2 * e) + 4 * n
        out.append(dict(name=f"accepted-{a}-{e}-{n}", fn=accepted, params=dict(idn=a, ehn=e, n=n),
                        bound="all header fields, identifier, extra headers and samples"))
        starts = [(3, 8), (9, 14), (15, 20), (21, 27), (28, 31), (32, 32)]
        starts += [(i, min(i + 5, size - 1)) for i in range(40, size, 6)]
        for f, l in starts:
            out.append(dict(name=f"burst-{a}-{e}-{n}-{f}", fn=burst, weight=3,
                            params=dict(idn=a, ehn=e, n=n, first=f, last=l),
                            bound=f"record of {size} bytes with all contents, every burst of up "
                            f"to 32 bits starting in bytes {f} to {l}"))
    out.append(dict(name="unchecked", fn=unchecked, bound="any CRC field"))
    return out
