"""D04: the byte order of a miniSEED2 header is found from its start year."""
import struct
from simplemseed.miniseed import (unpackFixedHeaderGuessByteOrder, unpackMiniseedHeader, MiniseedException,
                                  unpackMiniseedRecord)

OUTSIDE = ("start years 1792 to 1800 and 2055 to 2303, whose handling is not specified; fields before the "
           "start time that are not printable ASCII")
CODES = ((33, 126),)


def leap(y):
    return ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0)


def some(ctx, name, sign):
    r = {1: (1, 32767), -1: (-32768, -1), 0: (0, 0)}[sign]
    return ctx.int(name, *r)


def fields(ctx, lo, hi, signs=(1, 1)):
    y = ctx.int("year", lo, hi)
    d = ctx.int("yday", 1, 366)
    ctx.assume((d <= 365) | leap(y))
    return [y, d, ctx.int("hour", 0, 23), ctx.int("minute", 0, 59), ctx.int("second", 0, 59),
            ctx.bits("unused", 8), ctx.int("tenth", 0, 9999), ctx.bits("numSamples", 16),
            some(ctx, "factor", signs[0]), some(ctx, "mult", signs[1]), ctx.bits("act", 8),
            ctx.bits("io", 8), ctx.bits("qual", 8), ctx.bits("blockettes", 8),
            ctx.int("corr", -2 ** 31, 2 ** 31 - 1), ctx.bits("dataOffset", 16), ctx.bits("blkOffset", 16)]


def front(ctx):
    return b"00001" + ctx.str("digit", 1, ((48, 57),)).encode("ascii") + ctx.str(
        "quality", 1, ((65, 90),)).encode("ascii") + b" " + ctx.str("codes", 12, CODES).encode("ascii")


SAME = ["network", "station", "location", "channel", "sequence_number", "dataquality", "numSamples",
        "sampRateFactor", "sampRateMult", "actFlag", "ioFlag", "qualFlag", "numBlockettes", "timeCorr",
        "dataOffset", "blocketteOffset", "btime"]
NAMES = ["numSamples", "sampRateFactor", "sampRateMult", "actFlag", "ioFlag", "qualFlag", "numBlockettes",
         "timeCorr", "dataOffset", "blocketteOffset"]


def layout(e):
    return e + "HHBBBBHHhhBBBBiHH"


def detect(ctx, years, signs):
    v = fields(ctx, *years, signs)
    f = front(ctx)
    big = unpackFixedHeaderGuessByteOrder(f + struct.pack(layout(">"), *v))
    lit = unpackFixedHeaderGuessByteOrder(f + struct.pack(layout("<"), *v))
    ctx.check(big.byteorder == 1 and big.endianChar == ">", "big endian recognised")
    ctx.check(lit.byteorder == 0 and lit.endianChar == "<", "little endian recognised")
    for h in (big, lit):
        for k, w in zip(NAMES, v[7:]):
            ctx.check(getattr(h, k) == w, k)
        t = h.btime
        ctx.check((t.year == v[0]) & (t.yday == v[1]) & (t.hour == v[2]) & (t.minute == v[3])
                  & (t.second == v[4]) & (t.tenthMilli == v[6]), "start time")
    for k in SAME:
        ctx.check(getattr(big, k) == getattr(lit, k), "both orders alike: " + k)
    ctx.check(big.starttime == lit.starttime, "both orders alike: starttime")
    ctx.reach("ok")


def rates(ctx):
    """The rest of the header is the same in both orders too."""
    v = fields(ctx, 1801, 2054)
    v[8] = ctx.choice("f", [1, -1, 100, 0])
    v[9] = ctx.choice("m", [1, -10, 256])
    f = front(ctx)
    big = unpackFixedHeaderGuessByteOrder(f + struct.pack(layout(">"), *v))
    lit = unpackFixedHeaderGuessByteOrder(f + struct.pack(layout("<"), *v))
    ctx.check((big.sampleRate == lit.sampleRate) & (big.sampPeriod == lit.sampPeriod), "rate")
    ctx.check(bytes(big.pack()) != b"" and len(lit.pack()) == 48, "packs")
    ctx.reach("ok")


def reject(ctx, whole):
    """A year with neither 7 nor 8 as its high byte in either order."""
    f = front(ctx)
    y = ctx.bytes("year", 2)
    for i in (0, 1):
        ctx.assume((y[i] != 7) & (y[i] != 8))
    rest = ctx.bytes("rest", 26)
    b = f + y + rest
    if whole:
        r = ctx.call(unpackMiniseedRecord, b + bytes(464))
    else:
        r = ctx.call(unpackFixedHeaderGuessByteOrder, b)
    ctx.check(not r.ok and isinstance(r.exc, MiniseedException), "implausible year: " +
              ("accepted" if r.ok else r.exname))
    ctx.reach("rejected")


def record(ctx, big):
    """Through the record reader."""
    e = ">" if big else "<"
    v = fields(ctx, 1801, 2054)
    v[8], v[9] = 20, 1
    v[7], v[13], v[15], v[16] = 2, 1, 64, 48
    enc, exp = 3, 7
    b = b"000007D STA  00BHZNT" + struct.pack(layout(e), *v)
    b = b + struct.pack(e + "HHBBBB", 1000, 0, enc, 1 if big else 0, exp, 0) + bytes(8)
    x = [ctx.int(f"x{i}", -2 ** 31, 2 ** 31 - 1) for i in range(2)]
    b = b + struct.pack(e + "ii", *x)
    b = b + bytes(128 - len(b))
    r = unpackMiniseedRecord(b)
    for k, w in zip(NAMES, v[7:]):
        ctx.check(getattr(r.header, k) == w, k)
    d = r.decompress()
    ctx.check((d[0] == x[0]) & (d[1] == x[1]) & (len(d) == 2), "samples")
    ctx.check(bytes(r.pack())[20:22] == b[20:22], "year packed in the same order")
    ctx.reach("ok")


def cases(tier):
    out = []
    for i, s in enumerate(((1, 1), (1, -1), (-1, 1), (-1, -1), (0, 0), (0, 1), (-1, 0))):
        for y in ((1801, 1899), (1900, 1999), (2000, 2047), (2048, 2054)):
            out.append(dict(name=f"detect-{y[0]}-{i}", fn=detect, params=dict(years=y, signs=s),
                            bound=f"years {y[0]} to {y[1]}, factor and multiplier of signs {s}, any "
                            "other field values"))
    out.append(dict(name="rates", fn=rates, params={}, bound="years 1801 to 2054, 12 rates"))
    for w in (False, True):
        out.append(dict(name=f"reject-{'record' if w else 'header'}", fn=reject, params=dict(whole=w),
                        must=["rejected"], bound="any bytes from the start year on"))
    for big in (True, False):
        out.append(dict(name=f"record-{'big' if big else 'little'}", fn=record, params=dict(big=big),
                        bound="years 1801 to 2054, any two samples"))
    return out
