"""D01: miniSEED2 fixed header layout and round trip."""
import struct
from datetime import datetime, timedelta, timezone
from simplemseed import MiniseedHeader
from simplemseed.miniseed import BTime, unpackMiniseedHeader, MiniseedException

OUTSIDE = ("codes that are not printable ASCII or longer than their field; start years outside 1801 to "
           "2054; field values that do not fit their field")
ALNUM = ((33, 126),)
# name, offset, size, signed; from the SEED manual
FIELDS = [("numSamples", 30, 2, 0), ("sampRateFactor", 32, 2, 1), ("sampRateMult", 34, 2, 1),
          ("actFlag", 36, 1, 0), ("ioFlag", 37, 1, 0), ("qualFlag", 38, 1, 0),
          ("numBlockettes", 39, 1, 0), ("timeCorr", 40, 4, 1), ("dataOffset", 44, 2, 0),
          ("blocketteOffset", 46, 2, 0)]
TIMES = [("year", 20, 2), ("yday", 22, 2), ("hour", 24, 1), ("minute", 25, 1), ("second", 26, 1),
         ("tenthMilli", 28, 2)]
CODES = [("station", 8, 5), ("location", 13, 2), ("channel", 15, 3), ("network", 18, 2)]


def at(b, o, n, big, signed=0):
    v = 0
    for i in range(n):
        v = v | (b[o + i] << (8 * (n - 1 - i if big else i)))
    if signed:
        v = (v ^ (1 << (8 * n - 1))) - (1 << (8 * n - 1))
    return v


def leap(y):
    return ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0)


def btime(ctx):
    y = ctx.int("year", 1801, 2054)
    d = ctx.int("yday", 1, 366)
    ctx.assume((d <= 365) | leap(y))
    return BTime(y, d, ctx.int("hour", 0, 23), ctx.int("minute", 0, 59), ctx.int("second", 0, 59),
                 ctx.int("tenth", 0, 9999))


def rates(ctx, signs):
    f, m = signs
    r = {1: (1, 32767), -1: (-32768, -1), 0: (0, 0)}
    return ctx.int("factor", *r[f]), ctx.int("mult", *r[m])


def codes(ctx, sizes):
    return {k: ctx.str(k, n, ALNUM) for (k, _, _), n in zip(CODES, sizes)}


def fields(ctx, signs):
    f, m = rates(ctx, signs)
    return dict(numSamples=ctx.bits("numSamples", 16), sampRateFactor=f, sampRateMult=m,
                actFlag=ctx.bits("act", 8), ioFlag=ctx.bits("io", 8), qualFlag=ctx.bits("qual", 8),
                numBlockettes=ctx.bits("blockettes", 8), timeCorr=ctx.int("corr", -2 ** 31, 2 ** 31 - 1),
                dataOffset=ctx.bits("dataOffset", 16), blocketteOffset=ctx.bits("blkOffset", 16))


def sequence(ctx):
    """Five leading digits and the last one."""
    return ctx.choice("sequence", ["00000", "12345", "99999"]), ctx.int("digit", 0, 9)


def number(seq):
    return int(seq[0]) * 10 + seq[1]


def check_bytes(ctx, b, big, c, seq, q, t, want):
    ctx.check(len(b) == 48, "48 bytes")
    ctx.check(b[0:5] == seq[0].encode("ascii"), "leading digits of the sequence number")
    ctx.check(b[5] == 48 + seq[1], "last digit of the sequence number")
    ctx.check(b[6:8] == q.encode("ascii") + b" ", "quality and reserved byte")
    for k, o, n in CODES:
        s = c[k].encode("ascii")
        ctx.check(b[o:o + n] == s + b" " * (n - len(s)), k)
    for k, o, n in TIMES:
        ctx.check(at(b, o, n, big) == getattr(t, k), k)
    ctx.check(b[27] == 0, "unused byte of the time")
    for k, o, n, s in FIELDS:
        ctx.check(at(b, o, n, big, s) == want[k], k)


def check_header(ctx, h, big, c, seq, q, t, want):
    for k, _, _ in CODES:
        ctx.check(getattr(h, k) == c[k], k + " read")
    ctx.check(h.sequence_number == number(seq), "sequence number read")
    ctx.check(h.dataquality == q, "quality read")
    for k, _, _ in TIMES:
        ctx.check(getattr(h.btime, k) == getattr(t, k), k + " read")
    for k, _, _, _ in FIELDS:
        ctx.check(getattr(h, k) == want[k], k + " read")
    ctx.check(h.byteorder == (1 if big else 0), "byte order read")
    ctx.check(h.endianChar == (">" if big else "<"), "byte order of the header")


def writing(ctx, big, sizes, signs):
    c, t, want = codes(ctx, sizes), btime(ctx), fields(ctx, signs)
    seq = sequence(ctx)
    q = ctx.choice("quality", ["D", "R", "Q", "M"])
    h = MiniseedHeader(c["network"], c["station"], c["location"], c["channel"], t, want["numSamples"], 0,
                       byteorder=1 if big else 0, sequence_number=number(seq), dataquality=q,
                       **{k: v for k, v in want.items() if k != "numSamples"})
    b = bytes(h.pack())
    check_bytes(ctx, b, big, c, seq, q, t, want)
    g = unpackMiniseedHeader(b, ">" if big else "<")
    check_header(ctx, g, big, c, seq, q, t, want)
    ctx.check(bytes(g.pack()) == b, "packing what was read")
    ctx.check(g.starttime == h.starttime, "start time")
    ctx.reach("ok")


def reading(ctx, big, sizes, signs, extra):
    c, t, want = codes(ctx, sizes), btime(ctx), fields(ctx, signs)
    q = ctx.choice("quality", ["D", "R", "Q", "M"])
    seq = sequence(ctx)
    e = ">" if big else "<"
    b = (seq[0] + chr(48 + seq[1])).encode("ascii") + q.encode("ascii") + b" "
    for k, _, n in CODES:
        b = b + (c[k] + " " * (n - len(c[k]))).encode("ascii")
    b = b + struct.pack(e + "HHBBBBH", t.year, t.yday, t.hour, t.minute, t.second, 0, t.tenthMilli)
    b = b + struct.pack(e + "HhhBBBBiHH", *[want[k] for k, _, _, _ in FIELDS])
    b = b + b"x" * extra
    h = unpackMiniseedHeader(b, e)
    check_header(ctx, h, big, c, seq, q, t, want)
    ctx.check(bytes(h.pack()) == b[:48], "packing what was read")
    ctx.check(h.codes() == c["network"] + "." + c["station"] + "." + c["location"] + "." + c["channel"],
              "codes")
    ctx.reach("ok")


def chosen(ctx, big, iso):
    """A header of a given rate: the factor and multiplier are filled in when packing."""
    rate = ctx.choice("rate", [1, 20, 100.0, 200, 0.1, 50, 31.25])
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", "2024-02-29T12:34:56.123400Z" if iso else
                       datetime(2024, 2, 29, 12, 34, 56, 123400), ctx.int("n", 0, 65535), rate,
                       byteorder=1 if big else 0, actFlag=ctx.bits("act", 8))
    b = bytes(h.pack())
    g = unpackMiniseedHeader(b, ">" if big else "<")
    f, m = at(b, 32, 2, big, 1), at(b, 34, 2, big, 1)
    ctx.check(f != 0 and m != 0, "factor and multiplier")
    ctx.check(abs(g.sampleRate / rate - 1) < 1 / 16000, "sample rate")
    ctx.check(g.starttime == datetime(2024, 2, 29, 12, 34, 56, 123400, tzinfo=timezone.utc), "start")
    ctx.check((g.numSamples == h.numSamples) & (g.actFlag == h.actFlag), "fields")
    ctx.check(g.dataquality == "D", "quality")
    ctx.reach("ok")


def short(ctx, n):
    b = ctx.bytes("b", n)
    r = ctx.call(unpackMiniseedHeader, b, ctx.choice("endian", ["<", ">"]))
    ctx.check(not r.ok and isinstance(r.exc, MiniseedException), "too short: " + (r.exname or "accepted"))
    ctx.reach("rejected")


SIGNS = [(1, 1), (1, -1), (-1, 1), (-1, -1), (0, 0), (0, 1), (1, 0), (0, -1), (-1, 0)]


def cases(tier):
    q = tier == "quick"
    out = []
    for big in (True, False):
        e = "big" if big else "little"
        for k, s in enumerate(SIGNS):
            sizes = [(5, 2, 3, 2), (3, 0, 3, 2), (1, 1, 1, 1), (4, 2, 3, 0), (0, 0, 0, 0)][k % 5]
            out.append(dict(name=f"write-{e}-{s[0]}{s[1]}", fn=writing, weight=4,
                            params=dict(big=big, sizes=sizes, signs=s),
                            bound=f"all field values, factor and multiplier of signs {s}, codes of "
                            f"{sizes} printable characters"))
            out.append(dict(name=f"read-{e}-{s[0]}{s[1]}", fn=reading, weight=4,
                            params=dict(big=big, sizes=sizes, signs=s, extra=k),
                            bound=f"all field values, factor and multiplier of signs {s}, codes of "
                            f"{sizes} printable characters"))
        for iso in (True, False):
            out.append(dict(name=f"rate-{e}-{'iso' if iso else 'datetime'}", fn=chosen,
                            params=dict(big=big, iso=iso), bound="the listed rates"))
    for n in (0, 1, 20, 47):
        out.append(dict(name=f"short-{n}", fn=short, params=dict(n=n), must=["rejected"],
                        bound=f"any {n} bytes"))
    return out
