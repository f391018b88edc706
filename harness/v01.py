"""V01: conversion from miniSEED2 to miniSEED3 keeps time, identity and samples."""
import importlib
import struct
from datetime import datetime, timedelta, timezone
import numpy as np
import simplemseed
from simplemseed import unpackMSeed3Record, readMSeed3Records
from simplemseed.miniseed import (unpackMiniseedRecord, MiniseedHeader, MiniseedRecord, BTime,
                                  MiniseedException)

OUTSIDE = ("start years outside 1801 to 2054; negative microseconds in a blockette 1001 (a known finding of "
           "D05); channel codes of other than three characters; compressed encodings other than Steim; "
           "more samples than stated; "
           "negative factors or multipliers other than the listed ones (D02 decides the rate they mean)")
conv = importlib.import_module("simplemseed.mseed2to3")
UTC = timezone.utc
FMT = {1: "h", 3: "i", 4: "f", 5: "d", 32: "h"}


def leap(y):
    return ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0)


def time(ctx, sec):
    y = ctx.int("year", 1801, 2054)
    d = ctx.int("yday", 1, 366)
    ctx.assume((d < 366) | leap(y))
    return (y, d, ctx.int("hour", 0, 23), ctx.int("minute", 0, 59), ctx.int("second", 0, sec),
            ctx.int("tenth", 0, 9999))


def instant(y, d, H, M, S, tenth):
    return datetime(y, 1, 1, tzinfo=UTC) + timedelta(days=d - 1, hours=H, minutes=M, seconds=S,
                                                     microseconds=tenth * 100)


FIXED = (2024, 60, 1, 2, 3, 4567)


def record(big, t, data, enc, n, rate=(20, 1), micro=None, b100=None, exp=8, codes=("XX", "ABC", "00", "BHZ")):
    e = ">" if big else "<"
    net, sta, loc, chan = codes
    nb = 1 + (micro is not None) + (b100 is not None)
    y, d, H, M, S, tenth = t
    b = b"000001D " + (sta + " " * (5 - len(sta)) + loc + " " * (2 - len(loc)) + chan + net +
                       " " * (2 - len(net))).encode("ascii")
    b = b + struct.pack(e + "HHBBBBHHhhBBBBiHH", y, d, H, M, S, 0, tenth, n, rate[0], rate[1], 0, 0, 0, nb, 0,
                        128, 48)
    at = 48
    extra = []
    if micro is not None:
        extra.append((1001, struct.pack("BBBB", 0, micro, 0, 1)))
    if b100 is not None:
        extra.append((100, struct.pack(e + "f", b100) + bytes(4)))
    b = b + struct.pack(e + "HHBBBB", 1000, 56 if extra else 0, enc, 1 if big else 0, exp, 0)
    at = 56
    for i, (k, body) in enumerate(extra):
        at = at + 4 + len(body)
        b = b + struct.pack(e + "HH", k, at if i + 1 < len(extra) else 0) + body
    b = b + bytes(128 - len(b)) + data
    return b + bytes(2 ** exp - len(b))


def both(ctx, b):
    """The converted record, and what reading its bytes gives."""
    m2 = unpackMiniseedRecord(b)
    m3 = conv.mseed2to3(m2)
    raw = bytes(m3.pack())
    return m2, (("converted", m3), ("packed", unpackMSeed3Record(raw)),
                ("stream", list(readMSeed3Records(ctx.file(raw)))[0]))


def times(ctx, big, how):
    t = time(ctx, 60 if how == "leap" else 59)
    us = ctx.int("micro", 0, 99) if how == "micro" else None
    b = record(big, t, struct.pack((">" if big else "<") + "i", 7), 3, 1, micro=us)
    m2, forms = both(ctx, b)
    want = instant(*t) + timedelta(microseconds=0 if us is None else us)
    for where, m in forms:
        ctx.check(m.starttime == want, where + ": start time")
        ctx.check(m.starttime == m2.starttime(), where + ": start time of the miniSEED2 record")
        ctx.check(m.header.sanityCheck(), where + ": legal fields")
        ctx.check(m.endtime == want, where + ": end time of one sample")
    ctx.reach("ok")


def samples(ctx, big, enc, n, decompressed, whole, exp=8):
    """Every sample value survives."""
    e = ">" if big else "<"
    if enc in FMT:
        if enc in (1, 32):
            x = [ctx.int(f"x{i}", -2 ** 15, 2 ** 15 - 1) for i in range(n)]
        elif enc == 3:
            x = [ctx.int(f"x{i}", -2 ** 31, 2 ** 31 - 1) for i in range(n)]
        else:
            x = [ctx.f32(f"x{i}") if enc == 4 else ctx.f64(f"x{i}") for i in range(n)]
            for v in x:
                ctx.assume(v == v)
        data = struct.pack(e + f"{n}" + FMT[enc], *x)
    else:
        a = ctx.array("x", "i4", n, -10000, 10000)
        data = bytes((simplemseed.encodeSteim1 if enc == 10 else simplemseed.encodeSteim2)(a))
        x = list(a)
    if whole:
        # fills the record
        data = data + data * ((2 ** exp - 128 - len(data)) // len(data))
        x = x * (len(data) // len(data[:struct.calcsize(FMT[enc]) * n]))
        n = len(x)
    b = record(big, FIXED, data, enc, n, exp=exp)
    m2 = unpackMiniseedRecord(b)
    if decompressed:
        m2.decompress()
    m3 = conv.mseed2to3(m2)
    raw = bytes(m3.pack())
    for where, m in (("converted", m3), ("packed", unpackMSeed3Record(raw))):
        ctx.check(m.header.numSamples == n, where + ": sample count")
        # the retired 16 bit encoding may become the plain one
        ctx.check((m.header.encoding == enc) | (enc == 32 and m.header.encoding == 1), where + ": encoding")
        y = m.decompress()
        ctx.check(len(y) == n, where + ": number of samples")
        for i in range(n):
            ctx.check(y[i] == x[i], f"{where}: sample {i}")
    z = m2.decompress()
    for i in range(n):
        ctx.check(z[i] == x[i], f"miniSEED2: sample {i}")
    ctx.reach("ok")


def identity(ctx, sizes):
    codes = [ctx.str(k, n, ((48, 57), (65, 90))) for k, n in zip(("net", "sta", "loc"), sizes)]
    chan = ctx.str("chan", 3, ((65, 90),))
    b = record(True, FIXED, struct.pack(">i", 7), 3, 1, codes=(*codes, chan))
    m2, forms = both(ctx, b)
    want = "FDSN:" + codes[0] + "_" + codes[1] + "_" + codes[2] + "_" + chan[0] + "_" + chan[1] + "_" + chan[2]
    for where, m in forms:
        ctx.check(str(m.identifier) == want, where + ": identifier")
    p = forms[1][1].parseIdentifier()
    ctx.check((p.networkCode == codes[0]) & (p.stationCode == codes[1]) & (p.locationCode == codes[2])
              & (p.bandCode == chan[0]) & (p.sourceCode == chan[1]) & (p.subsourceCode == chan[2]),
              "codes of the parsed identifier")
    ctx.reach("ok")


def rate(ctx, big):
    f, m = ctx.int("factor", 1, 32767), ctx.int("mult", 1, 32767)
    b = record(big, FIXED, struct.pack((">" if big else "<") + "i", 7), 3, 1, rate=(f, m))
    h = conv.mseed2to3(unpackMiniseedRecord(b)).header
    ctx.check(h.sampleRatePeriod == f * m, "sample rate")
    ctx.check(h.numSamples == 1, "samples")
    ctx.reach("ok")


RATES = [(20, 1, 20.0), (1, 1, 1.0), (-10, 1, 0.1), (1, -10, 0.1), (-5, -12, 1 / 60), (-2, 5, 2.5), (100, -3, 100 / 3),
         (32000, 10, 320000.0), (-32768, -32768, 1 / 2 ** 30), (-3, 1, 1 / 3), (7, -8, 0.875), (32767, -32768, 32767 / 32768)]


def listed(ctx, big):
    """The listed rates, and those of blockettes 100."""
    f, m, want = ctx.choice("rate", RATES)
    b100 = ctx.choice("b100", [None, 31.25, 0.1, 20.0, 0.003])
    n = ctx.int("n", 1, 60000)
    b = record(big, FIXED, b"", 0, n, rate=(f, m), b100=b100)
    m2, forms = both(ctx, b)
    if b100 is not None:
        want = struct.unpack("f", struct.pack("f", b100))[0]
    for where, g in forms:
        ctx.check(abs(g.header.sampleRate / want - 1) < 1e-9, where + ": sample rate")
        ctx.check(abs(g.header.samplePeriod * want - 1) < 1e-9, where + ": sample period")
        ctx.check(g.header.numSamples == n, where + ": sample count")
    ctx.check(abs(m2.header.sampleRate / want - 1) < 1e-9, "miniSEED2 rate")
    ctx.reach("ok")


def norate(ctx, big):
    """A log record has no rate."""
    text = ctx.str("text", 9, ((32, 126),))
    b = record(big, FIXED, text.encode("ascii"), 0, 9, rate=(0, 0))
    m2, forms = both(ctx, b)
    for where, g in forms:
        ctx.check(g.header.sampleRate == 0, where + ": no rate")
        ctx.check((g.header.numSamples == 9) & (g.header.encoding == 0), where + ": characters")
        ctx.check(bytes(g.encodedDataBytes())[:9] == text.encode("ascii"), where + ": text")
    ctx.reach("ok")


def built(ctx, enc):
    """A record made here rather than read."""
    x = ctx.array("x", {1: "i2", 3: "i4"}[enc], 3)
    t = BTime(*FIXED)
    h = MiniseedHeader("XX", "ABC", "", "BHZ", t, 0, ctx.choice("rate", [40, 0.25]))
    r = MiniseedRecord(h, x)
    c = ctx.call(conv.mseed2to3, r)
    if not c.ok:
        # needs a blockette 1000, which packing adds
        ctx.check(isinstance(c.exc, MiniseedException), "refused: " + c.exname)
        r.pack()
        c = ctx.call(conv.mseed2to3, r)
    ctx.check(c.ok, "not converted: " + c.exname)
    for m in (c.value, unpackMSeed3Record(bytes(c.value.pack()))):
        ctx.check(m.starttime == instant(*FIXED), "start time")
        ctx.check(abs(m.header.sampleRate - h.sampleRate) < 1e-12, "rate")
        y = m.decompress()
        for i in range(3):
            ctx.check(y[i] == x[i], f"sample {i}")
    ctx.reach("ok")


def blocks(ctx, enc):
    """A record made here with all blockettes, and what reading its bytes gives."""
    x = ctx.array("x", {1: "i2", 3: "i4"}[enc], 2)
    us = ctx.int("micro", 0, 999999)
    t = datetime(2024, 2, 29, 1, 2, 3, tzinfo=UTC) + timedelta(microseconds=us)
    rate = ctx.choice("rate", [(40, None), (20, 31.25), (1, 0.125), (0.5, 20.0), (0.5, None)])
    h = MiniseedHeader("XX", "ABC", "", "BHZ", t, 0, rate[0])
    r = MiniseedRecord(h, x)
    b100 = r.createB100()
    ctx.check(b100.sampleRate == rate[0], "rate of a new blockette 100")
    if rate[1] is not None:
        b100 = b100._replace(sampleRate=rate[1])
    r.blockettes = [r.createB1000(), b100, r.createB1001()]
    if ctx.choice("last", [False, True]):
        r.blockettes = r.blockettes[::-1]
    raw = bytes(r.pack())
    for how, m2 in (("made", r), ("read", unpackMiniseedRecord(raw))):
        m3 = conv.mseed2to3(m2)
        for where, m in ((how, m3), (how + ", packed", unpackMSeed3Record(bytes(m3.pack())))):
            ctx.check(m.starttime == t, where + ": start time")
            ctx.check(abs(m.header.sampleRate - (rate[1] or rate[0])) < 1e-12, where + ": rate")
            ctx.check(m.header.numSamples == 2, where + ": sample count")
            y = m.decompress()
            for i in range(2):
                ctx.check(y[i] == x[i], f"{where}: sample {i}")
    ctx.reach("ok")


def command(ctx, orders):
    """The command converts every record of a file, in order."""
    x = [ctx.int(f"x{i}", -2 ** 31, 2 ** 31 - 1) for i in range(len(orders))]
    data = b""
    for i, big in enumerate(orders):
        data = data + record(big, (2001 + i,) + FIXED[1:], struct.pack((">" if big else "<") + "i", x[i]), 3, 1,
                             micro=ctx.int(f"micro{i}", 0, 99) if i == 1 else None, exp=8 + i % 2)
    fs = ctx.fs({"in.ms2": data})
    ctx.argv(["-2", "in.ms2", "-3", "out.ms3"] + (["-v"] if len(orders) == 1 else []))
    r = ctx.call(conv.main)
    ctx.check(r.ok and r.value == 0, "command: " + r.exname)
    ctx.check(fs.read("in.ms2") == data, "input unchanged")
    out = list(readMSeed3Records(ctx.file(fs.read("out.ms3"))))
    ctx.check(len(out) == len(orders), "number of records")
    m2s = list(simplemseed.readMiniseed2Records(ctx.file(data)))
    for i, m in enumerate(out):
        ctx.check(m.header.year == 2001 + i, f"record {i} in order")
        ctx.check(m.starttime == m2s[i].starttime(), f"record {i}: start time")
        y = m.decompress()
        ctx.check((len(y) == 1) & (y[0] == x[i]), f"record {i}: sample")
        ctx.check(m.identifier == "FDSN:XX_ABC_00_B_H_Z", f"record {i}: identifier")
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    for big in (True, False):
        e = "big" if big else "little"
        for how in ("plain", "micro", "leap"):
            out.append(dict(name=f"time-{e}-{how}", fn=times, params=dict(big=big, how=how), weight=4,
                            bound="every time of years 1801 to 2054" +
                            {"micro": " and 0 to 99 microseconds", "leap": " with leap seconds"}.get(how, "")))
        for enc in (1, 3, 4, 5, 10, 11, 32):
            if enc in (10, 11) and not big:
                continue
            for dec in (False, True) if enc != 32 else (False,):
                n = 2 if q else 4
                out.append(dict(name=f"samples-{e}-{enc}-{'d' if dec else 'e'}", fn=samples, weight=2,
                                params=dict(big=big, enc=enc, n=n, decompressed=dec, whole=False),
                                bound=f"encoding {enc}, any {n} samples"))
            if enc in FMT and enc != 32:
                out.append(dict(name=f"samples-{e}-{enc}-whole", fn=samples, weight=3,
                                params=dict(big=big, enc=enc, n=2, decompressed=False, whole=True),
                                bound=f"encoding {enc}, a full record repeating any two samples"))
        for enc, exp in ((3, 12), (1, 13)):
            out.append(dict(name=f"samples-{e}-{enc}-large", fn=samples, weight=9,
                            params=dict(big=big, enc=enc, n=2, decompressed=False, whole=True, exp=exp),
                            bound=f"encoding {enc}, a full record of {2 ** exp} bytes repeating any two samples"))
        out.append(dict(name=f"rate-{e}", fn=rate, params=dict(big=big), weight=3,
                        bound="every positive factor and multiplier"))
        out.append(dict(name=f"listed-{e}", fn=listed, params=dict(big=big), weight=2, bound="the listed rates"))
        out.append(dict(name=f"norate-{e}", fn=norate, params=dict(big=big), bound="any text of nine characters"))
    for s in ((2, 5, 2), (2, 3, 0), (1, 4, 1), (2, 1, 2)):
        out.append(dict(name=f"identity-{s[0]}{s[1]}{s[2]}", fn=identity, params=dict(sizes=s), weight=2,
                        bound=f"codes of {s} letters and digits, any three letter channel"))
    for enc in (1, 3):
        out.append(dict(name=f"built-{enc}", fn=built, params=dict(enc=enc), bound="any three samples"))
        out.append(dict(name=f"blocks-{enc}", fn=blocks, params=dict(enc=enc),
                        bound="blockettes 1000, 100 and 1001 made here, any microsecond"))
    for o in ([True], [True, False, True], [False, False]):
        out.append(dict(name=f"command-{len(o)}", fn=command, params=dict(orders=o), weight=2,
                        bound=f"{len(o)} records"))
    return out
