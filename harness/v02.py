"""V02: conversion from miniSEED2 to miniSEED3 carries flags and quality over."""
import importlib
import json
import struct
from simplemseed import unpackMSeed3Record
from simplemseed.miniseed import unpackMiniseedRecord, MiniseedHeader, MiniseedRecord, BTime, MiniseedException

OUTSIDE = ("extra headers of other blockettes, which conversion does not keep (a leap second is"
           " forgotten by the reader when there is a blockette 1001); quality indicators other than listed ones")
conv = importlib.import_module("simplemseed.mseed2to3")
FIXED = (2024, 60, 1, 2, 3, 4567)


def record(big, flags, quality="D", t=FIXED, blockettes=(), data=b"\0\0\0\7", enc=3, n=1):
    e = ">" if big else "<"
    b = b"000001" + quality.encode("ascii") + b" ABC  00BHZXX"
    y, d, H, M, S, tenth = t
    b = b + struct.pack(e + "HHBBBBHHhhBBBBiHH", y, d, H, M, S, 0, tenth, n, 20, 1, *flags,
                        1 + len(blockettes), 0, 128, 48)
    at = 56
    b = b + struct.pack(e + "HHBBBB", 1000, 56 if blockettes else 0, enc, 1 if big else 0, 8, 0)
    for i, (num, body) in enumerate(blockettes):
        at = at + 4 + len(body)
        b = b + struct.pack(e + "HH", num, at if i + 1 < len(blockettes) else 0) + body
    b = b + bytes(128 - len(b)) + data
    return b + bytes(256 - len(b))


def forms(b):
    m3 = conv.mseed2to3(unpackMiniseedRecord(b))
    return (("converted", m3), ("packed", unpackMSeed3Record(bytes(m3.pack()))))


def flags(ctx, big):
    act, io, qual = (ctx.bits(k, 8) for k in ("activity", "io", "quality"))
    b = record(big, (act, io, qual))
    for where, m in forms(b):
        f = m.header.flags
        ctx.check((f & 1) == (act & 1), where + ": calibration signals")
        ctx.check(((f >> 1) & 1) == ((qual >> 7) & 1), where + ": time tag questionable")
        ctx.check(((f >> 2) & 1) == ((io >> 5) & 1), where + ": clock locked")
        ctx.check((f >> 3) == 0, where + ": no other flag")
        ctx.check(m.header.publicationVersion == 0, where + ": publication version unknown")
        ctx.check(m.header.extraHeadersLength == 0, where + ": no extra headers")
    ctx.reach("ok")


def bag(m):
    return m.eh if isinstance(m.eh, dict) else json.loads(m.eh) if m.eh else {}


def quality(ctx, big, tq, leap):
    """Quality indicator, time quality and leap second in the extra headers."""
    q = ctx.choice("indicator", ["D", "R", "Q", "M"])
    bl = []
    if tq == "sym":
        t = ctx.int("timeQuality", 0, 255)
    else:
        t = tq
    if t is not None:
        bl.append((1001, struct.pack("BBBB", t, ctx.int("micro", 0, 99), 0, ctx.int("frames", 0, 255))))
    t2 = FIXED[:4] + (60,) + FIXED[5:] if leap else FIXED
    act, io, qual = (ctx.bits(k, 8) for k in ("activity", "io", "quality"))
    b = record(big, (act, io, qual), q, t2, bl)
    for where, m in forms(b):
        e = bag(m)
        f = e.get("FDSN", {})
        ctx.check(f.get("DataQuality", "D") == q, where + ": quality indicator")
        time = f.get("Time", {})
        if t is None:
            ctx.check("Quality" not in time, where + ": no time quality")
        else:
            ctx.check(time.get("Quality", 0) == t, where + ": time quality")
        if not leap:
            ctx.check("LeapSecond" not in time, where + ": no leap second")
        elif t is None:
            ctx.check(time.get("LeapSecond") == 1, where + ": leap second")
        ctx.check(len([k for k in e if k != "FDSN"]) == 0, where + ": nothing else")
        ctx.check(len([k for k in f if k not in ("DataQuality", "Time")]) == 0, where + ": nothing else for the FDSN")
        ctx.check(len([k for k in time if k not in ("Quality", "LeapSecond")]) == 0, where + ": nothing else for time")
        ctx.check(m.header.publicationVersion == 0, where + ": publication version unknown")
        ctx.check(((m.header.flags >> 1) & 1) == ((qual >> 7) & 1), where + ": time tag questionable")
        ctx.check(m.header.flags < 8, where + ": no other flag")
    ctx.reach("ok")


def two(ctx, big):
    """Records one after another do not share anything."""
    t = [ctx.int("tq0", 1, 100), 0]
    bs = [record(big, (0, 0, 0), "Q" if i == 0 else "D", blockettes=[(1001, struct.pack("BBBB", t[i], 0, 0, 1))])
          for i in range(2)]
    m = [forms(b)[1][1] for b in bs]
    e = bag(m[0])["FDSN"]
    ctx.check((e["DataQuality"] == "Q") & (e["Time"]["Quality"] == t[0]), "first")
    ctx.check(bag(m[1]) == {}, "second")
    ctx.reach("ok")


def built(ctx):
    """Of a record made here."""
    act, io, qual = (ctx.bits(k, 8) for k in ("activity", "io", "quality"))
    h = MiniseedHeader("XX", "ABC", "", "BHZ", BTime(*FIXED), 2, 20, encoding=3, dataquality="M", actFlag=act,
                       ioFlag=io, qualFlag=qual)
    r = MiniseedRecord(h, ctx.array("x", "i4", 2))
    r.pack()
    for where, m in (("converted", conv.mseed2to3(r)), ("packed", unpackMSeed3Record(bytes(conv.mseed2to3(r).pack())))):
        f = m.header.flags
        ctx.check((f == (act & 1) + ((qual >> 7) & 1) * 2 + ((io >> 5) & 1) * 4), where + ": flags")
        ctx.check(bag(m) == {"FDSN": {"DataQuality": "M"}}, where + ": quality indicator")
    ctx.reach("ok")


def cases(tier):
    out = []
    for big in (True, False):
        e = "big" if big else "little"
        out.append(dict(name=f"flags-{e}", fn=flags, params=dict(big=big), weight=2, bound="every value of the three flag bytes"))
        for tq in (None, 0, "sym"):
            for leap in (False, True):
                out.append(dict(name=f"quality-{e}-{tq}-{leap}", fn=quality, weight=2,
                                params=dict(big=big, tq=tq, leap=leap),
                                bound="quality indicators D, R, Q and M, any time quality and flag bytes"))
        out.append(dict(name=f"two-{e}", fn=two, params=dict(big=big), bound="two records"))
    out.append(dict(name="built", fn=built, params={}, bound="any flag bytes"))
    return out
