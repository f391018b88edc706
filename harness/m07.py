"""M07: records merge only when contiguous and alike."""
from datetime import timedelta
import numpy as np
import simplemseed
from simplemseed import MSeed3Header, MSeed3Record
from simplemseed.mseed3 import areCompatible, mseed3merge

OUTSIDE = ("start years other than the listed ones, rates other than the listed ones; within one "
           "microsecond of a limit either answer is accepted (floating point tolerance)")
# (stored value, exact sample period in microseconds)
RATES = [(1.0, 1000000), (100.0, 10000), (-10.0, 10000000), (-0.5, 500000), (20.0, 50000),
         (250.0, 4000), (0.1, 10000000), (-3600.0, 3600000000), (40, 25000), (1000.0, 1000)]
TYPES = {1: "i2", 3: "i4", 4: "f4", 5: "f8"}
US = timedelta(microseconds=1)


def leap(y):
    return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)


def when(ctx, h, name, year, lo=1, hi=None):
    """Symbolic start time in the given year; returns microseconds since the year started."""
    n = 366 if leap(year) else 365
    d = ctx.int(name + ".doy", lo, n if hi is None else hi)
    H, M, S = (ctx.int(name + ".hour", 0, 23), ctx.int(name + ".minute", 0, 59),
               ctx.int(name + ".second", 0, 59))
    us = ctx.int(name + ".us", 0, 999999)
    h.year, h.dayOfYear, h.hour, h.minute, h.second = year, d, H, M, S
    h.nanosecond = us * 1000
    return ((((d - 1) * 24 + H) * 60 + M) * 60 + S) * 1000000 + us


def year_us(year):
    return (366 if leap(year) else 365) * 86400 * 1000000


def rec(h, ident, n, enc=3, data=b""):
    h.encoding = enc
    h.numSamples = n
    return MSeed3Record(h, ident, data)


def times(ctx, year, cross, stored, period, tol, hi):
    """Everything else equal, the answer depends on the times only, and correctly so."""
    a, b = MSeed3Header(), MSeed3Header()
    if cross:
        days = 366 if leap(year) else 365
        ta = when(ctx, a, "a", year, days - 1, days)
        tb = when(ctx, b, "b", year + 1, 1, 3) + year_us(year)
    else:
        ta = when(ctx, a, "a", year)
        tb = when(ctx, b, "b", year)
    n = ctx.int("n", 0, hi)
    a.sampleRatePeriod = b.sampleRatePeriod = stored
    r = ctx.call(areCompatible, rec(a, "X", n), rec(b, "X", 1), *([] if tol is None else [tol]))
    ctx.check(r.ok, "compatibility check fails: " + r.exname)
    t = 0.5 if tol is None else tol
    late = int(period * t)
    gap = tb - ta - n * period          # from where the next sample is expected
    ctx.check((not r.value) | ((gap > -period - 1) & (gap < late + 1)),
              "records that are not contiguous are compatible")
    ctx.check(r.value | (gap <= -period + 1) | (gap >= late - 1),
              "contiguous records are not compatible")
    ctx.reach("yes" if r.value else "no")


def touch(ctx, stored, period, n):
    """The second record may not start with or before the last sample of the first."""
    a, b = MSeed3Header(), MSeed3Header()
    ta = when(ctx, a, "a", 2023)
    tb = when(ctx, b, "b", 2023)
    a.sampleRatePeriod = b.sampleRatePeriod = stored
    r = areCompatible(rec(a, "X", n), rec(b, "X", 1))
    gap = tb - ta - (n - 1) * period
    # periods are whole milliseconds: a few of them leave nothing to rounding
    ctx.check((not r) | (gap > 0), "the second record starts at the last sample of the first")
    ctx.check((not r) | (gap <= 2 * period), "the second record starts late")
    ctx.check(r | (gap <= 0) | (gap >= period + period // 2), "contiguous records are not compatible")
    ctx.reach("yes" if r else "no")


def alike(ctx, na, nb):
    """Contiguous in time, everything else symbolic."""
    a, b = MSeed3Header(), MSeed3Header()
    for h in (a, b):
        h.year, h.dayOfYear = 2024, 60
    b.second = 10
    ra = ctx.choice("a.rate", [1.0, -1.0, 2.0, 0.5, 0.0])
    rb = ctx.choice("b.rate", [1.0, -1.0, 2.0, 0.5, 0.0])
    a.sampleRatePeriod, b.sampleRatePeriod = ra, rb
    a.publicationVersion, b.publicationVersion = ctx.bits("a.pub", 8), ctx.bits("b.pub", 8)
    ea, eb = ctx.bits("a.enc", 8), ctx.bits("b.enc", 8)
    a.flags, b.flags = ctx.bits("a.flags", 8), ctx.bits("b.flags", 8)
    sa, sb = ctx.str("a.id", na, ((32, 126),)), ctx.str("b.id", nb, ((32, 126),))
    p = {1.0: 1, -1.0: 1, 2.0: .5, 0.5: 2, 0.0: 0}[ra]
    n = int(10 / p) if p else 10
    A, B = rec(a, sa, n, ea), rec(b, sb, 10, eb)
    r = ctx.call(areCompatible, A, B)
    ctx.check(r.ok, "compatibility check fails: " + r.exname)
    same = (sa == sb) & (a.publicationVersion == b.publicationVersion) & (ea == eb)
    same_rate = ra == rb and ra != 0
    if same_rate:
        ctx.check(r.value == same, "compatible exactly when alike")
    if {ra, rb} != {1.0, -1.0} and ra != rb or ra == 0:
        ctx.check(not r.value, "records of different or no rate are compatible")
    ctx.check((not r.value) | same, "records that differ are compatible")
    m = mseed3merge(A, B)
    ctx.check((len(m) == 1) == (r.value & (ea <= 5) & (ea >= 1)), "merged exactly when compatible")
    if len(m) == 2:
        ctx.check(m[0] is A and m[1] is B, "both records unchanged")
    ctx.reach("ok")


def data(ctx, name, kind, n):
    return ctx.array(name, kind, n)


def merged(ctx, enc, na, nb, packed, ehs):
    """Merging, and what the merged record holds."""
    kind = TYPES[enc]
    year = 2023
    a, b = MSeed3Header(), MSeed3Header()
    ta = when(ctx, a, "a", year)
    tb = when(ctx, b, "b", year)
    a.sampleRatePeriod = b.sampleRatePeriod = 10.0
    a.flags, b.flags = ctx.bits("a.flags", 8), ctx.bits("b.flags", 8)
    xa, xb = data(ctx, "x", kind, na), data(ctx, "y", kind, nb)
    eha = {"k": {"l": [1]}} if ehs & 1 else None
    ehb = {"q": [2]} if ehs & 2 else None
    A, B = MSeed3Record(a, "FDSN:A_B", xa, eha), MSeed3Record(b, "FDSN:A_B", xb, ehb)
    if packed:
        A = simplemseed.unpackMSeed3Record(bytes(A.pack()))
        B = simplemseed.unpackMSeed3Record(bytes(B.pack()))
    ba, bb = bytes(A.pack()), bytes(B.pack())
    ok = areCompatible(A, B)
    m = mseed3merge(A, B)
    ctx.check((len(m) == 1) == ok, "merged exactly when compatible")
    ctx.check((A.pack() == ba) & (B.pack() == bb), "the records given are unchanged")
    if len(m) == 2:
        ctx.check(m[0] is A and m[1] is B, "both records returned")
        ctx.reach("no")
        return
    r = m[0]
    ctx.check(r.header.numSamples == na + nb, "sample count")
    ctx.check(r.header.encoding == enc, "encoding")
    ctx.check(r.identifier == "FDSN:A_B", "identifier")
    ctx.check(r.starttime == A.starttime, "start time")
    ctx.check(r.header.sampleRatePeriod == 10.0, "rate")
    ctx.check(r.header.flags == a.flags, "flags")
    want = bytes(A.encodedDataBytes()) + bytes(B.encodedDataBytes())
    ctx.check(r.encodedDataBytes() == want, "samples")
    g = simplemseed.unpackMSeed3Record(bytes(r.pack()))
    y = g.decompress()
    ctx.check(len(y) == na + nb, "sample count")
    got = y.view("i8" if enc == 5 else "i4") if enc > 3 else y
    ref = [x.view("i8" if enc == 5 else "i4") if enc > 3 else x for x in (xa, xb)]
    for i in range(na + nb):
        ctx.check(got[i] == (ref[0][i] if i < na else ref[1][i - na]), f"sample {i}")
    ctx.check(g.hasExtraHeaders() == (eha is not None), "extra headers are those of the first")
    if eha is not None:
        ctx.check(g.eh == eha, "extra headers are those of the first")
    if ehs & 1 and r.hasExtraHeaders():
        r.eh["k"]["l"].append(2)
        ctx.check(A.eh == {"k": {"l": [1]}}, "extra headers of the first after changing the merged ones")
    pub = A.header.publicationVersion
    r.header.numSamples = 77
    r.header.publicationVersion = 9
    ctx.check((A.header.numSamples == na) & (A.header.publicationVersion == pub), "header of the first after changing "
              "the merged one")
    ctx.reach("yes")


def steim(ctx, enc):
    """Compressed records are handed back as they are."""
    a, b = MSeed3Header(), MSeed3Header()
    a.sampleRatePeriod = b.sampleRatePeriod = 1.0
    ta, tb = when(ctx, a, "a", 2000), when(ctx, b, "b", 2000)
    A, B = rec(a, "X", 7, enc, ctx.bytes("x", 64)), rec(b, "X", 5, enc, ctx.bytes("y", 64))
    m = mseed3merge(A, B)
    ctx.check(len(m) == 2 and m[0] is A and m[1] is B, "compressed records are merged")
    ctx.reach("ok")


def nones(ctx):
    h = MSeed3Header()
    when(ctx, h, "a", 2000)
    A = rec(h, "X", 7, 3, ctx.bytes("x", 28))
    ctx.check(mseed3merge(A, None) == [A] and mseed3merge(None, A) == [A]
              and mseed3merge(None, None) == [None], "merging with nothing")
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    for k, (s, p) in enumerate(RATES if not q else RATES[:8]):
        for tol in (None, 0.25, 2.0, 0.0) if k < 2 or not q else (None,):
            for year, cross in ((2024, False), (2023, True), (2024, True)) if k < 3 or not q \
                    else ((2023, k % 2 == 1),):
                if tol == 0.0 and cross and q:
                    continue
                hi = 100000
                if p * hi > 86400 * 10 ** 6 * 300:
                    hi = 86400 * 10 ** 6 * 300 // p
                out.append(dict(name=f"times-{s}-{k}-{tol}-{year}{'x' if cross else ''}",
                                fn=times, must=["yes", "no"] if tol != 0.0 or p > 2 else ["no"],
                                params=dict(year=year, cross=cross, stored=s, period=p, tol=tol,
                                            hi=hi),
                                bound=f"stored rate {s}, 0 to {hi} samples, tolerance {tol}, every "
                                f"pair of start times (microseconds) of {year}" +
                                (f" to {year + 1}, around the year's end" if cross else "")))
    for s, p in RATES:
        for n in (1, 3):
            out.append(dict(name=f"touch-{s}-{n}", fn=touch, params=dict(stored=s, period=p, n=n), must=["yes", "no"],
                            weight=4, bound=f"stored rate {s}, {n} samples, every pair of start times of 2023"))
    for na, nb in ((1, 1), (2, 2), (2, 1), (0, 0), (3, 3)):
        out.append(dict(name=f"alike-{na}-{nb}", fn=alike, params=dict(na=na, nb=nb),
                        bound=f"ASCII identifiers of {na} and {nb} characters, all publication "
                        "versions, encodings, flags, five rates"))
    sizes = ((1, 1), (2, 1), (0, 2), (3, 3)) if q else ((1, 1), (2, 1), (0, 2), (3, 3), (1, 0),
                                                       (8, 5))
    for enc in TYPES:
        for i, (na, nb) in enumerate(sizes):
            for packed in (False, True) if i < 2 or not q else (False,):
                out.append(dict(name=f"merge-{enc}-{na}-{nb}-{packed}", fn=merged,
                                must=["yes", "no"],
                                params=dict(enc=enc, na=na, nb=nb, packed=packed, ehs=i % 4),
                                bound=f"{na} and {nb} samples of encoding {enc}, all values, all "
                                "start times of 2023, 10 Hz"))
    for enc in (10, 11, 19, 0, 100):
        out.append(dict(name=f"steim-{enc}", fn=steim, params=dict(enc=enc),
                        bound=f"encoding {enc}, any bytes, any times of 2000"))
    out.append(dict(name="nones", fn=nones, bound="any start time of 2000"))
    return out
