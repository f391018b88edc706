"""D05: miniSEED2 times."""
import struct
from fractions import Fraction
from datetime import datetime, timedelta, timezone
from simplemseed import MiniseedHeader, MiniseedRecord
from simplemseed.miniseed import (BTime, Blockette1001, unpackMiniseedHeader, unpackMiniseedRecord)

OUTSIDE = ("start years outside 1801 to 2054; rates other than the listed ones for end times; leap seconds "
           "on output (a datetime cannot hold one)")
UTC = timezone.utc
KNOWN = "D05-b1001-signed"


def leap(y):
    return ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0)


def fields(ctx, sec=59, lo=1801, hi=2054):
    y = ctx.int("year", lo, hi)
    d = ctx.int("yday", 1, 366)
    ctx.assume((d < 366) | leap(y))
    return (y, d, ctx.int("hour", 0, 23), ctx.int("minute", 0, 59), ctx.int("second", 0, sec))


def instant(y, d, H, M, S, us):
    return datetime(y, 1, 1, tzinfo=UTC) + timedelta(days=d - 1, hours=H, minutes=M, seconds=S,
                                                     microseconds=us)


def record(e, f, tenth, micro=None, n=0, rate=(20, 1)):
    """A 256 byte record without samples, with a 1001 blockette when micro is given."""
    y, d, H, M, S = f
    nb = 1 if micro is None else 2
    b = b"000001D ABC  00BHZXX" + struct.pack(e + "HHBBBBHHhhBBBBiHH", y, d, H, M, S, 0, tenth, n, rate[0],
                                              rate[1], 0, 0, 0, nb, 0, 64, 48)
    b = b + struct.pack(e + "HHBBBB", 1000, 0 if micro is None else 56, 3, 1 if e == ">" else 0, 8, 0)
    if micro is not None:
        b = b + struct.pack(e + "HHBBBB", 1001, 0, 50, micro, 0, 1)
    return b + bytes(256 - len(b))


def read(ctx, big):
    f = fields(ctx, 60)
    t = ctx.int("tenth", 0, 9999)
    e = ">" if big else "<"
    h = unpackMiniseedHeader(record(e, f, t)[:48], e)
    want = instant(*f, t * 100)
    ctx.check(h.starttime == want, "start time of the header")
    ctx.check(h.starttime.utcoffset() == timedelta(0), "time zone is UTC")
    r = unpackMiniseedRecord(record(e, f, t))
    ctx.check(r.starttime() == want, "start time of the record")
    ctx.check(MiniseedHeader("XX", "A", "", "BHZ", BTime(*f, t), 1, 20).starttime == want,
              "start time of a new header")
    ctx.reach("ok")


def micros(ctx, big, lo, hi):
    """A blockette 1001 corrects the start time by its signed microseconds."""
    f = fields(ctx)
    t = ctx.int("tenth", 0, 9999)
    m = ctx.int("micro", lo, hi)
    e = ">" if big else "<"
    r = unpackMiniseedRecord(record(e, f, t, m))
    signed = m - 256 if lo >= 128 else m
    want = instant(*f, t * 100 + signed)
    ctx.check(r.starttime() == want, "corrected start time", known=(KNOWN, m >= 128))
    if lo < 128:
        again = unpackMiniseedRecord(bytes(r.pack()))
        ctx.check(again.starttime() == want, "corrected start time packed and read again")
        ctx.check(again.blockettes[1].microseconds == m, "correction kept")
    ctx.reach("ok")


def setting(ctx, how):
    """A start time given as a datetime reads back to a tenth of a millisecond."""
    f = fields(ctx, lo=1802, hi=2053)
    us = ctx.int("us", 0, 999999)
    t = instant(*f, us)
    given, want = t, t
    if how == "naive":
        given = t.replace(tzinfo=None)
    elif how == "offset":
        off = ctx.choice("offset", [-720, -60, 1, 330, 840])
        given = t.replace(tzinfo=timezone(timedelta(minutes=off)))
        want = t - timedelta(minutes=off)
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", given, 1, 20)
    ctx.check(h.starttime == want, "start time set")
    if how != "offset":
        y, d, H, M, S = f
        ctx.check((h.btime.year == y) & (h.btime.yday == d) & (h.btime.hour == H) & (h.btime.minute == M)
                  & (h.btime.second == S) & (h.btime.tenthMilli == us // 100), "fields of the time")
    g = unpackMiniseedHeader(bytes(h.pack()))
    low = want - timedelta(microseconds=us % 100)
    ctx.check(g.starttime == low, "start time read back")
    h.setStartTime(BTime(2001, 1, 0, 0, 0, 0))
    h.setStartTime(given)
    ctx.check(h.starttime == want, "start time set again")
    ctx.check(unpackMiniseedHeader(bytes(h.pack())).starttime == low, "start time set again read back")
    ctx.reach("ok")


def exact(ctx, big):
    """With a blockette 1001 every microsecond survives."""
    f = fields(ctx)
    us = ctx.int("us", 0, 999999)
    t = instant(*f, us)
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", t, 0, 20, encoding=3, byteorder=1 if big else 0)
    r = MiniseedRecord(h, None)
    r.blockettes = [r.createB1000(), r.createB1001()]
    b = bytes(r.pack())
    ctx.check(unpackMiniseedRecord(b).starttime() == t, "start time with microseconds")
    ctx.check(unpackMiniseedHeader(b[:48], ">" if big else "<").starttime == t - timedelta(microseconds=us % 100),
              "fixed header has the tenths of milliseconds")
    ctx.reach("ok")


def digits(ctx, name, n, lo, hi):
    ds = [ctx.int(f"{name}{i}", 0, 9) for i in range(n)]
    v, text = 0, ""
    for d in ds:
        v, text = v * 10 + d, text + chr(48 + d)
    ctx.assume((v >= lo) & (v <= hi))
    return v, text


def iso(ctx, form):
    y = ctx.choice("year", [1900, 2024])
    m = ctx.choice("month", [1, 2, 12])
    d, ds = digits(ctx, "day", 2, 1, 28)
    (H, Hs), (M, Ms), (S, Ss) = (digits(ctx, "hour", 2, 0, 23), digits(ctx, "minute", 2, 0, 59),
                                 digits(ctx, "second", 2, 0, 59))
    us = 0
    text = "%d-%02d-" % (y, m) + ds + "T" + Hs + ":" + Ms + ":" + Ss
    if "." in form:
        us, uss = digits(ctx, "us", 6, 0, 999999)
        text = text + "." + uss
    text = text + form.replace(".", "")
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", text, 1, 20)
    ctx.check(h.starttime == datetime(y, m, d, H, M, S, us, tzinfo=UTC), "instant")
    ctx.reach("ok")


def ends(ctx, rate, period, hi):
    f = fields(ctx, lo=1900, hi=2050)
    t = instant(*f, ctx.int("us", 0, 999999))
    n = ctx.int("n", 1, hi)
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", t, n, rate, encoding=3)
    r = MiniseedRecord(h, None)
    us = timedelta(microseconds=1)
    p = Fraction(period)
    q, p = p.denominator, p.numerator
    # half a microsecond for each sample, as the period is one of whole microseconds
    for name, got, k in (("end", (r.endtime() - t) // us, n - 1), ("next start", (r.next_starttime() - t) // us, n)):
        tol = (k if q > 1 else 0) + 1
        w = p * k
        g = got if q == 1 else got * q
        ctx.check((g >= w - tol * q) & (g <= w + tol * q), name + " time")
    ctx.check((r.next_starttime() - r.endtime()) // us == h.sampPeriod // us, "one period apart")
    ctx.check(r.starttime() == t, "start time")
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    for big in (True, False):
        e = "big" if big else "little"
        out.append(dict(name=f"read-{e}", fn=read, params=dict(big=big), weight=3,
                        bound="every time of years 1801 to 2054, with leap seconds"))
        out.append(dict(name=f"micros-{e}", fn=micros, params=dict(big=big, lo=0, hi=127), weight=3,
                        bound="every time of years 1801 to 2054 and 0 to 127 microseconds"))
        out.append(dict(name=f"negative-{e}", fn=micros, params=dict(big=big, lo=128, hi=255), weight=3,
                        bound="every time of years 1801 to 2054 and -128 to -1 microseconds"))
        out.append(dict(name=f"exact-{e}", fn=exact, params=dict(big=big), weight=3,
                        bound="every microsecond of years 1801 to 2054"))
    for how in ("utc", "naive", "offset"):
        out.append(dict(name=f"set-{how}", fn=setting, params=dict(how=how), weight=4,
                        bound=f"every microsecond of years 1802 to 2053, {how}"))
    for form in ("Z", ".Z", "", ".+00:00"):
        out.append(dict(name=f"iso-{form}", fn=iso, params=dict(form=form), weight=2,
                        bound=f"ISO texts of form {form!r} of six months"))
    rates = [(20, 50000, 65535), (100.0, 10000, 65535), (1, 1000000, 65535), (0.1, 10000000, 65535),
             (1000, 1000, 65535), (40.0, 25000, 65535), (32000, Fraction(125, 4), 200), (3, Fraction(1000000, 3), 200),
             (0.0, 0, 65535)]
    if not q:
        rates += [(200, 5000, 65535), (250, 4000, 65535), (50.0, 20000, 65535), (0.01, 10 ** 8, 65535),
                  (7, Fraction(1000000, 7), 200)]
    for rate, p, hi in rates:
        if rate == 0:
            continue
        out.append(dict(name=f"ends-{rate}", fn=ends, params=dict(rate=rate, period=p, hi=hi), weight=3,
                        bound=f"rate {rate}, 1 to {hi} samples, every microsecond of years 1900 to 2050"))
    return out
