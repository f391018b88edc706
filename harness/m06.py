"""M06: miniSEED3 start times are kept to the nanosecond field and consistent."""
from fractions import Fraction
from datetime import datetime, timedelta, timezone
import simplemseed
from simplemseed import MSeed3Header, MSeed3Record

OUTSIDE = ("years 0 and beyond 9999 (Python has no such datetime); rates other than the listed "
           "ones for end times; ISO texts of other forms than stated")


def leap(y):
    return ((y % 4 == 0) & (y % 100 != 0)) | (y % 400 == 0)


def legal(ctx, h, year, doy):
    """The fields of h are in range and are what the calendar says."""
    ctx.check((h.dayOfYear >= 1) & (h.dayOfYear <= 366), "day of year in range")
    ctx.check((h.hour >= 0) & (h.hour <= 23) & (h.minute >= 0) & (h.minute <= 59)
              & (h.second >= 0) & (h.second <= 60), "time fields in range")
    ctx.check((h.nanosecond >= 0) & (h.nanosecond <= 999999999), "nanoseconds in range")


def fields(ctx, lo=1, hi=9999):
    y = ctx.int("year", lo, hi)
    doy = ctx.int("doy", 1, 366)
    ctx.assume((doy < 366) | leap(y))
    H = ctx.int("hour", 0, 23)
    M = ctx.int("minute", 0, 59)
    S = ctx.int("second", 0, 59)
    us = ctx.int("us", 0, 999999)
    return y, doy, H, M, S, us


def setget(ctx, tz):
    y, doy, H, M, S, us = fields(ctx, 2 if tz == "offset" else 1, 9998 if tz == "offset" else 9999)
    base = datetime(y, 1, 1) + timedelta(days=doy - 1, hours=H, minutes=M, seconds=S,
                                         microseconds=us)
    h = MSeed3Header()
    h.encoding = 3
    if tz == "naive":
        given = base
        want = base.replace(tzinfo=timezone.utc)
    elif tz == "utc":
        given = base.replace(tzinfo=timezone.utc)
        want = given
    else:
        off = ctx.choice("offset", [-720, -570, -60, -1, 1, 330, 840, 1439])
        given = base.replace(tzinfo=timezone(timedelta(minutes=off)))
        want = (base - timedelta(minutes=off)).replace(tzinfo=timezone.utc)
    h.starttime = given
    if tz != "offset":
        ctx.check((h.year == y) & (h.dayOfYear == doy) & (h.hour == H) & (h.minute == M)
                  & (h.second == S) & (h.nanosecond == us * 1000), "header fields")
    legal(ctx, h, y, doy)
    got = h.starttime
    ctx.check(got == want, "instant read back")
    ctx.check(got.utcoffset() == timedelta(0), "time zone is UTC")
    g = simplemseed.unpackMSeed3FixedHeader(h.pack()) if tz == "utc" else h.clone()
    ctx.check(g.starttime == want, "instant after packing or cloning")
    ctx.reach("ok")


def days_in_month(y, m):
    out = 31
    if m == 4 or m == 6 or m == 9 or m == 11:
        out = 30
    if m == 2:
        out = 29 if leap(y) else 28
    return out


def number(ctx, name, n, lo, hi):
    """A decimal number of n digits in [lo, hi], and its text."""
    ds = [ctx.int(f"{name}{i}", 0, 9) for i in range(n)]
    v, text = 0, ""
    for d in ds:
        v = v * 10 + d
        text = text + chr(48 + d)
    ctx.assume((v >= lo) & (v <= hi))
    return v, text


def iso(ctx, form):
    y, ys = number(ctx, "year", 4, 1, 9999)
    m = ctx.choice("month", range(1, 13))
    d, ds = number(ctx, "day", 2, 1, 31)
    ctx.assume(d <= days_in_month(y, m))
    (H, Hs), (M, Ms), (S, Ss) = (number(ctx, "hour", 2, 0, 23), number(ctx, "minute", 2, 0, 59),
                                 number(ctx, "second", 2, 0, 59))
    us = 0
    text = ys + "-" + "%02d" % m + "-" + ds + "T" + Hs + ":" + Ms + ":" + Ss
    if "." in form:
        us, uss = number(ctx, "us", 6, 0, 999999)
        text = text + "." + uss
    if "Z" in form:
        text = text + "Z"
    if "+" in form:
        text = text + "+00:00"
    h = MSeed3Header()
    r = ctx.call(setattr, h, "starttime", text)
    ctx.check(r.ok, "refused: " + r.exname)
    want = datetime(y, m, d, H, M, S, us, tzinfo=timezone.utc)
    ctx.check(h.starttime == want, "instant")
    ctx.check((h.year == y) & (h.hour == H) & (h.minute == M) & (h.second == S)
              & (h.nanosecond == us * 1000), "fields")
    legal(ctx, h, y, 0)
    ctx.reach("ok")


def readable(ctx):
    """Any legal header time can be read, and says what the fields say."""
    y, doy, H, M, S, us = fields(ctx, 1, 9998)
    S = ctx.int("sec60", 0, 60)
    ns = ctx.int("ns", 0, 999999999)
    h = MSeed3Header()
    h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond = y, doy, H, M, S, ns
    ctx.check(h.sanityCheck() == (y < 3000), "sane fields")
    r = ctx.call(lambda: h.starttime)
    ctx.check(r.ok, "start time cannot be read: " + r.exname)
    want = datetime(y, 1, 1, tzinfo=timezone.utc) + timedelta(
        days=doy - 1, hours=H, minutes=M, seconds=S, microseconds=ns // 1000)
    ctx.check(r.value == want, "instant")
    ctx.reach("ok")


def insane(ctx):
    h = MSeed3Header()
    h.year, h.dayOfYear = ctx.bits("year", 16), ctx.bits("doy", 16)
    h.hour, h.minute, h.second = ctx.bits("hour", 8), ctx.bits("minute", 8), ctx.bits("second", 8)
    good = (h.year < 3000) & (h.dayOfYear >= 1) & (h.dayOfYear <= 366) & (h.hour < 24) & \
        (h.minute < 60) & (h.second <= 60)
    ctx.check(h.sanityCheck() == good, "sanity check")
    ctx.reach("ok")


def endtime(ctx, rates, hi):
    """rates: (stored value, exact period in microseconds)."""
    y, doy, H, M, S, us = fields(ctx, 1600, 2500)
    i = ctx.choice("rate", range(len(rates)))
    stored, period = rates[i]
    n = ctx.int("n", 1, hi)
    h = MSeed3Header()
    h.year, h.dayOfYear, h.hour, h.minute, h.second, h.nanosecond = y, doy, H, M, S, us * 1000
    h.sampleRatePeriod = stored
    h.numSamples = n
    r = ctx.call(lambda: h.endtime)
    ctx.check(r.ok, "end time cannot be read: " + r.exname)
    got = (r.value - h.starttime) // timedelta(microseconds=1)
    want = Fraction(period)
    q = want.denominator
    got, want = (got, period * (n - 1)) if q == 1 else (got * q, want.numerator * (n - 1))
    ctx.check((got >= want - q) & (got <= want + q), "end time to the microsecond")
    ctx.check((n != 1) | (got == 0), "one sample ends where it starts")
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    for tz in ("naive", "utc", "offset"):
        out.append(dict(name=f"set-{tz}", fn=setget, params=dict(tz=tz), weight=5,
                        bound=f"every microsecond of years 1 to 9999, {tz}" +
                        (" (8 offsets)" if tz == "offset" else "")))
    for form in ("", "Z", ".", ".Z", "+", ".+"):
        out.append(dict(name=f"iso-{form}", fn=iso, params=dict(form=form), weight=9,
                        bound=f"every ISO text of form {form!r}, years 1 to 9999"))
    out.append(dict(name="readable", fn=readable, bound="all legal fields of years 1 to 9998, "
                    "with second 60"))
    out.append(dict(name="insane", fn=insane, bound="all field values"))
    rates = [(1.0, 1000000), (100.0, 10000), (20.0, 50000), (-10.0, 10000000), (-0.5, 500000),
             (0.0, 0), (-3600.0, 3600000000), (250.0, 4000), (1000.0, 1000), (-1.0, 1000000),
             (1000000.0, 1), (32000.0, Fraction(125, 4)), (-0.000007, 7)]
    if not q:
        rates += [(40.0, 25000), (50.0, 20000), (200.0, 5000), (500.0, 2000), (0.1, 10000000),
                  (1, 1000000), (-2, 2000000), (0, 0)]
    for k, r in enumerate(rates):
        out.append(dict(name=f"end-{r[0]}-{k}", fn=endtime,
                        params=dict(rates=[r], hi=256 if isinstance(r[1], Fraction) else 100000 if abs(r[1]) < 10 ** 8 else 1000),
                        weight=4,
                        bound=f"stored rate {r[0]}, 1 to 100000 samples, every microsecond of "
                        "years 1600 to 2500"))
    return out
