"""M11: sample rate and period are two views of one value."""
import struct
from simplemseed import MSeed3Header, MSeed3Record, unpackMSeed3Record, readMSeed3Records
from simplemseed import unpackMSeed3FixedHeader

OUTSIDE = ("negative rates or periods given to the setters, which the format cannot express; texts of "
           "summaries other than of the listed rates")
MAX = 1.7976931348623157e308


def finite(ctx, name):
    x = ctx.f64(name)
    ctx.assume((x >= -MAX) & (x <= MAX))
    return x


def views(ctx, h, rate, period, where):
    ctx.check(h.sampleRate == rate, where + ": rate")
    ctx.check(h.samplePeriod == period, where + ": period")


def through(ctx, h):
    """The same header by way of copies and bytes."""
    yield "set", h
    yield "clone", h.clone()
    yield "bytes", unpackMSeed3FixedHeader(bytes(h.pack()))
    r = MSeed3Record(h, "FDSN:XX_A", b"")
    yield "record", r.header
    yield "packed", unpackMSeed3Record(bytes(r.pack())).header


def setting(ctx, what, old):
    h = MSeed3Header()
    h.encoding = 0
    if old:
        h.sampleRatePeriod = finite(ctx, "old")
    v = finite(ctx, "v")
    ctx.assume(v > 0)
    if what == "rate":
        h.sampleRate = v
        ctx.check(h.sampleRatePeriod == v, "a rate is stored as it is")
    else:
        h.samplePeriod = v
        ctx.check(h.sampleRatePeriod == -v, "a period is stored negative")
    for where, g in through(ctx, h):
        if what == "rate":
            views(ctx, g, v, 1.0 / v, where)
            ctx.check(g.sampleRatePeriod > 0, where + ": a rate is stored positive")
        else:
            views(ctx, g, 1.0 / v, v, where)
            ctx.check(g.sampleRatePeriod < 0, where + ": a period is stored negative")
    ctx.reach("ok")


def stored(ctx):
    """What any stored value means."""
    h = MSeed3Header()
    h.encoding = 0
    x = finite(ctx, "x")
    h.sampleRatePeriod = x
    for where, g in through(ctx, h):
        ctx.check(g.sampleRatePeriod == x, where + ": stored value")
        if x > 0:
            views(ctx, g, x, 1.0 / x, where)
        elif x < 0:
            views(ctx, g, 1.0 / -x, -x, where)
        else:
            ctx.check((g.sampleRate == 0) & (g.samplePeriod == 0), where + ": no rate")
    ctx.reach("rate" if x > 0 else "period" if x < 0 else "none")


def integers(ctx):
    """Whole numbers given as integers."""
    h = MSeed3Header()
    h.encoding = 0
    n = ctx.int("n", 1, 100000)
    if ctx.choice("what", ["rate", "period"]) == "rate":
        h.sampleRate = n
        for where, g in through(ctx, h):
            ctx.check(g.sampleRate == n, where + ": rate")
            ctx.check(g.sampleRatePeriod == n, where + ": stored")
            ctx.check(g.samplePeriod == 1.0 / n, where + ": period")
    else:
        h.samplePeriod = n
        for where, g in through(ctx, h):
            ctx.check(g.samplePeriod == n, where + ": period")
            ctx.check(g.sampleRatePeriod == -n, where + ": stored")
            ctx.check(g.sampleRate == 1.0 / n, where + ": rate")
    ctx.reach("ok")


def summaries(ctx, rates):
    """Records of no, low and high rate can be read and summarised."""
    h = MSeed3Header()
    h.year = 2024
    h.dayOfYear = 60
    rate = ctx.choice("rate", rates)
    how = ctx.choice("how", ["stored", "rate", "period"])
    if how == "stored":
        h.sampleRatePeriod = rate
    elif how == "rate":
        h.sampleRate = abs(rate)
    else:
        h.samplePeriod = abs(rate)
    n = ctx.choice("n", [0, 1, 3])
    x = ctx.array("x", "i4", n)
    r = MSeed3Record(h, "FDSN:XX_A", x)
    b = bytes(r.pack())
    got = list(readMSeed3Records(ctx.file(b + b)))
    ctx.check(len(got) == 2, "records")
    for g in [r] + got:
        o = ctx.call(g.summary)
        ctx.check(o.ok, "summary: " + o.exname)
        ctx.check(o.value.startswith("FDSN:XX_A 2024-02-29T00:00:00"), "summary starts right")
        ctx.check(o.value.endswith(f"({n} pts)"), "summary ends right")
        ctx.check(str(g) == o.value, "text")
        o = ctx.call(g.details)
        ctx.check(o.ok, "details: " + o.exname)
        ctx.check("FDSN:XX_A" in o.value, "details")
        p = g.header.samplePeriod
        ctx.check(bool(abs((g.endtime - g.starttime).total_seconds() - p * (n - 1)) < 2e-6),
                  "end time")
        ctx.check(bool((p > 0) == (g.header.sampleRate > 0)), "rate and period agree")
        ctx.check(bool(p == 0) or bool(abs(p * g.header.sampleRate - 1) < 1e-15), "reciprocal")
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    for w in ("rate", "period"):
        for old in (False, True):
            out.append(dict(name=f"set-{w}{'-again' if old else ''}", fn=setting,
                            params=dict(what=w, old=old), must=["ok"],
                            bound=f"any positive finite double set as the {w}"
                            + (" over any other stored value" if old else "")))
    out.append(dict(name="stored", fn=stored, params={}, must=["rate", "period", "none"],
                    bound="any finite double stored"))
    out.append(dict(name="integers", fn=integers, params={}, must=["ok"],
                    bound="whole numbers from 1 to 100000"))
    rates = [0.0, -0.0, 1.0, -1.0, 100.0, -10.0, 0.1, -0.001, 1e9, -86400.0]
    out.append(dict(name="summary", fn=summaries, params=dict(rates=rates), must=["ok"],
                    bound=f"rates {rates}, 0, 1 or 3 samples"))
    return out
