"""S05: band codes of sample rates."""
import math
from simplemseed import FDSNSourceId, bandCodeForRate
from simplemseed.fdsnsourceid import bandCodeInfo, bandCodeDescribe, BAND_CODE_JSON

OUTSIDE = ("which of L and V, or L and M, is given for rates between 0.5 and 1.5 Hz other than 1, as the table only "
           "says about 1; the code for 5000 Hz itself, which the table leaves out; rates that are not a number")

# the table of the FDSN specification: code, lowest rate, is it included, rate above all of it, broadband
TABLE = [("J", 5000, False, math.inf, None),
         ("F", 1000, True, 5000, True), ("G", 1000, True, 5000, False),
         ("C", 250, True, 1000, True), ("D", 250, True, 1000, False),
         ("H", 80, True, 250, True), ("E", 80, True, 250, False),
         ("B", 10, True, 80, True), ("S", 10, True, 80, False),
         ("M", 1, False, 10, None), ("V", 0.1, True, 1, None), ("U", 0.01, True, 0.1, None),
         ("W", 0.001, True, 0.01, None), ("R", 0.0001, True, 0.001, None), ("P", 0.00001, True, 0.0001, None),
         ("T", 0.000001, True, 0.00001, None), ("Q", 0, False, 0.000001, None)]


def judge(ctx, code, rate, broad):
    """Is the code one the table gives for a positive rate?"""
    ok = (code == "L") & (rate > 0.5) & (rate < 1.5)
    for c, lo, incl, hi, bb in TABLE:
        inside = ((rate >= lo) if incl else (rate > lo)) & ((rate < hi) if hi != math.inf else True)
        if bb is not None:
            inside = inside & (broad if bb else ~broad if not isinstance(broad, bool) else not broad)
        ok = ok | ((code == c) & inside)
    ok = ok | ((code == "J") & (rate == 5000))
    ctx.check(ok, "band code for the rate")


def check(ctx, r, rate, broad):
    ctx.check(r.ok, "fails: " + r.exname)
    code = r.value
    ctx.check(len(code) == 1, "one character")
    if code == "J":
        ctx.reach("J")
    judge(ctx, code, rate, broad)
    ctx.reach("ok")


def rates(ctx, resp):
    """Every positive rate."""
    x = ctx.f64("rate")
    ctx.assume(x > 0)
    if resp == "none":
        r, broad = ctx.call(bandCodeForRate, x), False
    elif resp == "zero":
        r, broad = ctx.call(bandCodeForRate, x, ctx.choice("zero", [0, 0.0, -0.0])), True
    else:
        y = ctx.f64("resp")
        if resp == "hertz":
            ctx.assume(y > 0)
            broad = y <= 0.1
        else:
            # a period in seconds
            ctx.assume(y < 0)
            broad = y <= -10
        r = ctx.call(bandCodeForRate, x, y)
    check(ctx, r, x, broad)


def whole(ctx, resp):
    """Every whole number of hertz."""
    n = ctx.int("rate", 1, 10 ** 6)
    y = ctx.choice("resp", [None, 0.1, 0.05, 1, -10, -9, -11, 0.11, -100])
    broad = y is not None and (-1 / y if y < 0 else y) <= 0.1
    check(ctx, ctx.call(bandCodeForRate, n, y), n, broad)


PERIOD = {5000: 0.0002, 1000: 0.001, 250: 0.004, 80: 0.0125, 10: 0.1, 1: 1, 0.1: 10, 0.01: 100, 0.001: 1000,
          0.0001: 10 ** 4, 0.00001: 10 ** 5, 0.000001: 10 ** 6}


def periods(ctx, kind):
    """Every period, as a negative number."""
    if kind == "whole":
        n = ctx.int("period", 1, 10 ** 7)
        r = ctx.call(bandCodeForRate, -n)
        x = n
    else:
        if kind == "half":
            x = ctx.int("period", 1, 30000) * 0.5
        else:
            x = ctx.f64("period")
        ctx.assume(x > 0)
        r = ctx.call(bandCodeForRate, -x)
        # the rate is rounded: next to the boundaries either side is right
        for b in PERIOD.values():
            ctx.assume((x == b) | (x > b * (1 + 2 ** -51)) | (x < b * (1 - 2 ** -51)))
    ctx.check(r.ok, "fails: " + r.exname)
    code = r.value
    ok = (code == "L") & (x < 2) & (x > 1 / 1.5)
    for c, lo, incl, hi, bb in TABLE:
        if bb:
            continue
        inside = True
        if lo:
            inside = (x <= PERIOD[lo]) if incl else (x < PERIOD[lo])
        if hi != math.inf:
            inside = inside & (x > PERIOD[hi])
        ok = ok | ((code == c) & inside)
    ok = ok | ((code == "J") & (x == 0.0002))
    ctx.check(ok, "band code for the period")
    ctx.reach("ok")


def none(ctx):
    """No rate is irregular."""
    y = ctx.choice("resp", [None, 0, 0.01, 100, -100])
    for v in (None, 0, 0.0, -0.0):
        ctx.check(bandCodeForRate(v, y) == "I", "irregular")
    ctx.check(bandCodeForRate() == "I", "irregular")
    ctx.check(bandCodeForRate(math.inf, y) == "J", "infinite rate")
    ctx.reach("ok")


def unknown(ctx):
    """Identifiers made with a rate have its code."""
    n = ctx.int("rate", -10 ** 6, 10 ** 6)
    y = ctx.choice("resp", [None, 0.05, 1])
    s = FDSNSourceId.createUnknown(n, response_lb=y)
    ctx.check(s.bandCode == bandCodeForRate(n, y), "band code")
    ctx.check(FDSNSourceId.createUnknown(n).bandCode == bandCodeForRate(n), "band code without a response")
    ctx.reach("ok")


def table(ctx):
    """The code table has every code, with the limits judged here."""
    def num(v):
        return f"{v:f}".rstrip("0").rstrip(".") if v else "0"
    for c, lo, incl, hi, bb in TABLE:
        i = bandCodeInfo(c)
        want = (f"> {num(lo)}" if hi == math.inf else f"< {num(hi)}" if lo == 0 else
                f">{'=' if incl else ''} {num(lo)} to < {num(hi)}")
        ctx.check(i["rate"] == want, f"rates of {c}: {i['rate']} rather than {want}")
        ctx.check(i["response_lb"].strip() == ("" if bb is None else ">= 10 sec" if bb else "< 10 sec"), f"response of {c}")
        ctx.check(i["rate"] in bandCodeDescribe(c), "description")
    for c in "LI":
        ctx.check(bandCodeInfo(c)["code"] == c, "code")
    ctx.check(sorted(BAND_CODE_JSON) == sorted("ABCDEFGHIJLMOPQRSTUVW"), "all codes")
    ctx.reach("ok")


def cases(tier):
    out = []
    for r in ("none", "zero", "hertz", "period"):
        out.append(dict(name=f"rates-{r}", fn=rates, params=dict(resp=r), weight=5, bound="every positive double, "
                        "and every response of the kind"))
    out.append(dict(name="whole", fn=whole, params=dict(resp=None), weight=3, bound="every whole rate to 1e6"))
    for k in ("whole", "half", "double"):
        out.append(dict(name=f"periods-{k}", fn=periods, params=dict(kind=k), weight=9,
                        bound="every whole period to 1e7" if k == "whole" else "every multiple of half a second to 15000" if k == "half" else
                        "every positive double but the neighbours of the boundaries"))
    out.append(dict(name="none", fn=none, params={}, bound="no rate"))
    out.append(dict(name="unknown", fn=unknown, params={}, bound="every whole rate or period to 1e6"))
    out.append(dict(name="table", fn=table, params={}, bound="the table"))
    return out
