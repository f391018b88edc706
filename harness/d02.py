"""D02: miniSEED2 sample rate factor and multiplier."""
import struct
from simplemseed import MiniseedHeader
from simplemseed.miniseed import BTime, unpackMiniseedHeader

OUTSIDE = ("rates above 32765 times 32765 or below its inverse, which no pair expresses; chosen pairs of "
           "rates that are not a fraction with the listed denominators")
T = BTime(2024, 60, 1, 2, 3, 4567)


def header(big, f, m):
    e = ">" if big else "<"
    return b"000001D ABCDE00BHZXX" + struct.pack(e + "HHBBBBHHhhBBBBiHH", 2024, 60, 1, 2, 3, 0, 4567, 10,
                                                 f, m, 0, 0, 0, 0, 0, 0, 0)


def meaning(f, m):
    if f == 0 or m == 0:
        return 0
    if f > 0:
        return f * m if m > 0 else f / -m
    return m / -f if m > 0 else 1 / (f * m)


def near(a, b, eps):
    return (a == b) | (abs(a - b) <= abs(b) * eps)


def some(ctx, name, sign):
    r = {1: (1, 32767), -1: (-32768, -1), 0: (0, 0)}[sign]
    return ctx.int(name, *r)


def check_rate(ctx, h, f, m):
    w = meaning(f, m)
    ctx.check(near(h.sampleRate, w, 1e-12), "sample rate")
    ctx.check((h.sampRateFactor == f) & (h.sampRateMult == m), "factor and multiplier kept")


def reading(ctx, signs):
    f, m = some(ctx, "factor", signs[0]), some(ctx, "mult", signs[1])
    big = ctx.choice("big", [True, False])
    check_rate(ctx, unpackMiniseedHeader(header(big, f, m), ">" if big else "<"), f, m)
    check_rate(ctx, MiniseedHeader("XX", "A", "", "BHZ", T, 1, 0, sampRateFactor=f, sampRateMult=m), f, m)
    ctx.reach("ok")


EDGES = [1, 2, 3, 7, 10, 60, 100, 128, 1000, 3600, 10000, 32765, 32766, 32767, -1, -2, -3, -7, -10, -60,
         -100, -1000, -10000, -32766, -32767, -32768]


def edge(ctx, which, sign, edges):
    """One of the two fixed, the other any."""
    k = ctx.choice("edge", edges)
    f, m = (k, some(ctx, "mult", sign)) if which == "factor" else (some(ctx, "factor", sign), k)
    check_rate(ctx, unpackMiniseedHeader(header(True, f, m), ">"), f, m)
    ctx.reach("ok")


def at(b, o, big):
    v = (b[o] << 8 | b[o + 1]) if big else (b[o + 1] << 8 | b[o])
    return v - ((v >> 15) << 16)


def chosen(ctx, d, step, starts, inverse, how):
    """The rate n/d or its inverse, given to a new header."""
    big = True
    a = ctx.choice("block", starts)
    n = ctx.int("n", 0, step - 1) + a
    rate = d / n if inverse else n / d
    if how == "new":
        h = MiniseedHeader("XX", "A", "", "BHZ", T, 1, rate, byteorder=1 if big else 0)
    else:
        h = MiniseedHeader("XX", "A", "", "BHZ", T, 1, 20, byteorder=1 if big else 0)
        h.setSampleRate(rate)
    b = bytes(h.pack())
    f, m = at(b, 32, big), at(b, 34, big)
    # one part in 16000 either way
    if (f > 0) & (m > 0):
        v = f * m
    elif (f > 0) & (m < 0):
        ctx.check(within(ctx, n, d, inverse, f, -m), "rate within one part in 16000")
        ctx.reach("ok")
        return
    elif (f < 0) & (m > 0):
        ctx.check(within(ctx, n, d, inverse, m, -f), "rate within one part in 16000")
        ctx.reach("ok")
        return
    elif (f < 0) & (m < 0):
        ctx.check(within(ctx, n, d, inverse, 1, f * m), "rate within one part in 16000")
        ctx.reach("ok")
        return
    else:
        ctx.fail("no rate")
        return
    ctx.check(within(ctx, n, d, inverse, v, 1), "rate within one part in 16000")
    ctx.reach("ok")


def within(ctx, n, d, inverse, p, q):
    """|p/q / rate - 1| < 1/16000, in integers."""
    if inverse:
        n, d = d, n
    x, y = p * d, q * n
    return abs(x - y) * 16000 < y


def plain(ctx):
    """Rates of the field: reading back what was packed gives the same number."""
    rate = ctx.choice("rate", [1, 20, 40, 50, 100, 200, 250, 500, 1000, 4000, 5000, 0.1, 0.5, 0.01, 31.25,
                               62.5, 12.5, 1 / 60, 100000, 1000000, 1e9, 1 / 86400, 1e-5, 1e-9, 32765, 32766, 32767, 32768,
                               32766.5, 1 / 32765, 1 / 32766, 1 / 32767, 65536, 0.999999, 1.000001, 99.9999])
    h = MiniseedHeader("XX", "A", "", "BHZ", T, ctx.int("n", 0, 100), rate)
    for g in (unpackMiniseedHeader(bytes(h.pack()), ">"),):
        ctx.check(abs(g.sampleRate / rate - 1) < 1 / 16000, "rate read back")
        k = unpackMiniseedHeader(bytes(g.pack()), ">")
        ctx.check(k.sampleRate == g.sampleRate, "rate read back twice")
        ctx.check(g.numSamples == h.numSamples, "samples")
    ctx.reach("ok")


def norate(ctx):
    h = MiniseedHeader("XX", "A", "", "BHZ", T, ctx.int("n", 0, 65535), 0)
    b = bytes(h.pack())
    ctx.check((at(b, 32, True) == 0) & (at(b, 34, True) == 0), "zero factor and multiplier")
    g = unpackMiniseedHeader(b, ">")
    ctx.check(g.sampleRate == 0, "no rate")
    g.setSampleRate(20)
    ctx.check(g.sampleRate == 20, "set rate")
    g.setSampleRate(0)
    ctx.check(g.sampleRate == 0, "no rate set")
    ctx.reach("ok")


QUICK = {1: [1, 41, 240, 1000, 32740, 100000], 10: [1, 21, 990, 32740, 327640],
         1000: [1, 980, 10000, 999980]}
THOROUGH = list(range(1, 1025, 128)) + list(range(1025, 120000, 5120)) + [327600, 999900, 32764900]


def cases(tier):
    q = tier == "quick"
    out = []
    for s in [(a, b) for a in (1, -1, 0) for b in (1, -1, 0)]:
        out.append(dict(name=f"read-{s[0]}{s[1]}", fn=reading, params=dict(signs=s),
                        bound=f"every factor and multiplier of signs {s}"))
    for which in ("factor", "mult"):
        for sign in (1, -1):
            for i, e in enumerate((EDGES[:14], EDGES[14:])):
                out.append(dict(name=f"edge-{which}-{sign}-{i}", fn=edge, weight=3,
                                params=dict(which=which, sign=sign, edges=e),
                                bound=f"{which} one of {e}, the other any of sign {sign}"))
    for how in ("new",) if q else ("new", "set"):
        for d in (1, 10, 1000):
            for inv in (False, True):
                step = 40 if q else 128
                starts = QUICK[d] if q else THOROUGH
                out.append(dict(name=f"chosen-{how}-{d}-{'inv' if inv else 'rate'}", fn=chosen, weight=5,
                                params=dict(d=d, step=step, starts=starts, inverse=inv, how=how),
                                max_paths=100000,
                                bound=f"rates n/{d}{' inverted' if inv else ''}, n up to {step} above one of {starts}"))
    out.append(dict(name="plain", fn=plain, params={}, bound="the listed rates"))
    out.append(dict(name="norate", fn=norate, params={}, bound="no rate"))
    return out
