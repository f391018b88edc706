"""S06: temporary network codes."""
from simplemseed import NetworkSourceId, FDSNSourceId

OUTSIDE = "codes longer than stated"


def isd(c):
    return (ord(c) >= 48) & (ord(c) <= 57)


def isan(c):
    return isd(c) | ((ord(c) >= 65) & (ord(c) <= 90))


def start(c):
    return isd(c) | ((ord(c) >= 88) & (ord(c) <= 90))


def every(f, s):
    r = True
    for c in s:
        r = r & f(c)
    return r


def notxx(c):
    return (c[0] != "X") | (c[1] != "X")


def net(ctx, n, how):
    """Any text of a length."""
    c = ctx.str("net", n, ((0, 0x10FFFF),) if how == "made" else ((0, 94), (96, 0x10FFFF)))
    if how == "made":
        s = NetworkSourceId(c)
    elif how == "parsed":
        s = FDSNSourceId.parse("FDSN:" + c)
    else:
        s = FDSNSourceId(c, "ABC", "00", "B", "H", "Z").networkSourceId()
    seed = start(c[0]) & isan(c[1]) & notxx(c) if n == 2 else False
    hist = start(c[0]) & isan(c[1]) & every(isd, c[2:]) & notxx(c) if n == 6 else False
    conv = every(isan, c[:n - 4]) & every(isd, c[n - 4:]) if 5 <= n <= 8 else False
    ctx.check(s.isSeedTempNet() == seed, "two character convention")
    ctx.check(s.isTempNetHistorical() == hist, "historical convention")
    ctx.check(s.isTempNetConvention() == conv, "convention of a year at the end")
    ctx.check(s.isTemporary() == (seed | hist | conv), "temporary")
    if seed | hist | conv:
        ctx.check(s.validate()[0], "a temporary code is a valid one")
        ctx.reach("temporary")
    else:
        ctx.reach("permanent")


def cases(tier):
    out = []
    for n in range(0, 12 if tier == "quick" else 30):
        for how in ("made", "parsed", "channel"):
            out.append(dict(name=f"net-{n}-{how}", fn=net, params=dict(n=n, how=how),
                            must=["permanent"] + (["temporary"] if n in (2, 5, 6, 7, 8) else []),
                            bound=f"every code of {n} characters"))
    return out
