"""S01: parsing and formatting of source identifiers."""
from simplemseed import FDSNSourceId, NetworkSourceId, StationSourceId, LocationSourceId
from simplemseed.fdsnsourceid import FDSNSourceIdException

OUTSIDE = "codes longer than stated"
ANY = ((0, 94), (96, 0x10FFFF))
SOME = ((1, 94), (96, 0x7FF))
NAMES = ["networkCode", "stationCode", "locationCode", "bandCode", "sourceCode", "subsourceCode"]
TYPES = {1: NetworkSourceId, 2: StationSourceId, 3: LocationSourceId, 6: FDSNSourceId}


def text(codes):
    t = "FDSN:" + codes[0]
    for c in codes[1:]:
        t = t + "_" + c
    return t


def trip(ctx, sizes, how):
    """Format and parse."""
    n = len(sizes)
    c = [ctx.str(NAMES[i], k, ((48, 57), (65, 90)) if how == "upper" else SOME) for i, k in enumerate(sizes)]
    net = NetworkSourceId(c[0]) if how == "object" and n > 1 else c[0]
    sid = TYPES[n](net, *c[1:])
    t = str(sid)
    ctx.check(t == text(c), "text")
    q = FDSNSourceId.parse(t)
    ctx.check(type(q) is TYPES[n], "level")
    for i in range(n):
        ctx.check(getattr(sid, NAMES[i]) == c[i], f"{NAMES[i]} of the identifier")
        ctx.check(getattr(q, NAMES[i]) == c[i], f"{NAMES[i]} parsed")
    ctx.check(q == sid, "equal")
    ctx.check(str(q) == t, "same text")
    ctx.reach("ok")


def parse(ctx, n):
    """Any text of a length."""
    s = ctx.str("text", n, SOME)
    t = "FDSN:" + s
    # any number of separators, anywhere
    where = [ctx.bool(f"sep{i}") for i in range(n)]
    u = "".join("_" if w else s[i] for i, w in enumerate(where))
    r = ctx.call(FDSNSourceId.parse, "FDSN:" + u)
    k = 1 + sum(1 for w in where if w)
    if k in TYPES:
        ctx.check(r.ok, "not parsed: " + r.exname)
        ctx.check(type(r.value) is TYPES[k], "level")
        ctx.check(str(r.value) == "FDSN:" + u, "same text")
        ctx.check(FDSNSourceId.parse(str(r.value)) == r.value, "equal")
        at, i = [], 0
        cur = ""
        for i, w in enumerate(where):
            if w:
                at.append(cur)
                cur = ""
            else:
                cur = cur + s[i]
        at.append(cur)
        for i in range(k):
            ctx.check(getattr(r.value, NAMES[i]) == at[i], NAMES[i])
        ctx.reach("parsed")
    else:
        ctx.check(not r.ok and isinstance(r.exc, FDSNSourceIdException), "wrong number of codes: " + r.exname)
        ctx.reach("refused")


def prefix(ctx, n):
    """Another prefix is refused."""
    p = ctx.str("prefix", n, ((0, 0xD7FF),))
    rest = ctx.choice("rest", ["", "CO", "CO_JSC_00_H_H_Z"])
    t = p + rest
    ctx.assume(t[:5] != "FDSN:")
    r = ctx.call(FDSNSourceId.parse, t)
    ctx.check(not r.ok and isinstance(r.exc, FDSNSourceIdException), "parsed without the prefix: " + r.exname)
    ctx.reach("ok")


def noloc(ctx):
    """No location code is the empty one."""
    c = ctx.str("net", 2, ((48, 57), (65, 90)))
    a = LocationSourceId(c, "ABC", None)
    b = FDSNSourceId(c, "ABC", None, "B", "H", "Z")
    ctx.check(str(a) == "FDSN:" + c + "_ABC_", "location")
    ctx.check(str(b) == "FDSN:" + c + "_ABC__B_H_Z", "channel")
    ctx.check((a.locationCode == "") & (b.locationCode == ""), "empty")
    for x in (a, b):
        ctx.check(FDSNSourceId.parse(str(x)) == x, "equal")
    ctx.reach("ok")


def unknown(ctx):
    """Identifiers for data without a real one."""
    net, sta = ctx.str("net", ctx.choice("nn", [0, 2]), ((65, 90),)), ctx.str("sta", ctx.choice("ns", [0, 4]), ((65, 90),))
    loc = ctx.str("loc", 2, ((48, 57),))
    src, sub = ctx.str("src", 1, ((65, 90),)), ctx.str("sub", 1, ((65, 90),))
    r = FDSNSourceId.createUnknown(ctx.choice("rate", [None, 100, 0.5]), src, networkCode=net, stationCode=sta,
                                   locationCode=loc, subsourceCode=sub)
    ctx.check((r.sourceCode == src) & (r.subsourceCode == sub) & (r.locationCode == loc), "codes")
    ctx.check(r.networkCode == (net if len(net) else "XX"), "network")
    ctx.check(r.stationCode == (sta if len(sta) else "ABC"), "station")
    ctx.check(FDSNSourceId.parse(str(r)) == r, "equal")
    ctx.check(r.validate()[0], "valid")
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    S = [(2,), (8,), (0,), (1, 1), (2, 5), (8, 8), (2, 0), (0, 0), (2, 5, 2), (2, 4, 0), (8, 8, 8), (0, 0, 0),
         (2, 5, 2, 1, 1, 1), (2, 4, 0, 1, 1, 1), (8, 8, 8, 1, 3, 2), (2, 4, 2, 1, 1, 0), (2, 4, 2, 0, 2, 0),
         (0, 0, 0, 0, 0, 0), (1, 9, 3, 2, 12, 5)]
    if not q:
        S = S + [(30, 30), (30, 30, 30), (30, 30, 30, 30, 30, 30), (3, 3, 3, 3, 3, 3)]
    for s in S:
        nm = "".join(map(str, s))
        for how in ("upper", "any") + (("object",) if len(s) > 1 else ()):
            out.append(dict(name=f"trip-{nm}-{how}", fn=trip, params=dict(sizes=s, how=how),
                            bound=f"codes of {s} characters other than the separator"))
    for n in range(0, 9 if q else 12):
        out.append(dict(name=f"parse-{n}", fn=parse, params=dict(n=n), weight=1 + n, must=["parsed"] + ["refused"] * (n > 2),
                        bound=f"every text of {n} characters after the prefix", max_paths=20000))
    for n in range(0, 8 if q else 12):
        out.append(dict(name=f"prefix-{n}", fn=prefix, params=dict(n=n), bound=f"every prefix of {n} characters"))
    out.append(dict(name="noloc", fn=noloc, params={}, bound="any network of two characters"))
    out.append(dict(name="unknown", fn=unknown, params={}, bound="any codes of the lengths"))
    return out
