"""S04: levels of source identifiers and equality."""
from simplemseed import FDSNSourceId, NetworkSourceId, StationSourceId, LocationSourceId, NslcId

OUTSIDE = "codes longer than stated; codes with the separator in them, which are not valid"
SOME = ((0, 94), (96, 0x7FF))
NAMES = ["networkCode", "stationCode", "locationCode", "bandCode", "sourceCode", "subsourceCode"]
TYPES = {1: NetworkSourceId, 2: StationSourceId, 3: LocationSourceId, 6: FDSNSourceId}


def codes(ctx, sizes, tag="", ranges=SOME):
    return [ctx.str(n + tag, k, ranges) for n, k in zip(NAMES, sizes)]


def same(ctx, sid, cls, want, what):
    ctx.check(type(sid) is cls, what + ": level")
    for n, w in zip(NAMES, want):
        ctx.check(getattr(sid, n) == w, f"{what}: {n}")


def levels(ctx, sizes):
    c = codes(ctx, sizes)
    sid = FDSNSourceId(*c)
    loc, sta, net = sid.locationSourceId(), sid.stationSourceId(), sid.networkSourceId()
    same(ctx, loc, LocationSourceId, c[:3], "location of a channel")
    same(ctx, sta, StationSourceId, c[:2], "station of a channel")
    same(ctx, net, NetworkSourceId, c[:1], "network of a channel")
    same(ctx, loc.stationSourceId(), StationSourceId, c[:2], "station of a location")
    same(ctx, loc.networkSourceId(), NetworkSourceId, c[:1], "network of a location")
    same(ctx, sta.networkSourceId(), NetworkSourceId, c[:1], "network of a station")
    s2 = net.createStationSourceId(c[1])
    same(ctx, s2, StationSourceId, c[:2], "station built")
    l2 = s2.createLocationSourceId(c[2])
    same(ctx, l2, LocationSourceId, c[:3], "location built")
    f2 = l2.createFDSNSourceId(*c[3:])
    same(ctx, f2, FDSNSourceId, c, "channel built")
    ctx.check((s2 == sta) & (l2 == loc) & (f2 == sid), "equal")
    ctx.check((str(s2) == str(sta)) & (str(l2) == str(loc)) & (str(f2) == str(sid)), "alike")
    # from the network itself rather than its code
    same(ctx, StationSourceId(net, c[1]), StationSourceId, c[:2], "station of a network object")
    same(ctx, LocationSourceId(net, c[1], c[2]), LocationSourceId, c[:3], "location of a network object")
    same(ctx, FDSNSourceId(net, *c[1:]), FDSNSourceId, c, "channel of a network object")
    same(ctx, sid, FDSNSourceId, c, "unchanged")
    ctx.reach("ok")


def equal(ctx, a, b):
    """Two identifiers of one level."""
    n = len(a)
    x, y = codes(ctx, a, "1"), codes(ctx, b, "2")
    if n == 4:
        p, q = NslcId(*x), NslcId(*y)
    else:
        p, q = TYPES[n](*x), TYPES[n](*y)
    want = a == b
    for i in range(n):
        if len(x[i]) == len(y[i]):
            want = want & (x[i] == y[i])
    ctx.check((p == q) == want, "equal exactly when the codes are")
    ctx.check((q == p) == want, "the other way round")
    ctx.check((p != q) != want, "unequal")
    ctx.check((str(p) == str(q)) == want, "same text exactly when equal")
    ctx.check(p == p, "itself")
    if want:
        ctx.reach("equal")
    else:
        ctx.reach("unequal")


def others(ctx, sizes):
    """Identifiers of different levels or types are never equal."""
    c = codes(ctx, sizes)
    chan = ctx.str("chan", 3, SOME)
    all_ = [NetworkSourceId(c[0]), StationSourceId(c[0], c[1]), LocationSourceId(c[0], c[1], c[2]),
            FDSNSourceId(*c), NslcId(c[0], c[1], c[2], chan)]
    # codes which make the text of another level
    all_ = all_ + [NetworkSourceId(c[0] + "_" + c[1]), StationSourceId(c[0], c[1] + "_" + c[2]),
                   NetworkSourceId(c[0] + "_" + c[1] + "_" + c[2]),
                   LocationSourceId(c[0], c[1], c[2] + "_" + c[3] + "_" + c[4] + "_" + c[5])]
    for i, p in enumerate(all_):
        for q in all_:
            if type(p) is not type(q):
                ctx.check(not (p == q), "equal to one of another level")
                ctx.check(p != q, "not unequal to one of another level")
        for o in (str(p), None, 1, c[0], (c[0],), {"networkCode": c[0]}):
            ctx.check(not (p == o), "equal to something else")
            ctx.check(p != o, "not unequal to something else")
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    for s in ((2, 5, 2, 1, 1, 1), (2, 3, 0, 1, 2, 0), (8, 8, 8, 1, 3, 3), (1, 1, 1, 0, 1, 1), (0, 0, 0, 0, 0, 0)):
        nm = "".join(map(str, s))
        out.append(dict(name=f"levels-{nm}", fn=levels, params=dict(sizes=s), bound=f"any codes of {s} characters"))
        out.append(dict(name=f"others-{nm}", fn=others, params=dict(sizes=s), bound=f"any codes of {s} characters"))
    S = [(2,), (8,), (2, 3), (1, 1, 0), (2, 3, 2), (1, 3, 2, 1, 2, 1), (2, 4, 0, 1, 1, 0), (2, 4, 2, 3), (1, 1, 1, 1)]
    pairs = [(a, a) for a in S]
    U = [((2,), (3,)), ((1, 2), (2, 1)), ((0, 1), (1, 0)), ((1, 0, 1), (1, 1, 0)), ((1, 2, 0), (1, 0, 2)),
         ((1, 1, 1, 0, 1, 1), (1, 1, 1, 1, 1, 0)), ((1, 1, 0, 1, 1, 1), (1, 0, 1, 1, 1, 1)),
         ((1, 1, 0, 1, 2, 1), (1, 1, 0, 1, 1, 2)), ((1, 2, 0, 3), (1, 0, 2, 3)), ((2, 3, 2, 3), (2, 3, 0, 3))]
    for a, b in pairs + U:
        out.append(dict(name="equal-" + "".join(map(str, a)) + "-" + "".join(map(str, b)), fn=equal,
                        params=dict(a=a, b=b), must=["equal", "unequal"] if a == b else ["unequal"],
                        bound=f"any codes of {a} and {b} characters without separators"))
    return out
