"""S03: SEED codes and source identifiers."""
from simplemseed import FDSNSourceId, NetworkSourceId, NslcId
from simplemseed.fdsnsourceid import FDSNSourceIdException

OUTSIDE = "codes longer than stated; codes with characters other than ASCII letters and digits in long channel codes"
AN = ((48, 57), (65, 90), (97, 122))
UP = ((48, 57), (65, 90))
SOME = ((1, 45), (47, 94), (96, 0x7FF))
NAMES = ["networkCode", "stationCode", "locationCode", "bandCode", "sourceCode", "subsourceCode"]


def codes(ctx, sizes, ranges=SOME):
    return [ctx.str(n, k, ranges) for n, k in zip(("net", "sta", "loc"), sizes)]


def same(ctx, sid, want):
    for n, w in zip(NAMES, want):
        ctx.check(getattr(sid, n) == w, n)


def three(ctx, sizes, sep):
    """Three character channels, both ways."""
    c = codes(ctx, sizes)
    ch = ctx.str("chan", 3, SOME)
    want = c + [ch[0], ch[1], ch[2]]
    sid = FDSNSourceId.fromNslc(*c, ch)
    same(ctx, sid, want)
    back = sid.asNslc()
    ctx.check(back == NslcId(*c, ch), "NSLC codes")
    ctx.check((back.networkCode == c[0]) & (back.stationCode == c[1]) & (back.locationCode == c[2])
              & (back.channelCode == ch), "codes")
    ctx.check(str(back) == c[0] + "_" + c[1] + "_" + c[2] + "_" + ch, "text")
    ctx.check(sid.shortChannelCode() == ch, "channel code")
    s = sep or "."
    t = c[0] + s + c[1] + s + c[2] + s + ch
    p = FDSNSourceId.parseNslc(t) if sep is None else FDSNSourceId.parseNslc(t, sep=sep)
    same(ctx, p, want)
    ctx.check(p == sid, "parsed")
    ctx.check(FDSNSourceId.parseNslc(str(back), sep="_") == sid, "parsed text of the NSLC codes")
    ctx.reach("ok")


def longer(ctx, sizes):
    """Identifiers with longer channel codes, or without a band or a subsource."""
    c = codes(ctx, (2, 4, 2))
    k = [ctx.str(n, m, AN) for n, m in zip(("band", "source", "subsource"), sizes)]
    sid = FDSNSourceId(*c, *k)
    n = sid.asNslc()
    if sizes == (1, 1, 1):
        ctx.check(n.channelCode == k[0] + k[1] + k[2], "channel code")
    else:
        ctx.check(n.channelCode == k[0] + "_" + k[1] + "_" + k[2], "channel code")
    ctx.check(n.channelCode == sid.shortChannelCode(), "channel code of the identifier")
    back = FDSNSourceId.fromNslc(n.networkCode, n.stationCode, n.locationCode, n.channelCode)
    same(ctx, back, c + k)
    ctx.check(back == sid, "equal")
    for sep in "_.":
        t = c[0] + sep + c[1] + sep + c[2] + sep + n.channelCode
        same(ctx, FDSNSourceId.parseNslc(t, sep), c + k)
    # the long form of codes of one character
    l = k[0] + "_" + k[1] + "_" + k[2]
    same(ctx, FDSNSourceId.fromNslc(*c, l), c + k)
    ctx.reach("ok")


def channel(ctx, n):
    """Any text for a channel either gives its parts or is refused."""
    ch = ctx.str("chan", n, ((0, 0x10FFFF),))
    r = ctx.call(FDSNSourceId.fromNslc, "XX", "ABC", "00", ch)
    if r.ok:
        s = r.value
        ctx.check(("_" not in s.bandCode) & ("_" not in s.sourceCode) & ("_" not in s.subsourceCode),
                  "no separator in a part")
        ctx.check(len(s.sourceCode) > 0, "a source")
        ctx.check((s.bandCode + s.sourceCode + s.subsourceCode == ch)
                  | (s.bandCode + "_" + s.sourceCode + "_" + s.subsourceCode == ch), "every character is used")
        ctx.check(len(FDSNSourceId.parse(str(s)).sourceCode) == len(s.sourceCode), "parsed again")
        ctx.reach("ok")
    else:
        ctx.check(isinstance(r.exc, FDSNSourceIdException), "fails with " + r.exname)
        if n == 3:
            ctx.check("_" in ch, "a three character code is refused")
        ctx.reach("refused")


def fewer(ctx, k, n):
    """Text of fewer than four items is refused, more items are not dropped."""
    c = [ctx.str(f"c{i}", n, SOME) for i in range(k)]
    r = ctx.call(FDSNSourceId.parseNslc, ".".join(c))
    if k < 4:
        ctx.check(not r.ok and isinstance(r.exc, FDSNSourceIdException), "too few items: " + r.exname)
    else:
        ctx.check(not r.ok and isinstance(r.exc, FDSNSourceIdException) if (k > 4 or n != 3) else r.ok,
                  "items: " + r.exname)
    ctx.reach("ok")


def tempnet(c):
    """Two characters, the first a digit or X, Y, Z, other than XX."""
    if len(c) != 2:
        return False
    a, b = ord(c[0]), ord(c[1])
    return ((((a >= 48) & (a <= 57)) | ((a >= 88) & (a <= 90))) & (((b >= 48) & (b <= 57)) | ((b >= 65) & (b <= 90)))
            & ((a != 88) | (b != 88)))


def year(ctx, n, kind, how):
    """The start year is added to a temporary network code, and only to one."""
    net = ctx.str("net", n, ((0, 0x7FF),))
    if kind == "text":
        y = ctx.str("year", 4, ((48, 57),))
        text = y
    else:
        y = ctx.choice("year", [1880, 1904, 1994, 2000, 2024, 2100])
        text = str(y)
    if how == "network":
        s = NetworkSourceId(net, y)
    elif how == "from":
        s = FDSNSourceId.fromNslc(net, "ABC", "00", "BHZ", y)
    elif how == "parse":
        ctx.assume("." not in net)
        s = FDSNSourceId.parseNslc(net + ".ABC.00.BHZ", startYear=y)
    if tempnet(net):
        ctx.check(s.networkCode == net + text, "start year added")
        h = NetworkSourceId(s.networkCode)
        ctx.check(h.isTempNetHistorical() & (not h.isSeedTempNet()), "historical temporary network")
        ctx.check(s.networkCode[:2] == net, "SEED code")
        ctx.reach("added")
    else:
        ctx.check(s.networkCode == net, "code unchanged")
        ctx.reach("same")
    if how != "network":
        ctx.check((s.stationCode == "ABC") & (s.locationCode == "00") & (s.shortChannelCode() == "BHZ"), "codes")
    # without a year, never
    ctx.check(NetworkSourceId(net).networkCode == net, "no year")


def badyear(ctx, n, how):
    """A start year other than four digits is refused."""
    net = "XD"
    if n is None:
        y = ctx.int("year", -99999, 99999)
        ctx.assume((y < 1000) | (y > 9999))
    else:
        y = ctx.str("year", n, ((0, 0x7FF),))
        if n == 4:
            bad = False
            for c in y:
                bad = bad | (ord(c) < 48) | (ord(c) > 57)
            ctx.assume(bad)
    r = ctx.call(NetworkSourceId, net, y) if how == "network" else ctx.call(
        FDSNSourceId.fromNslc, net, "ABC", "00", "BHZ", y)
    ctx.check(not r.ok and isinstance(r.exc, FDSNSourceIdException), "a bad year: " + r.exname)
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    for s in ((2, 5, 2), (2, 3, 0), (1, 4, 2), (2, 1, 2), (8, 8, 8)):
        for sep in (None, "_") if s == (2, 5, 2) else (None,):
            out.append(dict(name="three-" + "".join(map(str, s)) + (sep or ""), fn=three, params=dict(sizes=s, sep=sep),
                            weight=2, bound=f"codes of {s} characters, any three character channel, without separators"))
    for s in ((1, 1, 1), (1, 2, 1), (1, 1, 0), (1, 3, 0), (0, 1, 1), (0, 1, 0), (0, 2, 3), (1, 1, 2), (1, 8, 8), (0, 3, 0)):
        out.append(dict(name="longer-" + "".join(map(str, s)), fn=longer, params=dict(sizes=s), weight=2,
                        bound=f"any letters and digits, channel parts of {s}"))
    for n in range(0, 7 if q else 10):
        out.append(dict(name=f"channel-{n}", fn=channel, params=dict(n=n), weight=1 + n, max_paths=20000,
                        must=["refused"] + (["ok"] if n > 2 else []), bound=f"any channel text of {n} characters"))
    for k in range(1, 7):
        for n in (0, 1, 2, 3):
            out.append(dict(name=f"items-{k}-{n}", fn=fewer, params=dict(k=k, n=n), bound=f"{k} items of {n} characters"))
    for n in (0, 1, 2, 3, 4, 6, 8):
        for kind in ("text", "number"):
            for how in ("network", "from", "parse"):
                if n != 2 and how != "network":
                    continue
                out.append(dict(name=f"year-{n}-{kind}-{how}", fn=year, params=dict(n=n, kind=kind, how=how),
                                must=["same"] + (["added"] if n == 2 else []), weight=2,
                                bound=f"any network code of {n} characters, " +
                                ("any four digits" if kind == "text" else "the listed years")))
    for n in (None, 0, 1, 2, 3, 4, 5, 6):
        for how in ("network", "from"):
            out.append(dict(name=f"badyear-{n}-{how}", fn=badyear, params=dict(n=n, how=how),
                            bound="any year of fewer or more digits" if n is None else f"any text of {n} characters"))
    return out
