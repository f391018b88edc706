"""S02: validation of source identifiers."""
from simplemseed import FDSNSourceId, NetworkSourceId, StationSourceId, LocationSourceId

OUTSIDE = "codes longer than stated; the length of band codes, which the specification leaves open"
ALL = ((0, 0x10FFFF),)
NAMES = ["network", "station", "location", "band", "source", "subsource"]
TYPES = {1: NetworkSourceId, 2: StationSourceId, 3: LocationSourceId, 6: FDSNSourceId}
GOOD = ["CO", "BIRD", "00", "H", "H", "Z"]


def good(i, s):
    """Whether the code of a part is one the specification allows."""
    n = len(s)
    if i < 2 and n == 0 or i == 4 and n == 0:
        return False
    if i < 3 and n > 8:
        return False
    ok = True
    for c in s:
        k = ord(c)
        ok = ok & (((k >= 48) & (k <= 57)) | ((k >= 65) & (k <= 90)) | (((k == 45)) if i in (1, 2) else False))
    if i == 2 and n == 2:
        ok = ok & ((s[0] != "-") | (s[1] != "-"))
    return ok


def verdict(ctx, sid, codes):
    v = sid.validate()
    ctx.check(len(v) == 2, "a pair")
    first = None
    for i, c in enumerate(codes):
        if not good(i, c):
            first = i
            break
    if first is None:
        ctx.check(v[0] == True, "a valid identifier is refused")  # noqa: E712
        ctx.reach("valid")
    else:
        ctx.check(v[0] == False, f"an invalid {NAMES[first]} code is accepted")  # noqa: E712
        ctx.check(v[1][:len(NAMES[first])].lower() == NAMES[first], f"the reason names {NAMES[first]}")
        ctx.reach("invalid")


def one(ctx, level, part, n):
    """Any text for one code."""
    codes = list(GOOD[:level])
    codes[part] = ctx.str("code", n, ALL)
    verdict(ctx, TYPES[level](*codes), codes)


def parsed(ctx, level, part, n):
    """Of a parsed identifier."""
    codes = list(GOOD[:level])
    codes[part] = ctx.str("code", n, ((1, 94), (96, 0x7FF)))
    t = "FDSN:" + "_".join(codes)
    verdict(ctx, FDSNSourceId.parse(t), codes)


def several(ctx, level, lens):
    """The first of several bad codes is named."""
    codes = [ctx.str(NAMES[i], lens[i], ALL) for i in range(level)]
    verdict(ctx, TYPES[level](*codes), codes)


def parts(ctx, n):
    """Levels above are judged alike."""
    codes = [ctx.str(NAMES[i], n, ALL) for i in range(3)] + GOOD[3:]
    sid = FDSNSourceId(*codes)
    verdict(ctx, sid.networkSourceId(), codes[:1])
    verdict(ctx, sid.stationSourceId(), codes[:2])
    verdict(ctx, sid.locationSourceId(), codes[:3])


def cases(tier):
    q = tier == "quick"
    out = []
    for level in TYPES:
        for part in range(level):
            for n in range(0, 11 if q else 20):
                if part == 3 and n > 1:
                    continue
                must = []
                lens = (0, 9) if part in (0, 1) else (-1, 9) if part == 2 else (-1, 99) if part != 4 else (0, 99)
                if lens[0] < n < lens[1]:
                    must.append("valid")
                if n > 0 or "valid" not in must:
                    must.append("invalid")
                if level in (1, 2, 6) or part == 2:
                    out.append(dict(name=f"one-{level}-{NAMES[part]}-{n}", fn=one, must=must,
                                    params=dict(level=level, part=part, n=n), bound=f"any {n} characters"))
            out.append(dict(name=f"parsed-{level}-{NAMES[part]}", fn=parsed, must=["valid", "invalid"],
                            params=dict(level=level, part=part, n=1 if part == 3 else 3), bound="any three characters"))
    for level, lens in ((2, (1, 1)), (3, (1, 1, 2)), (6, (1, 1, 1, 1, 1, 1)), (6, (2, 1, 2, 1, 2, 1)), (6, (2, 3, 0, 0, 1, 0))):
        out.append(dict(name="several-" + "".join(map(str, lens)), fn=several, params=dict(level=level, lens=lens),
                        must=["valid", "invalid"], weight=3, bound=f"any codes of {lens} characters"))
    for n in (1, 2):
        out.append(dict(name=f"parts-{n}", fn=parts, params=dict(n=n), must=["valid", "invalid"], weight=2,
                        bound=f"any codes of {n} characters"))
    return out
