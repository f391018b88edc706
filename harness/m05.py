"""M05: stream reading returns every miniSEED3 record in order, filtered exactly."""
import re
import simplemseed
from simplemseed import MSeed3Header, MSeed3Record, readMSeed3Records

OUTSIDE = ("more records than stated, longer identifiers, patterns other than the listed ones; "
           "the meaning of a pattern itself is that of Python's re")


def build(ctx, name, idn, ehn, n, alphabet, fixed=False):
    h = MSeed3Header()
    h.flags = ctx.bits(name + ".flags", 8)
    h.year = 2001 if fixed else ctx.bits(name + ".year", 16)
    s = ctx.str(name + ".id", min(idn, 3), alphabet) + "C" * max(0, idn - 3)
    if ehn > 50:
        eh = '{"a":"' + ctx.str(name + ".eh", 2, ((97, 122),)) + "x" * (ehn - 2) + '"}'
    else:
        eh = '{"a":"' + ctx.str(name + ".eh", ehn, ((97, 122),)) + '"}' if ehn > 0 else "{}" if ehn else None
    if n < 0:
        h.encoding = 100
        h.numSamples = 5
        if n < -50:
            x = ctx.bytes(name + ".x", 2) + bytes(-n - 4) + ctx.bytes(name + ".xe", 2)
        else:
            x = ctx.bytes(name + ".x", -n)
    else:
        x = ctx.array(name + ".x", "i2", n)
    rec = MSeed3Record(h, s, x, eh)
    return bytes(rec.pack()), s


def read(ctx, shapes, pattern, crc, alphabet, verbose=False):
    data = b""
    want = []
    for k, (a, e, n) in enumerate(shapes):
        b, s = build(ctx, f"r{k}", a, e, n, alphabet, verbose)
        data = data + b
        if pattern is None or re.search(pattern, s) is not None:
            want.append((b, s))
    if crc is None:
        r = ctx.call(lambda: list(readMSeed3Records(ctx.file(data), matchsid=pattern,
                                                    verbose=verbose)))
    else:
        r = ctx.call(lambda: list(readMSeed3Records(ctx.file(data), check_crc=crc,
                                                    matchsid=pattern)))
    ctx.check(r.ok, "reading failed: " + r.exname)
    ctx.check(len(r.value) == len(want), "number of records")
    for k, (m, (b, s)) in enumerate(zip(r.value, want)):
        ctx.check(m.identifier == s, f"identifier of record {k}")
        ctx.check(m.getSize() == len(b), f"size of record {k}")
        ctx.check(m.pack() == b, f"contents of record {k}")
    ctx.observe("n", len(want))
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    uni = ((65, 67), (0xE9, 0xE9))
    ab = ((65, 67),)
    groups = {
        "one": [(2, 0, 1)],
        "three": [(2, 0, 1), (3, 2, 2), (1, 0, -3)],
        "skip": [(2, 3, 2), (2, 0, 0), (2, 1, -5)],
        "empty": [(0, 0, 0), (1, 0, 0), (0, 2, 1)],
        "large": [(255, 0, -300), (1, 700, -1), (1, 0, -5000), (2, 1, 1)],
        "huge": [(1, 0, -70000), (1, 65000, -1), (2, 1, 1)],
        "bare": [(1, -1, 1), (1, -1, 0), (1, 0, 1)],
    }
    if not q:
        groups.update({"four": [(2, 1, 1), (1, 0, 3), (2, 2, -2), (1, 0, 0)],
                       "long": [(6, 0, 2), (6, 3, 2)], "five": [(1, 0, 1)] * 5})
    pats = [None, "A", "^A", "B$", "A.", "[AB]C", "AB|C", "^$", "(?i)b", "C?A", "^[^A]*$"]
    for g, shapes in groups.items():
        for p in pats:
            if q and g in ("one", "empty") and p not in (None, "A", "^$"):
                continue
            out.append(dict(name=f"{g}-{p}", fn=read, weight=3 if p else 1,
                            params=dict(shapes=shapes, pattern=p, crc=None,
                                        alphabet=ab if p else ((32, 126),)),
                            bound=f"records with (identifier, extra header, payload) sizes "
                            f"{shapes}, pattern {p}, identifiers over "
                            f"{'A to C' if p else 'ASCII'}"))
        out.append(dict(name=f"{g}-nocrc", fn=read,
                        params=dict(shapes=shapes, pattern=None, crc=False, alphabet=((32, 126),)),
                        bound="as above, CRC check off"))
        out.append(dict(name=f"{g}-nocrc-B", fn=read,
                        params=dict(shapes=shapes, pattern="B", crc=False, alphabet=ab),
                        bound="as above, CRC check off, pattern B"))
    out.append(dict(name="unicode", fn=read, params=dict(shapes=[(1, 0, 1), (2, 2, 1)],
                    pattern="A", crc=None, alphabet=uni), bound="identifiers over A, B, C, é"))
    out.append(dict(name="unicode-dot", fn=read, params=dict(shapes=[(2, 1, 1), (1, 0, 1)],
                    pattern="^..$", crc=True, alphabet=uni), bound="identifiers over A, B, C, é"))
    mixed = ((65, 66), (97, 98))
    for p in ("A", "b$", "^a", "[AB]b", "(?i)b"):
        out.append(dict(name=f"case-{p}", fn=read, params=dict(shapes=[(2, 0, 1), (1, 2, 0)], pattern=p, crc=None,
                        alphabet=mixed), bound=f"identifiers over A, B, a, b, pattern {p}"))
    out.append(dict(name="none", fn=read, params=dict(shapes=[], pattern=None, crc=None,
                    alphabet=ab), bound="an empty stream"))
    out.append(dict(name="verbose", fn=read, params=dict(shapes=[(1, 0, 1), (1, 0, 1)],
                    pattern="A", crc=None, alphabet=ab, verbose=True), bound="verbose reading"))
    return out
