"""M09: extra header edits survive and clones are independent."""
import json
import struct
import numpy as np
from simplemseed import MSeed3Header, MSeed3Record, unpackMSeed3Record

OUTSIDE = ("texts, numbers and nesting beyond the stated shapes; sequences of more edits than stated; "
           "floating point numbers other than the listed ones")
TEXT = ((32, 126), (0xA1, 0x2FF), (0x20AC, 0x20AC), (0x1F600, 0x1F64F))
ASCII = ((32, 126),)


def header(ctx):
    h = MSeed3Header()
    h.year = ctx.int("year", 0, 65535)
    h.flags = ctx.bits("flags", 8)
    h.encoding = 3
    h.numSamples = 2
    return h


def record(ctx, eh):
    return MSeed3Record(header(ctx), "FDSN:XX_S__B_H_Z", ctx.array("x", "i4", 2), eh)


def has(ctx, r, eh, where):
    """r's extra headers are eh, in memory and in the packed bytes."""
    b = bytes(r.pack())
    ctx.check(r.getSize() == len(b), where + ": size")
    n = struct.unpack_from("<H", b, 34)[0]
    ctx.check(n == len(b) - 40 - 16 - 8, where + ": recorded length")
    text = b[56:56 + n]
    g = unpackMSeed3Record(b)
    ctx.check(r.hasExtraHeaders() == (len(eh) > 0), where + ": has extra headers")
    ctx.check(g.header.extraHeadersLength == n, where + ": length read")
    if len(eh) == 0:
        ctx.check(n == 0 or json.loads(text.decode("utf-8")) == {}, where + ": bytes")
        ctx.check(not g.hasExtraHeaders(), where + ": none after reading")
        ctx.check(not g.eh, where + ": empty after reading")
        ctx.check(not r.eh, where + ": empty")
    else:
        ctx.check(json.loads(text.decode("utf-8")) == eh, where + ": bytes")
        ctx.check(g.eh == eh, where + ": read")
        ctx.check(g.hasExtraHeaders(), where + ": present after reading")
        ctx.check(r.eh == eh, where + ": kept")
    ctx.check(g.pack() == b or len(eh) == 0 or g.eh == eh, where + ": packing what was read")
    ctx.check(bytes(unpackMSeed3Record(b).pack()) == b, where + ": packing untouched")
    y = g.decompress()
    for i in range(2):
        ctx.check(y[i] == r.decompress()[i], where + ": samples")
    return b


def value(ctx, kind, k=""):
    """A JSON value; built twice it gives equal, unshared objects."""
    if kind in ("text", "texts"):
        s = ctx.str("s" + k, len(kind) - 3, TEXT)
        return lambda: s
    if kind == "quote":
        s = ctx.str("s" + k, 1, ((0, 127),))
        return lambda: "a" + s + "b"
    if kind == "key":
        s = ctx.choice("s" + k, ["a", "", "é", "a/b", "~", "\U0001F600", '"', "\\", "null"])
        return lambda: {s: [s]}
    if kind == "number":
        v = ctx.int("v" + k, -20, 20)
        return lambda: v
    if kind == "big":
        v = ctx.choice("v" + k, [2 ** 53 + 1, -2 ** 63, 10 ** 30, 0])
        return lambda: v
    if kind == "float":
        v = ctx.choice("v" + k, [0.1, -0.0, 1e-300, 1.7976931348623157e308, 5e-324, 2.0, 1e22])
        return lambda: v
    if kind == "bool":
        v = ctx.bool("v" + k)
        return lambda: v
    if kind == "nested":
        v, s = ctx.bool("v" + k), ctx.str("s" + k, 1, ASCII)
        return lambda: {"a": [{"b": {"c": [[], {}, None, v]}}, s, [v, [s]]], "d": {"e": {}}}
    if kind == "long":
        s = ctx.str("s" + k, 20, ((97, 122),))
        return lambda: [s] * 3
    raise KeyError(kind)


def setting(ctx, kind, how):
    """Every way of giving a record extra headers."""
    v = value(ctx, kind)
    want = {"FDSN": {"Time": {"Quality": 100}}, "v": v()}
    given = {"FDSN": {"Time": {"Quality": 100}}, "v": v()}
    if how == "text":
        given = json.dumps(given)
    elif how == "utf8":
        given = json.dumps(given, ensure_ascii=False)
    elif how == "spaced":
        given = json.dumps(given, indent=2) + "\n"
    if ctx.choice("where", ["new", "set"]) == "new":
        r = record(ctx, given)
    else:
        r = record(ctx, ctx.choice("old", [None, {"old": 1}, '{"old": 1}']))
        if ctx.choice("packed", [False, True]):
            r.pack()
        r.eh = given
        size = r.getSize()
        ctx.check((size is None) or how == "dict" or size == 40 + 16 + len(given.encode("utf-8")) + 8,
                  "size once set")
    if ctx.choice("look", [False, True]):
        ctx.check(r.eh == want, "as set")
    b = has(ctx, r, want, "set")
    g = unpackMSeed3Record(b)
    has(ctx, g, want, "reread")
    has(ctx, g.clone(), want, "clone")
    has(ctx, g.decompressedRecord(), want, "decompressed")
    ctx.reach("ok")


def small(ctx, how):
    """The shortest extra headers."""
    key = ctx.str("key", ctx.choice("n", [0, 1]), ((97, 122),))
    v = ctx.choice("v", [0, 1, "", None, False, [], {}])
    want = {key: v}
    given = want if how == "dict" else json.dumps(want) if how == "text" else json.dumps(want, separators=(",", ":"))
    r = record(ctx, given)
    has(ctx, r, {key: v}, "set")
    g = unpackMSeed3Record(bytes(r.pack()))
    ctx.check(g.hasExtraHeaders(), "present after reading")
    has(ctx, g.clone(), {key: v}, "clone")
    ctx.reach("ok")


EDITS = ["dict", "text", "empty", "emptytext", "delete", "none", "item", "nested", "pop", "pack",
         "clone", "reread"]


def edits(ctx, n, first):
    """Any sequence of edits."""
    v = [ctx.str(f"v{i}", 1, ASCII) for i in range(n)]
    want = {"a": {"b": [1, 2]}}
    r = record(ctx, {"a": {"b": [1, 2]}})
    for i in range(n):
        e = first if i == 0 and first else ctx.choice(f"e{i}", EDITS)
        if e == "dict":
            r.eh = {"k": v[i], "l": [i]}
            want = {"k": v[i], "l": [i]}
        elif e == "text":
            r.eh = json.dumps({"t": {"u": v[i]}})
            want = {"t": {"u": v[i]}}
        elif e == "empty":
            r.eh = {}
            want = {}
        elif e == "emptytext":
            r.eh = "{}"
            want = {}
        elif e == "none":
            r.eh = None
            want = {}
        elif e == "delete":
            del r.eh
            want = {}
        elif e == "item":
            if r.eh is None:
                r.eh = {}
            r.eh[f"i{i}"] = [v[i]]
            want[f"i{i}"] = [v[i]]
        elif e == "nested":
            if r.eh and "a" in r.eh:
                r.eh["a"]["b"].append(v[i])
                want["a"]["b"].append(v[i])
        elif e == "pop":
            if r.eh:
                k = sorted(r.eh)[0]
                del r.eh[k]
                del want[k]
        elif e == "pack":
            r.pack()
        elif e == "clone":
            r = r.clone()
        elif e == "reread":
            r = unpackMSeed3Record(bytes(r.pack()))
        if ctx.choice(f"look{i}", [False, True]):
            ctx.check((r.eh or {}) == want, "as edited")
            ctx.check(r.hasExtraHeaders() == (len(want) > 0), "has extra headers")
    has(ctx, r, want, "edited")
    ctx.reach("ok")


CHANGES = ["item", "nested", "replace", "delete", "data", "setdata", "header", "time", "rate", "identifier", "pack"]


def independent(ctx, given, back):
    """Changing a clone never changes the original, nor the other way round."""
    s = ctx.str("s", 1, ASCII)
    want = {"a": {"b": [1, {"c": s}]}, "d": s}
    eh = {"a": {"b": [1, {"c": s}]}, "d": s}
    if given == "text":
        eh = json.dumps(eh)
    elif given == "none":
        eh, want = None, {}
    r = record(ctx, eh)
    if ctx.choice("reread", [False, True]):
        r = unpackMSeed3Record(bytes(r.pack()))
    if ctx.choice("look", [False, True]):
        r.eh
    c = r.clone()
    before = bytes(r.pack())
    ctx.check(bytes(c.pack()) == before or c.eh == want, "clone is equal")
    ctx.check((c.eh or {}) == want, "extra headers of the clone")
    a, z = (c, r) if back else (r, c)      # z is changed, a has to stay
    before = bytes(a.pack())
    change = ctx.choice("change", CHANGES)
    t = ctx.str("t", 1, ASCII)
    if change == "item":
        if z.eh is None:
            z.eh = {}
        z.eh["d"] = t
    elif change == "nested":
        if z.eh:
            z.eh["a"]["b"][1]["c"] = t
            z.eh["a"]["b"].append(t)
    elif change == "replace":
        z.eh = {"n": t}
    elif change == "delete":
        del z.eh
    elif change == "data":
        d = z._data
        if isinstance(d, np.ndarray):
            d[0] = d[0] ^ 1
    elif change == "setdata":
        z._data = np.array([1, 2], dtype=np.int32)
    elif change == "header":
        z.header.flags = z.header.flags ^ 255
        z.header.publicationVersion = 77
        z.header.numSamples = 1
        z.header.encoding = 1
    elif change == "time":
        z.header.year = 1999
        z.header.dayOfYear = 5
        z.header.nanosecond = 5
        z.header.hour = z.header.minute = z.header.second = 7
    elif change == "rate":
        z.header.sampleRatePeriod = -7.0
    elif change == "identifier":
        z.identifier = "FDSN:YY_T__B_H_Z"
    if change != "data" and change not in ("header", "setdata"):
        z.pack()
    ctx.check((a.eh or {}) == want, "extra headers of the other record")
    g = unpackMSeed3Record(bytes(a.pack()))
    ctx.check((g.eh or {}) == want, "extra headers of the other record after packing")
    ctx.check(bytes(a.pack())[0:28] == before[0:28], "header of the other record")
    ctx.check(bytes(a.pack())[-8:] == before[-8:], "samples of the other record")
    ctx.check(bytes(a.pack())[32:34] == before[32:34] and bytes(a.pack())[36:56] == before[36:56],
              "lengths and identifier of the other record")
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    for kind in ("text" if q else "texts", "quote", "key", "number", "big", "float", "bool", "nested", "long"):
        for how in ("dict", "text", "utf8", "spaced"):
            if q and how in ("utf8", "spaced") and kind in ("number", "big", "float", "bool", "long"):
                continue
            out.append(dict(name=f"set-{kind}-{how}", fn=setting, params=dict(kind=kind, how=how),
                            weight=5, bound=f"{kind} value given as {how}, set in every way"))
    for how in ("dict", "text", "compact"):
        out.append(dict(name="small-" + how, fn=small, params=dict(how=how), bound="one key of 0 or 1 letters"))
    for e in EDITS:
        out.append(dict(name=f"edits-{e}", fn=edits, params=dict(n=2 if q else 3, first=e), weight=3,
                        bound=f"{e} followed by {1 if q else 2} other edits of any kind"))
    for given in ("dict", "text", "none"):
        for back in (False, True):
            out.append(dict(name=f"clone-{given}-{'original' if back else 'clone'}", fn=independent,
                            params=dict(given=given, back=back), weight=3,
                            bound=f"extra headers given as {given}, any of the listed changes to the "
                            + ("original" if back else "clone")))
    return out
