"""M02: miniSEED3 record round trip."""
import array
import struct
import numpy as np
import simplemseed
from simplemseed import MSeed3Header, MSeed3Record, FDSNSourceId, unpackMSeed3Record
from simplemseed import seedcodec
from simplemseed.seedcodec import SHORT, INTEGER, FLOAT, DOUBLE, STEIM1, STEIM2

OUTSIDE = ("longer identifiers, extra headers and sample vectors than stated; surrogate code "
           "points, which have no UTF-8 form")
KIND = {SHORT: "i2", INTEGER: "i4", FLOAT: "f4", DOUBLE: "f8"}
CODE = {SHORT: "h", INTEGER: "i", FLOAT: "f", DOUBLE: "d"}
ANY = ((0, 0xD7FF), (0xE000, 0x10FFFF))
SCALARS = ["flags", "nanosecond", "year", "dayOfYear", "hour", "minute", "second",
           "sampleRatePeriod", "publicationVersion"]


def header(ctx, small=False):
    h = MSeed3Header()
    if small:
        h.year = ctx.int("year", 0, 65535)
        return h
    h.flags = ctx.bits("flags", 8)
    h.nanosecond = ctx.bits("nanosecond", 32)
    h.year = ctx.bits("year", 16)
    h.dayOfYear = ctx.bits("dayOfYear", 16)
    h.hour = ctx.bits("hour", 8)
    h.minute = ctx.bits("minute", 8)
    h.second = ctx.bits("second", 8)
    h.sampleRatePeriod = ctx.f64("rate")
    h.publicationVersion = ctx.bits("publicationVersion", 8)
    return h


def same(a, b):
    return (a == b) | ((a != a) & (b != b))


def compare(ctx, rec, want, b, identifier, eh, n):
    """rec was packed to b; check what b says and what it unpacks to."""
    ctx.check(rec.getSize() == len(b), "size after packing")
    r = ctx.call(unpackMSeed3Record, b)
    ctx.check(r.ok, "cannot be unpacked: " + r.exname)
    g = r.value
    ctx.check(g.getSize() == len(b), "size after unpacking")
    ctx.check(g.header.recordSize() == len(b), "record size of the header")
    for k in SCALARS:
        if k in want:
            ctx.check(same(getattr(g.header, k), want[k]), k)
    ctx.check(g.identifier == identifier, "identifier")
    ctx.check(g.header.identifierLength == len(identifier.encode("utf-8")), "identifier length")
    ctx.check(g.header.numSamples == n, "sample count")
    ctx.check(len(b) == 40 + g.header.identifierLength + g.header.extraHeadersLength
              + g.header.dataLength, "lengths add up")
    if eh is None:
        ctx.check(g.header.extraHeadersLength == 0, "extra header length")
        ctx.check(not g.hasExtraHeaders(), "no extra headers")
    ctx.check(g.header.crc == rec.header.crc, "crc kept in the header")
    ctx.check(g.pack() == b, "packing again gives the same bytes")
    return g


def samples(ctx, enc, n, how):
    h = header(ctx)
    want = {k: getattr(h, k) for k in SCALARS}
    x = ctx.array("x", KIND[enc], n)
    v = [e.item() for e in x]
    data = x
    if how == "array":
        data = array.array(CODE[enc], v)
    elif how == "bytes":
        data = seedcodec.encode(x).dataBytes
        h.encoding = enc
        h.numSamples = n
    elif how == "list":
        h.encoding = enc
        data = v
    elif how == "segment":
        data = seedcodec.encode(x)
    elif how == "bigsegment":
        data = seedcodec.encode(x, littleEndian=False)
    rec = MSeed3Record(h, "FDSN:XX_S__B_H_Z", data)
    b = rec.pack()
    ctx.check(rec.header.encoding == enc, "encoding")
    g = compare(ctx, rec, want, b, "FDSN:XX_S__B_H_Z", None, n)
    ctx.check(g.header.encoding == enc, "encoding read")
    for r in (rec, g, g.clone(), g.decompressedRecord()):
        y = r.decompress()
        ctx.check(len(y) == n, "count")
        for i in range(n):
            ctx.check(same(y[i].item(), v[i]), f"sample {i}")
    d = g.decompressedRecord()
    ctx.check((d.getSize() is None) or d.getSize() == len(d.pack()), "size before packing")
    if enc in (SHORT, INTEGER):
        ctx.observe("b", b)
    ctx.reach("ok")


def steim(ctx, enc, n):
    h = header(ctx, small=True)
    h.encoding = enc
    h.numSamples = n
    x = ctx.array("x", "i4", n, -(1 << 27), 1 << 27)
    comp = simplemseed.encodeSteim1(x) if enc == STEIM1 else simplemseed.encodeSteim2(x)
    rec = MSeed3Record(h, "FDSN:XX_S__B_H_Z", comp)
    b = rec.pack()
    g = compare(ctx, rec, dict(year=h.year), b, "FDSN:XX_S__B_H_Z", None, n)
    ctx.check(g.header.dataLength == 64, "data length")
    d = g.decompressedRecord()
    for r in (g, d):
        y = r.decompress()
        ctx.check(len(y) == n, "count")
        for i in range(n):
            ctx.check(y[i] == x[i], f"sample {i}")
    ctx.check(d.header.encoding == INTEGER, "encoding of the decompressed record")
    ctx.check((d.getSize() is None) or d.getSize() == len(d.pack()), "size before packing")
    e = unpackMSeed3Record(d.pack())
    for i in range(n):
        ctx.check(e.decompress()[i] == x[i], f"sample {i} after decompressing and packing")
    ctx.check(g.header.encoding == enc, "the original is unchanged")
    ctx.reach("ok")


def identifier(ctx, n, ranges):
    h = header(ctx, small=True)
    s = ctx.str("id", n, ranges)
    x = ctx.array("x", "i2", 1)
    rec = MSeed3Record(h, s, x)
    b = rec.pack()
    g = compare(ctx, rec, dict(year=h.year), b, s, None, 1)
    ctx.check(g.decompress()[0] == x[0], "sample")
    ctx.reach("ok")


def sourceid(ctx, a, c, d, e):
    alnum = ((48, 57), (65, 90))
    sid = FDSNSourceId(ctx.str("n", a, alnum), ctx.str("s", c, alnum), ctx.str("l", d, alnum),
                       "B", "H", ctx.str("ss", e, alnum))
    text = str(sid)
    h = header(ctx, small=True)
    rec = MSeed3Record(h, sid, ctx.array("x", "i4", 1))
    ctx.check(rec.parseIdentifier() == sid, "identifier of the record")
    b = rec.pack()
    g = compare(ctx, rec, dict(year=h.year), b, text, None, 1)
    ctx.check(g.parseIdentifier() == sid, "identifier read")
    ctx.reach("ok")


def nodata(ctx, how):
    h = header(ctx, small=True)
    if how == "bytes":
        h.encoding = ctx.bits("encoding", 8)
        data = b""
    elif how == "opaque":
        h.encoding = 100
        h.numSamples = ctx.int("n", 0, 1000)
        data = ctx.bytes("data", 5)
    elif how == "text":
        h.encoding = 0
        h.numSamples = 4
        data = ctx.bytes("data", 4)
    else:
        data = None
    rec = MSeed3Record(h, "FDSN:XX_S__L_O_G", data)
    b = rec.pack()
    n = h.numSamples
    g = compare(ctx, rec, dict(year=h.year), b, "FDSN:XX_S__L_O_G", None, n)
    ctx.check(g.header.encoding == h.encoding, "encoding")
    ctx.check(bytes(g.encodedDataBytes()) == (data if data is not None else b""), "payload")
    ctx.reach("ok")


def extra(ctx, kind, n):
    h = header(ctx, small=True)
    s = ctx.str("s", n, ((32, 126), (0xA1, 0x2FF), (0x20AC, 0x20AC), (0x1F600, 0x1F64F)))
    num = 17 if kind != "str" else ctx.int("num", -120, 120)
    if kind == "dict":
        eh = {"FDSN": {"Time": {"Quality": num}, "é": s}, "B": [num, None, True, s]}
        rec = MSeed3Record(h, "FDSN:XX_S__B_H_Z", ctx.array("x", "i2", 1), eh)
    elif kind == "text":
        s = ctx.str("t", n, ((35, 91), (0xA1, 0x2FF), (0x20AC, 0x20AC), (0x1F600, 0x1F64F)))
        eh = {"k": s}
        rec = MSeed3Record(h, "FDSN:XX_S__B_H_Z", ctx.array("x", "i2", 1), '{"k": "' + s + '"}')
    else:
        eh = {"k": num}
        rec = MSeed3Record(h, "FDSN:XX_S__B_H_Z", ctx.array("x", "i2", 1), '{"k": ' + str(num) + "}")
    b = rec.pack()
    g = compare(ctx, rec, dict(year=h.year), b, "FDSN:XX_S__B_H_Z", eh, 1)
    ctx.check(g.hasExtraHeaders(), "has extra headers")
    ctx.check(g.eh == eh, "extra headers")
    ctx.check(g.decompress()[0] == rec.decompress()[0], "sample")
    ctx.reach("ok")


def large(ctx, idn, ehn, size):
    """Long parts, whose ends are arbitrary."""
    h = header(ctx, small=True)
    h.encoding = 100
    h.numSamples = ctx.bits("n", 32)
    n = h.numSamples
    s = ctx.str("id", 2, ((32, 126),)) + "I" * (idn - 3) + ctx.str("id2", 1, ((32, 126),))
    eh = None
    if ehn:
        eh = {"k": ctx.str("eh", 1, ((97, 122),)) + "v" * (ehn - 2) + ctx.str("eh2", 1, ((97, 122),))}
    x = bytes(0)
    if size:
        x = ctx.bytes("x", 2) + bytes(size - 4) + ctx.bytes("x2", 2)
    rec = MSeed3Record(h, s, x, eh)
    b = rec.pack()
    ctx.check(len(b) == 40 + idn + rec.header.extraHeadersLength + size, "record length")
    g = compare(ctx, rec, dict(year=h.year), b, s, eh, n)
    ctx.check((g.header.extraHeadersLength >= ehn) & (g.header.dataLength == size), "lengths")
    ctx.check(bytes(g.encodedDataBytes()) == x, "payload")
    if eh is not None:
        ctx.check(g.eh == eh, "extra headers")
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    n = 2 if q else 4
    out = []
    for enc in KIND:
        for how in ("numpy", "array", "list", "bytes", "segment", "bigsegment"):
            out.append(dict(name=f"{KIND[enc]}-{how}", fn=samples,
                            params=dict(enc=enc, n=n, how=how),
                            bound=f"{n} samples of {KIND[enc]} given as {how}, all header fields"))
        out.append(dict(name=f"{KIND[enc]}-empty", fn=samples, params=dict(enc=enc, n=0, how="numpy"),
                        bound="no samples"))
    for enc in (STEIM1, STEIM2):
        for k in (1, 3):
            out.append(dict(name=f"steim-{enc}-{k}", fn=steim, params=dict(enc=enc, n=k), weight=5,
                            bound=f"Steim, {k} samples of 28 bits"))
    for k in ((0, 1, 2) if q else (0, 1, 2, 3, 4)):
        out.append(dict(name=f"id-any-{k}", fn=identifier, params=dict(n=k, ranges=ANY),
                        weight=4 ** k, bound=f"identifier of {k} characters, any Unicode"))
    out.append(dict(name="id-ascii-20", fn=identifier, params=dict(n=20, ranges=((0, 127),)),
                    bound="identifier of 20 ASCII characters"))
    out.append(dict(name="id-wide-60", fn=identifier, params=dict(n=60, ranges=((0x10000, 0x1FFFF),)),
                    bound="identifier of 60 four byte characters"))
    for p in ((2, 4, 2, 1), (2, 1, 0, 0), (8, 8, 8, 8)):
        out.append(dict(name="sid-%d-%d-%d-%d" % p, fn=sourceid, params=dict(zip("acde", p)),
                        bound=f"FDSN source id with codes of lengths {p}"))
    for k in ("none", "bytes", "opaque", "text"):
        out.append(dict(name="nodata-" + k, fn=nodata, params=dict(how=k), bound=k))
    for k in ((0, 1, 2) if q else (0, 1, 2, 3)):
        out.append(dict(name=f"eh-dict-{k}", fn=extra, params=dict(kind="dict", n=k), weight=9 ** k,
                        bound=f"nested extra headers with {k} character texts"))
    for k in ((0, 1, 2) if q else (0, 1, 2, 3)):
        out.append(dict(name=f"eh-text-{k}", fn=extra, params=dict(kind="text", n=k), weight=9 ** k,
                        bound=f"extra headers given as text with {k} free characters"))
    for p in ((255, 0, 10), (128, 300, 300), (3, 65500, 5), (4, 0, 70000), (200, 40000, 66000)):
        out.append(dict(name="large-%d-%d-%d" % p, fn=large, params=dict(zip(("idn", "ehn", "size"), p)), weight=5,
                        bound="identifier of %d bytes, text in the extra headers of %d, payload of %d" % p))
    out.append(dict(name="eh-str", fn=extra, params=dict(kind="str", n=0), bound="text extra headers with a number of +-120"))
    return out
