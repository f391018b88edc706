"""C07: primitive encodings round trip bit for bit."""
import array
import importlib
import struct
import numpy as np
import simplemseed
from simplemseed import seedcodec, CodecException, UnsupportedCompressionType
from simplemseed.seedcodec import SHORT, INTEGER, FLOAT, DOUBLE

OUTSIDE = ("more samples than stated (the code treats every sample alike); the payload of a "
           "signalling NaN; ASCII, INT24 and the other encodings the library does not decode")
KIND = {SHORT: "i2", INTEGER: "i4", FLOAT: "f4", DOUBLE: "f8"}
CODE = {SHORT: "h", INTEGER: "i", FLOAT: "f", DOUBLE: "d"}
SIZE = {SHORT: 2, INTEGER: 4, FLOAT: 4, DOUBLE: 8}


def same(ctx, a, b, enc):
    """Values equal bit for bit (any quiet NaN for a NaN)."""
    if enc in (SHORT, INTEGER):
        return a == b
    return ((a == b) & (struct.pack(">d", a) == struct.pack(">d", b))) | ((a != a) & (b != b))


def roundtrip(ctx, enc, n, little, how):
    if how == "swapped":
        x = ctx.array("x", (">" if little else "<") + KIND[enc], n)
    else:
        x = ctx.array("x", KIND[enc], n)
    v = [e.item() for e in x]
    if how == "array":
        x = array.array(CODE[enc], v)
    elif how == "list":
        x = v
    arg = None if how in ("array", "guess") else enc
    r = ctx.call(seedcodec.encode, x, arg, little)
    ctx.check(r.ok, "refused: " + r.exname)
    seg = r.value
    ctx.check(seg.compressionType == enc, "encoding of the segment")
    ctx.check(seg.numSamples == n, "sample count of the segment")
    b = seg.dataBytes
    ctx.check(len(b) == n * SIZE[enc], "number of bytes")
    fmt = ("<" if little else ">") + CODE[enc]
    for i in range(n):
        got = struct.unpack(fmt, b[i * SIZE[enc]:(i + 1) * SIZE[enc]])[0]
        ctx.check(same(ctx, got, v[i], enc), f"byte layout of sample {i}")
    y = seg.decode()
    z = seedcodec.decompress(enc, b, n, little)
    for name, out in (("decode", y), ("decompress", z)):
        ctx.check(len(out) == n, name + ": count")
        for i in range(n):
            ctx.check(same(ctx, out[i].item(), v[i], enc), f"{name}: sample {i}")
    if enc in (SHORT, INTEGER):
        ctx.observe("bytes", b)
        ctx.observe("y", y)
    ctx.reach("ok")


def large(ctx, enc, n, little):
    """Many samples, of which a few are arbitrary."""
    x = np.zeros(n, dtype=KIND[enc])
    at = sorted({1, 255, 256, n // 2, n - 1})
    v = {}
    for i in at:
        v[i] = ctx.array(f"x{i}", KIND[enc], 1)[0].item()
        x[i] = v[i]
    seg = seedcodec.encode(x, enc, little)
    b = seg.dataBytes
    ctx.check((seg.numSamples == n) & (len(b) == n * SIZE[enc]), "sample count and bytes")
    fmt = ("<" if little else ">") + CODE[enc]
    y = seg.decode()
    z = seedcodec.decompress(enc, b, n, little)
    ctx.check((len(y) == n) & (len(z) == n), "count")
    for i in at:
        got = struct.unpack(fmt, b[i * SIZE[enc]:(i + 1) * SIZE[enc]])[0]
        ctx.check(same(ctx, got, v[i], enc), f"byte layout of sample {i}")
        for out in (y, z):
            ctx.check(same(ctx, out[i].item(), v[i], enc), f"sample {i}")
            ctx.check(out[i - 1].item() == 0 or (i - 1) in v, f"sample {i - 1}")
    ctx.reach("ok")


def payload(ctx, enc, little, nbytes, maxn):
    """Any payload: exactly the samples asked for, or refused."""
    b = ctx.bytes("b", nbytes)
    n = ctx.int("n", 0, maxn)
    r = ctx.call(seedcodec.decompress, enc, b, n, little)
    size = 2 if enc == seedcodec.DWWSSN else SIZE[enc]
    if not r.ok:
        ctx.check(isinstance(r.exc, CodecException), "raised " + r.exname)
        ctx.check(nbytes < n * size, "refused although there are enough bytes")
        ctx.reach("refused")
        return
    ctx.check(n * size <= nbytes, "not enough bytes but accepted")
    ctx.check(len(r.value) == n, "count")
    kind = "h" if enc == seedcodec.DWWSSN else CODE[enc]
    fmt = ("<" if little else ">") + kind
    for i in range(len(r.value)):
        want = struct.unpack(fmt, b[i * size:(i + 1) * size])[0]
        ctx.check(same(ctx, r.value[i].item(), want, SHORT if kind == "h" else enc), f"sample {i}")
    ctx.reach("ok")


def unsupported(ctx, lo, hi):
    enc = ctx.int("encoding", lo, hi)
    # as Steim: one frame whose first data word holds one to seven differences
    b = bytes([0, ctx.int("ctl", 0, 3), 0, 0]) + ctx.bytes("b", 60)
    r = ctx.call(seedcodec.decompress, enc, b, 1, False)
    known = (enc == 1) | (enc == 3) | (enc == 4) | (enc == 5) | (enc == 10) | (enc == 11) | \
        (enc == 32)
    if r.ok:
        ctx.check(known, "undefined encoding decoded")
        ctx.reach("ok")
    else:
        ctx.check(isinstance(r.exc, CodecException) |
                  isinstance(r.exc, UnsupportedCompressionType), "raised " + r.exname)
        ctx.check((not known) | (enc == 10) | (enc == 11), "known encoding refused")
        ctx.reach("refused")
    can = seedcodec.canDecompress(enc)
    ctx.check(can == (known & (enc != 32)), "canDecompress")
    ctx.check(seedcodec.isPrimitiveCompression(enc) ==
              ((enc == 1) | (enc == 3) | (enc == 4) | (enc == 5)), "isPrimitiveCompression")
    ctx.check(seedcodec.isFloatCompression(enc) == ((enc == 4) | (enc == 5)),
              "isFloatCompression")
    e = ctx.call(seedcodec.encode, [1, 2], enc)
    ctx.check(e.ok == ((enc == 1) | (enc == 3) | (enc == 4) | (enc == 5) | (enc < 0)) or enc < 0,
              "encode accepts exactly the primitive encodings")
    if not e.ok:
        ctx.check(isinstance(e.exc, UnsupportedCompressionType), "encode raised " + e.exname)


def maps(ctx, lo, hi):
    enc = ctx.int("encoding", lo, hi)
    prim = (enc == 1) | (enc == 3) | (enc == 4) | (enc == 5)
    r = ctx.call(seedcodec.numpyDTFromMseed3Encoding, enc)
    ctx.check(r.ok == prim, "numpy type for exactly the primitive encodings")
    if r.ok:
        ctx.check(seedcodec.mseed3EncodingFromNumpyDT(np.dtype(r.value)) == enc, "numpy inverse")
        t = seedcodec.arrayTypecodeFromMSeed(enc)
        size = struct.calcsize("<" + t)
        ctx.check(seedcodec.mseed3EncodingFromArrayTypecode(t, size) == enc, "array inverse")
        ctx.check(np.dtype(r.value).itemsize == size, "same width")
        ctx.reach("ok")
    else:
        ctx.check(isinstance(r.exc, UnsupportedCompressionType), "raised " + r.exname)
        r = ctx.call(seedcodec.arrayTypecodeFromMSeed, enc)
        ctx.check(not r.ok and isinstance(r.exc, UnsupportedCompressionType),
                  "array type code: " + (r.exname or "accepted"))


def dtypes(ctx):
    """Every numpy type has the encoding of its own width and kind, or none."""
    name = ctx.choice("dtype", ["i1", "i2", "i4", "i8", "u1", "u2", "u4", "u8", "f2", "f4", "f8",
                                "c8", "S4", "U4", "?"])
    order = ctx.choice("order", ["<", ">"])
    dt = np.dtype(order + name)
    r = ctx.call(seedcodec.mseed3EncodingFromNumpyDT, dt)
    want = {"i2": SHORT, "i4": INTEGER, "f4": FLOAT, "f8": DOUBLE}.get(name)
    ctx.check(r.ok == (want is not None), "accepted exactly the four types")
    if r.ok:
        ctx.check(r.value == want, "encoding")
        ctx.reach("ok")
    else:
        ctx.check(isinstance(r.exc, UnsupportedCompressionType), "raised " + r.exname)


def typecodes(ctx):
    t = ctx.choice("typecode", list("bBhHiIlLqQfd"))
    size = ctx.int("itemsize", 1, 16)
    r = ctx.call(seedcodec.mseed3EncodingFromArrayTypecode, t, size)
    if r.ok:
        ctx.check(t in "hilfd", "unsigned or small type accepted")
        ctx.check(SIZE[r.value] == size, "width of the encoding")
        ctx.check((t in "fd") == (r.value in (FLOAT, DOUBLE)), "kind of the encoding")
        ctx.reach("ok")
    else:
        ctx.check(isinstance(r.exc, UnsupportedCompressionType), "raised " + r.exname)
        good = ((t in "hil") and ((size == 2) | (size == 4))) or \
            ((t in "fd") and ((size == 4) | (size == 8)))
        ctx.check(not good, "refused")


def single(ctx, nbytes):
    """The readers of single values."""
    sf = importlib.import_module("simplemseed.steimframeblock")
    b = ctx.bytes("b", nbytes)
    at = ctx.int("at", 0, nbytes)
    little = ctx.choice("little", [True, False])
    e = "<" if little else ">"
    for f, size, code in ((sf.getInt16, 2, "h"), (sf.getInt32, 4, "i"), (sf.getUint32, 4, "I"),
                          (sf.getFloat32, 4, "f"), (seedcodec.getFloat64, 8, "d")):
        r = ctx.call(f, b, at, little)
        ctx.check(r.ok == (at + size <= nbytes), f"{size} bytes at an offset: " + (r.exname or "accepted"))
        if r.ok:
            want = struct.unpack(e + code, b[at:at + size])[0]
            ctx.check(same(ctx, r.value, want, FLOAT if code in "fd" else SHORT), "value of type " + code)
            ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    n = 3 if q else 6
    out = []
    for enc in KIND:
        for little in (True, False):
            e = "le" if little else "be"
            for how in ("numpy", "guess", "array", "list", "swapped"):
                out.append(dict(name=f"{KIND[enc]}-{e}-{how}", fn=roundtrip,
                                params=dict(enc=enc, n=n, little=little, how=how),
                                bound=f"{n} samples of {KIND[enc]}, any bits, given as {how}"))
            for k in (300, 20000) if little else (4100,):
                out.append(dict(name=f"{KIND[enc]}-{e}-large-{k}", fn=large, weight=5,
                                params=dict(enc=enc, n=k, little=little),
                                bound=f"{k} samples of {KIND[enc]}, five of them of any bits, the others zero"))
            nb = 2 * SIZE[enc] + 1 if q else 3 * SIZE[enc] + 1
            for nbytes in sorted({0, 1, SIZE[enc] - 1, SIZE[enc], 2 * SIZE[enc] - 1, nb}):
                must = ["ok", "refused"]
                out.append(dict(name=f"{KIND[enc]}-{e}-payload-{nbytes}", fn=payload, must=must,
                                params=dict(enc=enc, little=little, nbytes=nbytes, maxn=5),
                                bound=f"any {nbytes} bytes, 0 to 5 samples asked for"))
    for little in (True, False):
        out.append(dict(name=f"dwwssn-payload-{little}", fn=payload, must=["ok", "refused"],
                        params=dict(enc=32, little=little, nbytes=5, maxn=4),
                        bound="any 5 bytes, 0 to 4 samples"))
    out.append(dict(name="encodings", fn=unsupported, params=dict(lo=-1, hi=255),
                    must=["ok", "refused"], weight=50, bound="encoding -1 to 255, any 64 bytes"))
    out.append(dict(name="maps", fn=maps, params=dict(lo=-300, hi=300), bound="encoding +-300"))
    out.append(dict(name="single", fn=single, params=dict(nbytes=10), bound="any 10 bytes, every offset"))
    out.append(dict(name="dtypes", fn=dtypes, bound="15 numpy types, both byte orders"))
    out.append(dict(name="typecodes", fn=typecodes, bound="array type codes, item sizes 1 to 16"))
    return out
