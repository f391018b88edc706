"""C08: encoding codes, data types and names."""
import array
import struct
import numpy as np
import simplemseed
from simplemseed import seedcodec, CodecException, UnsupportedCompressionType

OUTSIDE = "encoding codes outside -1000 to 1000"
KNOWN = {1: ("i2", "h", 2), 3: ("i4", "i", 4), 4: ("f4", "f", 4), 5: ("f8", "d", 8)}
NAMES = {0: "text", 1: "16-bit integer", 3: "32-bit integer", 4: "32-bit float", 5: "64-bit float",
         10: "steim-1", 11: "steim-2", 19: "steim-3", 100: "opaque"}


def codes(ctx, how):
    """Every code: the helpers agree about it."""
    e = ctx.int("encoding", -1000, 1000)
    fl, prim, can = seedcodec.isFloatCompression(e), seedcodec.isPrimitiveCompression(e), seedcodec.canDecompress(e)
    for k in (0, 1, 2, 3, 4, 5, 10, 11, 16, 19, 30, 32, 100):
        if e == k:
            e = k
            break
    ctx.check(fl == (e in (4, 5)), "is floating point")
    ctx.check(prim == (e in (1, 3, 4, 5)), "is primitive")
    ctx.check(can == (e in (1, 3, 4, 5, 10, 11)), "can be decompressed")
    r, a = ctx.call(seedcodec.numpyDTFromMseed3Encoding, e), ctx.call(seedcodec.arrayTypecodeFromMSeed, e)
    if e in KNOWN:
        dt, code, size = KNOWN[e]
        ctx.check(r.ok and np.dtype(r.value) == np.dtype(dt), "numpy type")
        ctx.check(a.ok, "array code: " + a.exname)
        z = array.array(a.value, [0])
        ctx.check(z.itemsize == size and np.dtype(a.value).kind == np.dtype(dt).kind, "array code")
        ctx.check(seedcodec.mseed3EncodingFromNumpyDT(np.dtype(r.value)) == e, "encoding of the numpy type")
        ctx.check(seedcodec.mseed3EncodingFromArrayTypecode(a.value, z.itemsize) == e, "encoding of the array code")
        ctx.reach("known")
    else:
        for x, what in ((r, "numpy type"), (a, "array code")):
            ctx.check(not x.ok and isinstance(x.exc, UnsupportedCompressionType), what + " of another code: " + x.exname)
        ctx.reach("other")
    # decompression: exactly the codes that can be
    n = 0 if how == "none" else 1
    d = ctx.call(seedcodec.decompress, e, b"", n, True)
    if n == 0:
        # a record without samples may have any code
        ctx.check(d.ok and len(d.value) == 0, "decompressing nothing: " + d.exname)
    elif can or e == 32:
        # 32 is read as 16 bit integers, which is not announced
        ctx.check(not d.ok and isinstance(d.exc, CodecException), "decompressing nothing: " + d.exname)
    else:
        ctx.check(not d.ok and isinstance(d.exc, UnsupportedCompressionType), "decompressing: " + d.exname)
    # encoding
    c = ctx.call(seedcodec.encode, np.zeros(1, "i2"), e) if how == "some" else None
    if c is not None:
        if e in KNOWN:
            ctx.check(c.ok and c.value.compressionType == e and bytes(c.value.dataBytes) == bytes(KNOWN[e][2]), "encoding")
        elif e < 0:
            ctx.check(c.ok and c.value.compressionType == 1, "guessed encoding")
        else:
            ctx.check(not c.ok and isinstance(c.exc, UnsupportedCompressionType), "encoding with another code: " + c.exname)


def names(ctx):
    e = ctx.choice("encoding", list(range(-2, 130)))
    t = seedcodec.encodingName(e).lower()
    if e in NAMES:
        ctx.check(t.startswith(NAMES[e]), "name")
    elif e not in (2, 16, 30, 32):
        ctx.check(str(e) in t, "name of an unknown code")
    ctx.check(isinstance(t, str) and len(t) > 0, "text")
    ctx.reach("ok")


DTYPES = ["i1", "u1", "i2", "u2", "i4", "u4", "i8", "u8", "f2", "f4", "f8", "c8", "S3", "U3", "?"]


def dtypes(ctx):
    """Only the four types have an encoding, whatever their byte order."""
    d = ctx.choice("dtype", DTYPES)
    o = ctx.choice("order", ["<", ">", "="])
    dt = np.dtype(o + d) if d not in ("i1", "u1", "?") else np.dtype(d)
    r = ctx.call(seedcodec.mseed3EncodingFromNumpyDT, dt)
    want = {v[0]: k for k, v in KNOWN.items()}.get(d)
    if want is None:
        ctx.check(not r.ok and isinstance(r.exc, UnsupportedCompressionType), f"{d} has an encoding")
        g = ctx.call(seedcodec.encode, np.zeros(2, dt))
        ctx.check(not g.ok and isinstance(g.exc, UnsupportedCompressionType), f"{d} is encoded")
    else:
        ctx.check(r.ok and r.value == want, f"encoding of {d}")
        ctx.check(seedcodec.encode(np.zeros(2, dt)).compressionType == want, f"encoding guessed for {d}")
    ctx.reach("ok")


def arrays(ctx):
    """Arrays of the standard library."""
    t = ctx.choice("typecode", list("bBhHiIlLqQfd"))
    z = array.array(t, [0, 0])
    r = ctx.call(seedcodec.mseed3EncodingFromArrayTypecode, t, z.itemsize)
    want = {("i", 2): 1, ("i", 4): 3, ("f", 4): 4, ("f", 8): 5}.get((np.dtype(t).kind, z.itemsize))
    if want is None:
        ctx.check(not r.ok and isinstance(r.exc, UnsupportedCompressionType), f"{t} has an encoding")
        g = ctx.call(seedcodec.encode, z)
        ctx.check(not g.ok and isinstance(g.exc, UnsupportedCompressionType), f"{t} is encoded")
    else:
        ctx.check(r.ok and r.value == want, f"encoding of {t}")
        ctx.check(seedcodec.encode(z).compressionType == want, f"encoding guessed for {t}")
    ctx.reach("ok")


def sizes(ctx):
    """Any item size of an array."""
    t = ctx.choice("typecode", list("hilfdbq"))
    n = ctx.int("itemsize", 0, 64)
    r = ctx.call(seedcodec.mseed3EncodingFromArrayTypecode, t, n)
    for k, want in (("hil", {2: 1, 4: 3}), ("fd", {4: 4, 8: 5})):
        for size, e in want.items():
            if t in k and n == size:
                ctx.check(r.ok and r.value == e, "encoding")
                ctx.reach("known")
                return
    ctx.check(not r.ok and isinstance(r.exc, UnsupportedCompressionType), "another size: " + r.exname)
    ctx.reach("other")


def bytesdata(ctx):
    """Bytes are not samples."""
    e = ctx.choice("encoding", [None, -1, 1, 3, 4, 5, 10, 11])
    b = ctx.bytes("b", 4)
    r = ctx.call(seedcodec.encode, b, e)
    ctx.check(not r.ok and isinstance(r.exc, UnsupportedCompressionType), "bytes are encoded: " + r.exname)
    r = ctx.call(seedcodec.encode, [1, 2], ctx.choice("e", [None, -1]))
    ctx.check(not r.ok and isinstance(r.exc, UnsupportedCompressionType), "a guess for a list: " + r.exname)
    ctx.reach("ok")


def cases(tier):
    two = ["known", "other"]
    return [dict(name="codes-none", fn=codes, params=dict(how="none"), must=two, bound="every code from -1000 to 1000"),
            dict(name="codes-some", fn=codes, params=dict(how="some"), must=two, bound="every code from -1000 to 1000"),
            dict(name="names", fn=names, params={}, bound="the codes -2 to 129", max_paths=500),
            dict(name="dtypes", fn=dtypes, params={}, bound="the listed numpy types", max_paths=500),
            dict(name="arrays", fn=arrays, params={}, bound="every numeric array type"),
            dict(name="sizes", fn=sizes, params={}, must=two, bound="every item size to 64"),
            dict(name="bytes", fn=bytesdata, params={}, bound="any four bytes")]
