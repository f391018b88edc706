"""D03: miniSEED2 records survive packing and unpacking at their exact length."""
import struct
from array import array
import numpy as np
import simplemseed
from simplemseed import MiniseedHeader, MiniseedRecord, EncodedDataSegment
from simplemseed.miniseed import (BTime, Blockette100, Blockette1000, Blockette1001, BlocketteUnknown,
                                  unpackMiniseedRecord, readMiniseed2Records, MiniseedException)
import io

OUTSIDE = ("records longer than 32768 bytes; more than four blockettes; more samples than stated; codes and "
           "start time are fixed (D01, D05)")
DT = {1: "i2", 3: "i4", 4: "f4", 5: "f8"}
RAW = {501: 9, 502: 14, 503: 1}      # lengths of other blockettes
SIZE = {1: 2, 3: 4, 4: 4, 5: 8}
T = BTime(2024, 60, 1, 2, 3, 4567)


def header(ctx, big, exp, rate=20, **k):
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", T, 0, rate, byteorder=1 if big else 0,
                       actFlag=ctx.bits("act", 8), ioFlag=ctx.bits("io", 8), qualFlag=ctx.bits("qual", 8),
                       timeCorr=ctx.int("corr", -2 ** 31, 2 ** 31 - 1), sequence_number=123456,
                       dataquality=ctx.choice("quality", ["D", "M"]), **k)
    h.recordLengthExp = exp
    h.recordLength = 2 ** exp
    return h


def blockettes(ctx, kinds, h):
    out = []
    for k in kinds:
        if k == 100:
            out.append(Blockette100(100, 0, ctx.choice("b100", [20.0, 31.25])))
        elif k == 1000:
            out.append(Blockette1000(1000, 0, h.encoding, h.byteorder, h.recordLengthExp))
        elif k == 1001:
            out.append(Blockette1001(1001, 0, ctx.bits("timeq", 8), ctx.int("micro", 0, 99), ctx.bits("frames", 8)))
        else:
            # type and offset come first in the raw bytes of any blockette
            raw = struct.pack(">HH" if h.byteorder else "<HH", k, 0) + ctx.bytes(f"raw{k}", RAW.get(k, 12))
            out.append(BlocketteUnknown(k, 0, raw))
    return out


SAME = ["network", "station", "location", "channel", "sequence_number", "dataquality", "numSamples",
        "actFlag", "ioFlag", "qualFlag", "timeCorr", "encoding", "byteorder", "recordLengthExp",
        "recordLength"]


def same_header(ctx, g, h, n, kinds, big, exp, enc):
    for k in SAME:
        ctx.check(getattr(g, k) == getattr(h, k), k)
    ctx.check((g.numSamples == n) & (g.encoding == enc) & (g.recordLength == 2 ** exp), "what was set")
    ctx.check(g.numBlockettes == len(kinds), "number of blockettes")
    ctx.check((g.dataOffset >= 56) & (g.dataOffset <= 2 ** exp) & (g.blocketteOffset == 48), "offsets")


def same_blockettes(ctx, r, want, kinds, big, b):
    ctx.check([x.blocketteNum for x in r.blockettes] == list(kinds), "blockette types in order")
    e = ">" if big else "<"
    at = 48
    for i, (x, w) in enumerate(zip(r.blockettes, want)):
        k = x.blocketteNum
        num, nxt = struct.unpack(e + "HH", b[at:at + 4])
        ctx.check(num == k, "blockette type at its offset")
        last = i == len(want) - 1
        ctx.check((nxt == 0) == last and x.nextOffset == nxt, "chain of blockettes")
        if k == 100:
            ctx.check(x.sampleRate == w.sampleRate, "actual sample rate")
        elif k == 1000:
            ctx.check((x.encoding == r.header.encoding) & (x.byteorder == r.header.byteorder)
                      & (x.recLength == r.header.recordLengthExp), "blockette 1000")
        elif k == 1001:
            ctx.check((x.timeQuality == w.timeQuality) & (x.microseconds == w.microseconds)
                      & (x.frameCount == w.frameCount), "blockette 1001")
        else:
            n = len(w.rawBytes)
            ctx.check(bytes(x.rawBytes)[4:n] == w.rawBytes[4:], "bytes of another blockette")
            ctx.check(len(x.rawBytes) == n or last, "length of another blockette")
        at = nxt


def same_samples(ctx, r, x, enc):
    y = r.decompress()
    ctx.check(len(y) == len(x), "number of samples")
    for i in range(len(x)):
        ctx.check(y[i] == x[i], f"sample {i}")


def dtype(enc, big):
    return (">" if big else "<") + DT[enc]


def trip(ctx, enc, big, exp, n, kinds, rate=20, how="array"):
    x = samples(ctx, enc, big, n)
    h = header(ctx, big, exp, rate, encoding=enc)
    full = kinds if 1000 in kinds else (1000,) + tuple(kinds)
    want = blockettes(ctx, kinds, h)
    mine = list(want)
    if 1000 not in kinds:
        want = [None] + want
    if enc in (10, 11):
        enc_fn = simplemseed.encodeSteim1 if enc == 10 else simplemseed.encodeSteim2
        data = EncodedDataSegment(enc, enc_fn(x), n, False)
    elif how == "raw":
        data = x.tobytes()
        h.numSamples = n
    else:
        data = x
    r = MiniseedRecord(h, data, blockettes=mine)
    b = bytes(r.pack())
    ctx.check(len(b) == 2 ** exp, "record length")
    g = unpackMiniseedRecord(b)
    same_header(ctx, g.header, h, n, full, big, exp, enc)
    same_blockettes(ctx, g, want, full, big, b)
    ctx.check(g.starttime() == r.starttime() or 1001 in kinds, "start time")
    ctx.check(g.header.sampleRate == (rate if 100 not in kinds else [w for w in want if w is not None and
              w.blocketteNum == 100][0].sampleRate), "sample rate")
    ctx.check(bytes(g.pack()) == b, "packing what was read")
    same_samples(ctx, g, x, enc)
    ctx.check(bytes(g.pack()) == b, "packing what was read and decompressed")
    if enc not in (10, 11) and how == "array":
        same_samples(ctx, r, x, enc)
    c = r.clone()
    ctx.check(bytes(c.pack()) == b, "packing a copy")
    same_samples(ctx, c, x, enc)
    k = list(readMiniseed2Records(io.BytesIO(b + b)))
    ctx.check(len(k) == 2 and bytes(k[1].pack()) == b, "two records in a row")
    ctx.reach("ok")


def samples(ctx, enc, big, n):
    if n > 20:
        # the first two (not for Steim) and the last two arbitrary
        lo, hi = (-2000, 2000) if enc > 5 else (-2 ** 15, 2 ** 15 - 1) if enc == 1 else (-2 ** 31, 2 ** 31 - 1)
        v = [50000 * (i % 2) if enc != 1 else i % 3 for i in range(n)]
        for i in (n - 2, n - 1) if enc > 5 else (0, 1, n - 2, n - 1):
            v[i] = ctx.int(f"x{i}", lo, hi)
        return np.array(v, dtype="i4" if enc > 5 else dtype(enc, big))
    if enc in (10, 11):
        return ctx.array("x", "i4", n, -2000, 2000)
    if enc in (1, 3):
        return ctx.array("x", dtype(enc, big), n)
    if enc == 4:
        v = [ctx.f32(f"x{i}") for i in range(n)]
    else:
        v = [ctx.f64(f"x{i}") for i in range(n)]
    for q in v:
        ctx.assume(q == q)
    return np.array(v, dtype=dtype(enc, big))


def toobig(ctx, enc, big, exp, kinds, ns, how):
    """Data is packed exactly when it fits."""
    n = ctx.choice("n", ns)
    h = header(ctx, big, exp, encoding=enc)
    mine = blockettes(ctx, kinds, h)
    off = 48 + sum({100: 12, 1000: 8, 1001: 8}.get(k, 16) for k in kinds) + (8 if 1000 not in kinds else 0)
    if enc in (10, 11):
        off = (off + 63) // 64 * 64
        size = 64 * n
        seg = EncodedDataSegment(enc, ctx.bytes("data", 4) + bytes(64 * n - 4), 4, not big)
        r = MiniseedRecord(h, seg, blockettes=mine)
    else:
        size = SIZE[enc] * n
        if how == "raw":
            h.numSamples = n
            data = ctx.bytes("data", 4) + bytes(size - 4)
        else:
            data = np.zeros(n, dtype=dtype(enc, big))
        r = MiniseedRecord(h, data, blockettes=mine)
    p = ctx.call(r.pack)
    if off + size <= 2 ** exp:
        ctx.check(p.ok and len(p.value) == 2 ** exp, "data that fits: " + ("length" if p.ok else p.exname))
        ctx.check(len(unpackMiniseedRecord(bytes(p.value)).encodedDataBytes) >= size, "all data kept")
        ctx.reach("fits")
    else:
        ctx.check(not p.ok and isinstance(p.exc, MiniseedException), "too much data: " +
                  ("packed" if p.ok else p.exname))
        ctx.reach("refused")


def foreign(ctx, big, layout):
    """Records of other writers: blockettes in any order with gaps, data further on."""
    e = ">" if big else "<"
    # (type, offset) in chain order, data offset
    chain, doff, exp = layout
    x = [ctx.int(f"x{i}", -2 ** 31, 2 ** 31 - 1) for i in range(3)]
    raw = ctx.bytes("raw", 8)
    tq = ctx.bits("timeq", 8)
    b = bytearray(2 ** exp)
    b[0:48] = (b"123456D ABC  00BHZXX" + struct.pack(
        e + "HHBBBBHHhhBBBBiHH", 2024, 60, 1, 2, 3, 0, 4567, 3, 20, 1, ctx.bits("act", 8), 0, 0, len(chain), 0,
        doff, chain[0][1]))
    for i, (k, at) in enumerate(chain):
        nxt = chain[i + 1][1] if i + 1 < len(chain) else 0
        b[at:at + 4] = struct.pack(e + "HH", k, nxt)
        if k == 1000:
            b[at + 4:at + 8] = struct.pack("BBBB", 3, 1 if big else 0, exp, 0)
        elif k == 100:
            b[at + 4:at + 12] = struct.pack(e + "f", 31.25) + bytes(4)
        elif k == 1001:
            b[at + 4:at + 8] = struct.pack("BB", 0, 0) + bytes(2)
            b[at + 4] = tq
        else:
            b[at + 4:at + 12] = raw
    b[doff:doff + 12] = struct.pack(e + "iii", *x)
    b = bytes(b)
    r = unpackMiniseedRecord(b + b"junk")
    ctx.check([k.blocketteNum for k in r.blockettes] == [k for k, _ in chain], "blockettes in order")
    for k in r.blockettes:
        if k.blocketteNum == 100:
            ctx.check(k.sampleRate == 31.25 and r.header.sampleRate == 31.25, "actual sample rate")
        elif k.blocketteNum == 1001:
            ctx.check(k.timeQuality == tq, "time quality")
        elif k.blocketteNum == 1000:
            ctx.check((k.encoding == 3) & (k.recLength == exp), "blockette 1000")
        else:
            ctx.check(bytes(k.rawBytes)[4:12] == raw, "other blockette")
    same_samples(ctx, r, x, 3)
    ctx.check(r.header.recordLength == 2 ** exp, "record length")
    two = list(readMiniseed2Records(io.BytesIO(b + b)))
    ctx.check(len(two) == 2, "exactly the record is read")
    c = r.clone()
    ctx.check(len(c.pack()) == 2 ** exp, "length of a copy")
    same_samples(ctx, c, x, 3)
    ctx.check([k.blocketteNum for k in c.blockettes] == [k for k, _ in chain], "blockettes of a copy")
    ctx.reach("ok")


LAYOUTS = [([(1000, 48)], 56, 7), ([(1000, 48)], 64, 7), ([(1000, 48), (1001, 56)], 64, 7),
           ([(100, 48), (1000, 60)], 68, 7), ([(1000, 56)], 64, 7), ([(1000, 48), (500, 56)], 72, 7),
           ([(500, 48), (1000, 60)], 128, 8), ([(1001, 64), (100, 80), (1000, 100)], 192, 8),
           ([(1000, 48), (500, 64), (1001, 80)], 100, 9), ([(1000, 48), (201, 56), (500, 68)], 80, 8)]


def kinds_of(ctx, kind):
    """array.array, lists and bytes."""
    big = False
    v = [ctx.int(f"x{i}", -2 ** 15, 2 ** 15 - 1) for i in range(3)]
    h = header(ctx, big, 8, encoding=-1)
    if kind == "list":
        h.encoding = 3
        r = MiniseedRecord(h, v)
        enc = 3
    elif kind == "none":
        r = MiniseedRecord(h, None)
        h.encoding = 0
        h.numSamples = 0
        b = bytes(r.pack())
        ctx.check(len(b) == 256, "length")
        g = unpackMiniseedRecord(b)
        ctx.check(g.header.numSamples == 0, "no samples")
        ctx.reach("ok")
        return
    else:
        r = MiniseedRecord(h, array(kind, v))
        enc = {"h": 1, "i": 3, "f": 4, "d": 5}[kind]
    b = bytes(r.pack())
    g = unpackMiniseedRecord(b)
    ctx.check((len(b) == 256) & (g.header.encoding == enc) & (g.header.numSamples == 3), "header from the data")
    same_samples(ctx, g, v, enc)
    ctx.reach("ok")


def mismatch(ctx):
    """A header that disagrees with its data is refused."""
    n = ctx.int("n", 0, 10)
    enc = ctx.choice("enc", [-1, 1, 3, 4, 5, 10])
    h = MiniseedHeader("XX", "ABC", "00", "BHZ", T, n, 20, encoding=enc)
    r = ctx.call(MiniseedRecord, h, ctx.array("x", "i4", 3))
    good = ((n == 0) | (n == 3)) & (enc in (-1, 3))
    if r.ok:
        ctx.check(good, "accepted")
        ctx.check((h.numSamples == 3) & (h.encoding == 3), "header follows the data")
        ctx.reach("ok")
    else:
        ctx.check(not good and isinstance(r.exc, MiniseedException), "refused: " + r.exname)
        ctx.reach("refused")


def cases(tier):
    q = tier == "quick"
    out = []
    for k in ((501,), (1000, 502), (1001, 503), (501, 1000), (1000, 503, 502)):
        for big in (True, False):
            out.append(dict(name=f"odd-{'big' if big else 'little'}-{'+'.join(map(str, k))}", fn=trip,
                            params=dict(enc=3, big=big, exp=8, n=2, kinds=k), weight=3,
                            bound=f"blockettes {k}, others with {RAW} bytes after their start"))
    combos = [(), (100,), (1001,), (1000, 100), (100, 1000, 1001), (1000, 500), (500, 1000), (1001, 500, 1000, 100)]
    i = 0
    for enc in (1, 3, 4, 5, 10, 11):
        for big in (True, False):
            if enc in (10, 11) and not big:
                continue
            for j, c in enumerate(combos):
                if q and enc in (4, 5) and j % 2:
                    continue
                exp = (7, 8, 9, 12)[i % 4] if enc < 10 else (8, 9)[i % 2]
                i += 1
                n = 3
                if exp == 7 and (enc == 5 or len(c) > 2):
                    exp = 8
                out.append(dict(name=f"trip-{enc}-{'big' if big else 'little'}-{'+'.join(map(str, c)) or 'none'}",
                                fn=trip, params=dict(enc=enc, big=big, exp=exp, n=n, kinds=c,
                                                     how="raw" if i % 3 == 0 else "array"), weight=3,
                                bound=f"encoding {enc}, {n} samples of any value" + (" up to 2000" if enc > 5 else "")
                                + f", record of {2 ** exp} bytes, blockettes {c}"))
    for enc, exp, n, c in ((3, 12, 1008, ()), (1, 13, 4000, (100, 1001)), (3, 15, 6000, (1001,)), (1, 9, 224, ()),
                           (11, 12, 700, ()), (10, 13, 1500, (1001,)), (3, 9, 100, (1000, 500))):
        for big in (True, False):
            if enc < 10 or big:
                out.append(dict(name=f"large-{enc}-{exp}-{'big' if big else 'little'}", fn=trip, weight=20,
                                params=dict(enc=enc, big=big, exp=exp, n=n, kinds=c),
                                bound=f"encoding {enc}, {n} samples, the first and last two (Steim: last two) arbitrary, record of {2 ** exp} bytes, "
                                f"blockettes {c}"))
    for enc, exp, kinds, ns, how in ((3, 7, (), [17, 18, 19], "array"), (1, 7, (1001,), [31, 32, 33], "array"),
                                     (5, 8, (100,), [22, 23, 24], "array"), (3, 7, (), [17, 18, 19], "raw"),
                                     (10, 7, (), [1, 2], "seg"), (11, 8, (1000, 500), [2, 3, 4], "seg"),
                                     (4, 9, (), [113, 114, 115, 500], "raw")):
        for big in (True, False):
            out.append(dict(name=f"fit-{enc}-{exp}-{how}-{'big' if big else 'little'}", fn=toobig,
                            params=dict(enc=enc, big=big, exp=exp, kinds=kinds, ns=ns, how=how),
                            must=["fits", "refused"],
                            bound=f"encoding {enc}, sizes {ns}, record of {2 ** exp} bytes"))
    for i, l in enumerate(LAYOUTS):
        for big in (True, False):
            out.append(dict(name=f"foreign-{i}-{'big' if big else 'little'}", fn=foreign,
                            params=dict(big=big, layout=l), bound=f"layout {l}, any three samples"))
    for k in ("h", "i", "f", "d", "list", "none"):
        out.append(dict(name=f"data-{k}", fn=kinds_of, params=dict(kind=k), bound="any three 16 bit samples"))
    out.append(dict(name="mismatch", fn=mismatch, params={}, must=["ok", "refused"],
                    bound="sample counts 0 to 10, six encodings"))
    return out
