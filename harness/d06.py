"""D06: stream reading returns every miniSEED2 record in order, filtered exactly."""
import re
import struct
from simplemseed.miniseed import readMiniseed2Records, unpackMiniseedRecord

OUTSIDE = ("more records than stated; patterns other than the listed ones; the meaning of a pattern "
           "itself is that of Python's re; records without a blockette 1000 other than of 512 bytes")


def record(ctx, name, big, exp, n, chain=(1000,), doff=64, sta=2, enc=3, codes=None, seq="000001", quality=None):
    """The bytes of a record, with its station code."""
    e = ">" if big else "<"
    s = ctx.str(name + ".sta", sta, ((65, 67),)) if codes is None else codes
    size = 2 ** exp
    if quality is None:
        quality = ctx.str(name + ".quality", 1, ((65, 90),))
    b = (seq + quality + " ").encode("ascii") + (s + " " * (5 - len(s))).encode("ascii") + b"00BHZXX"
    b = b + struct.pack(e + "HHBBBBHHhhBBBBiHH", 2024, 60, 1, 2, 3, 0, ctx.int(name + ".tenth", 0, 9999), n, 20, 1,
                        ctx.bits(name + ".act", 8), 0, 0, len(chain), 0, doff, 48 if chain else 0)
    for i, k in enumerate(chain):
        at = len(b)
        body = {1000: struct.pack("BBBB", enc, 1 if big else 0, exp, 0), 1001: struct.pack("BBBB", 1, 0, 0, 1),
                100: struct.pack(e + "f", 20.0) + bytes(4)}.get(k)
        if body is None:
            body = ctx.bytes(name + ".raw", 8)
        b = b + struct.pack(e + "HH", k, at + 4 + len(body) if i + 1 < len(chain) else 0) + body
    top = doff if doff else len(b)
    b = b + bytes(top - len(b))
    x = [ctx.int(f"{name}.x{i}", -2 ** 31, 2 ** 31 - 1) if i < 3 or i == n - 1 else i for i in range(n)]
    if n:
        b = b + struct.pack(e + f"{n}i", *x)
    return b + bytes(size - len(b)), s, x


SHAPES = {
    "one": [dict(exp=7, n=3)],
    "sizes": [dict(exp=7, n=2), dict(exp=9, n=1), dict(exp=8, n=3)],
    "kinds": [dict(exp=8, n=1, chain=(1000, 1001)), dict(exp=7, n=2), dict(exp=9, n=0, doff=0)],
    "other": [dict(exp=8, n=2, chain=(500, 1000), doff=72), dict(exp=12, n=1), dict(exp=7, n=1, doff=56)],
    "mixed": [dict(exp=8, n=1, chain=(100, 1000, 1001), doff=128), dict(exp=10, n=1, chain=(1000, 500), doff=80),
              dict(exp=7, n=1)],
    "large": [dict(exp=12, n=1000), dict(exp=16, n=9000, chain=(1000, 1001)), dict(exp=7, n=1)],
    "blank": [dict(exp=7, n=1, quality=" ", seq="     7"), dict(exp=7, n=1, seq="999999"),
              dict(exp=8, n=1, quality=" ", seq="000000")],
    "bare": [dict(exp=9, n=0, chain=(), doff=0), dict(exp=7, n=1)],
}


def read(ctx, shape, orders, pattern):
    data, want = b"", []
    for i, (k, big) in enumerate(zip(SHAPES[shape], orders)):
        b, s, x = record(ctx, f"r{i}", big, **k)
        data = data + b
        sid = "FDSN:XX_" + s + "_00_B_H_Z"
        if pattern is None or re.search(pattern, sid) is not None:
            want.append((b, s, x, k, big))
    if pattern is None:
        r = ctx.call(lambda: list(readMiniseed2Records(ctx.file(data))))
    else:
        r = ctx.call(lambda: list(readMiniseed2Records(ctx.file(data), matchsid=pattern)))
    ctx.check(r.ok, "reading failed: " + r.exname)
    ctx.check(len(r.value) == len(want), "number of records")
    for i, (m, (b, s, x, k, big)) in enumerate(zip(r.value, want)):
        h = m.header
        ctx.check(h.station == s, f"station of record {i}")
        ctx.check((h.recordLength == len(b)) & (h.numSamples == len(x)), f"size of record {i}")
        ctx.check(h.endianChar == (">" if big else "<"), f"byte order of record {i}")
        ctx.check(tuple(q.blocketteNum for q in m.blockettes) == k.get("chain", (1000,)), f"blockettes of record {i}")
        p = bytes(h.pack())
        ctx.check((p[6:39] == b[6:39]) & (int(p[:6].decode("ascii")) == int(k.get("seq", "000001"))),
                  f"header of record {i}")
        if x:
            y = m.decompress()
            for j, v in enumerate(x):
                ctx.check(y[j] == v, f"sample {j} of record {i}")
    ctx.observe("n", len(want))
    ctx.reach("ok")


def truncated(ctx, shape, orders, cut):
    """Whatever is left of the last record, it is not returned as one."""
    data, want = b"", []
    for i, (k, big) in enumerate(zip(SHAPES[shape], orders)):
        b, s, x = record(ctx, f"r{i}", big, **k)
        data = data + b
        want.append((b, s, x))
    last = len(want[-1][0])
    # bytes left of the last record
    n = ctx.choice("left", [k for k in cut if k < last] + [last - 1])
    f = ctx.file(data[:len(data) - last + n])
    it = readMiniseed2Records(f)
    for i in range(len(want) - 1):
        m = next(it)
        ctx.check(m.header.station == want[i][1], f"station of record {i}")
        ctx.check(m.header.numSamples == len(want[i][2]), f"samples of record {i}")
    r = ctx.call(next, it)
    ctx.check(not r.ok, "part of a record returned")
    ctx.reach("ok")


def short(ctx, big, exp, k):
    """The same for one record from bytes."""
    b, s, x = record(ctx, "r", big, exp, k)
    n = ctx.choice("left", [48, 52, 56, 60, 64, 70, 2 ** exp - 1])
    r = ctx.call(unpackMiniseedRecord, b[:n])
    ctx.check(not r.ok, "part of a record accepted")
    r = ctx.call(unpackMiniseedRecord, b)
    ctx.check(r.ok and r.value.header.station == s, "whole record: " + r.exname)
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    pats = [None, "A", "_AB_", "^FDSN:XX_A", "FDSN:.*B.*H_Z$", "C_00|AA"]
    for i, k in enumerate(SHAPES):
        for j, orders in enumerate(((True, True, True), (False, False, False), (True, False, True))):
            for p in ([None, pats[1 + (i + j) % 5]] if q else pats):
                out.append(dict(name=f"read-{k}-{j}-{p}", fn=read, params=dict(shape=k, orders=orders, pattern=p),
                                weight=2, bound=f"{len(SHAPES[k])} records, pattern {p}, any station and samples"))
            out.append(dict(name=f"truncated-{k}-{j}", fn=truncated,
                            params=dict(shape=k, orders=orders,
                                        cut=[0, 1, 47, 48, 50, 55, 56, 60, 64, 72, 100] if q else list(range(0, 130))),
                            bound="that many bytes left of the last record"))
    for big in (True, False):
        for exp in (7, 9):
            out.append(dict(name=f"short-{exp}-{'big' if big else 'little'}", fn=short,
                            params=dict(big=big, exp=exp, k=2), bound="seven lengths"))
    return out
