"""M01: miniSEED3 fixed header layout and round trip."""
import struct
import simplemseed
from simplemseed import MSeed3Header, unpackMSeed3FixedHeader, Miniseed3Exception

OUTSIDE = "field values that do not fit their field (struct refuses them)"

# name, offset, size from the miniSEED3 specification
FIELDS = [("flags", 3, 1), ("nanosecond", 4, 4), ("year", 8, 2), ("dayOfYear", 10, 2),
          ("hour", 12, 1), ("minute", 13, 1), ("second", 14, 1), ("encoding", 15, 1),
          ("numSamples", 24, 4), ("crc", 28, 4), ("publicationVersion", 32, 1),
          ("identifierLength", 33, 1), ("extraHeadersLength", 34, 2), ("dataLength", 36, 4)]


def le(b, o, n):
    v = 0
    for i in range(n):
        v = v | (b[o + i] << (8 * i))
    return v


def layout(ctx):
    h = MSeed3Header()
    want = {}
    for name, o, n in FIELDS:
        v = ctx.bits(name, 8 * n)
        want[name] = v
        setattr(h, name, v)
    rate = ctx.f64("rate")
    h.sampleRatePeriod = rate
    b = h.pack()
    ctx.check(len(b) == 40, "40 bytes")
    ctx.check((b[0] == 0x4D) & (b[1] == 0x53) & (b[2] == 3), "signature and version")
    for name, o, n in FIELDS:
        ctx.check(le(b, o, n) == want[name], name + " at its position")
    rb = struct.pack("<d", rate)
    for i in range(8):
        ctx.check(b[16 + i] == rb[i], "sample rate at its position")
    g = unpackMSeed3FixedHeader(b)
    for name, o, n in FIELDS:
        ctx.check(getattr(g, name) == want[name], name + " read back")
    ctx.check(struct.pack("<d", g.sampleRatePeriod) == rb, "sample rate read back")
    ctx.check(g.recordIndicator == "MS" and g.formatVersion == 3, "constants")
    ctx.check(g.recordSize() == 40 + want["identifierLength"] + want["extraHeadersLength"]
              + want["dataLength"], "record size")
    c = g.clone()
    ctx.check(c.pack() == b, "a copy of the header packs to the same bytes")
    ctx.observe("b", b)
    ctx.reach("ok")


def anybytes(ctx, n):
    b = ctx.bytes("b", n)
    r = ctx.call(unpackMSeed3FixedHeader, b)
    if n < 40:
        ctx.check(not r.ok and isinstance(r.exc, Miniseed3Exception),
                  "too short: " + (r.exname or "accepted"))
        ctx.reach("rejected")
        return
    sig = (b[0] == 0x4D) & (b[1] == 0x53) & (b[2] == 3)
    if not r.ok:
        ctx.check(isinstance(r.exc, Miniseed3Exception), "raised " + r.exname)
        ctx.check(not sig, "rejected in spite of signature and version")
        ctx.reach("rejected")
        return
    ctx.check(sig, "wrong signature or version accepted")
    h = r.value
    for name, o, k in FIELDS:
        ctx.check(getattr(h, name) == le(b, o, k), name)
    ctx.check(struct.pack("<d", h.sampleRatePeriod) == b[16:24], "sample rate")
    ctx.check(h.pack() == b[:40], "packs back to the same bytes")
    ctx.observe("packed", h.pack())
    ctx.reach("ok")


def cases(tier):
    out = [dict(name="layout", fn=layout, bound="all field values")]
    for n in (40, 41, 60):
        out.append(dict(name=f"bytes-{n}", fn=anybytes, params=dict(n=n), must=["ok", "rejected"],
                        bound=f"any {n} bytes"))
    for n in (0, 1, 3, 16, 39):
        out.append(dict(name=f"bytes-{n}", fn=anybytes, params=dict(n=n), must=["rejected"],
                        bound=f"any {n} bytes"))
    return out
