"""M08: merged reading neither loses nor repeats samples."""
import importlib
from datetime import datetime, timedelta, timezone
import numpy as np
import simplemseed
from simplemseed import MSeed3Header, MSeed3Record, readMSeed3Records

OUTSIDE = ("more records or samples than stated; start times outside the stated minutes or between multiples of 1/16 s; rates "
           "other than 1 Hz and 10 s")
KIND = {1: "i2", 3: "i4", 4: "f4", 5: "f8", 10: "i4", 11: "i4"}
T0 = datetime(2024, 2, 28, 23, 59, 0, tzinfo=timezone.utc)
US = timedelta(microseconds=1)


def when(ctx, h, name, span):
    """Any 1/16 s of the minute before midnight or of the one after, or of both; or the given second."""
    if isinstance(span, list):
        t = T0 + timedelta(seconds=span[int(name[1:])])
        h.year, h.dayOfYear = t.year, t.timetuple().tm_yday
        h.hour, h.minute, h.second = t.hour, t.minute, t.second
        return span[int(name[1:])] * 1000000
    s, us = ctx.int(name + ".s", 0, 59), ctx.int(name + ".q", 0, 15) * 62500
    late = span == 1 or span == 2 and ctx.choice(name + ".late", [False, True])
    h.year = 2024
    h.dayOfYear = 60 if late else 59
    h.hour, h.minute = (0, 0) if late else (23, 59)
    h.second = s
    h.nanosecond = us * 1000
    return (s + (60 if late else 0)) * 1000000 + us


def raw(x, kind):
    """Values that compare bit for bit."""
    return x.view("i8" if kind == "f8" else "i4") if kind[0] == "f" else x


def build(ctx, k, n, enc, ids, span, same):
    h = MSeed3Header()
    h.encoding = enc
    t = when(ctx, h, f"r{k}", span)
    h.sampleRatePeriod = 1.0 if same else ctx.choice(f"r{k}.rate", [1.0, -10.0])
    h.publicationVersion = 1 if same else ctx.int(f"r{k}.pub", 1, 2)
    ident = ctx.choice(f"r{k}.id", ids)
    if enc in KIND:
        lim = (-60, 60) if enc in (10, 11) else ()
        if n > 20:
            x = np.array([j % 100 for j in range(n)], dtype=KIND[enc])
            x[n - 1] = ctx.array(f"r{k}.x", KIND[enc], 1, *lim)[0]
        else:
            x = ctx.array(f"r{k}.x", KIND[enc], n, *lim)
        if enc == 10:
            b = bytes(simplemseed.encodeSteim1(x))
        elif enc == 11:
            b = bytes(simplemseed.encodeSteim2(x))
        else:
            b = x
        if enc in (10, 11):
            h.numSamples = n
    else:
        h.numSamples = n
        b = ctx.bytes(f"r{k}.b", n)
        x = b
    r = MSeed3Record(h, ident, b)
    return dict(id=ident, t=t, n=n, enc=enc, x=x, packed=bytes(r.pack()),
                p=1000000 if h.sampleRatePeriod > 0 else 10000000, pub=h.publicationVersion)


SPAN = {0: "the minute before midnight", 1: "the minute after midnight",
        2: "the minutes before and after midnight"}
PRIM = {1: 1, 3: 3, 4: 4, 5: 5, 10: 3, 11: 3}


def verify(ctx, recs, outs, ids):
    """outs holds, per source, exactly recs in order, neighbours possibly joined."""
    # a record without samples may be joined and so move a start by less than half a period
    slack = 5000000 if any([r["n"] == 0 for r in recs]) else 0
    for ident in ids:
        # records without samples may be joined to a neighbour or not
        mine = [r for r in recs if r["id"] == ident and (r["n"] or r["enc"] not in PRIM)]
        got = [o for o in outs if o.identifier == ident
               and (o.header.numSamples or o.header.encoding not in PRIM)]
        i = 0
        for o in got:
            ctx.check(i < len(mine), "more records than were read")
            first = mine[i]
            off = (o.starttime - T0) // US - first["t"]
            ctx.check((off >= -slack) & (off <= slack), "start time of a yielded record")
            if first["enc"] not in PRIM:
                ctx.check(o.pack() == first["packed"], "record that cannot be merged")
                i += 1
                continue
            y = o.decompress()
            ctx.check(len(y) == o.header.numSamples, "sample count of a yielded record")
            ctx.check(o.header.encoding == PRIM[first["enc"]], "encoding")
            ctx.check(o.header.publicationVersion == first["pub"], "publication version")
            kind = KIND[first["enc"]]
            y = raw(y, kind)
            at = 0
            while at < len(y):
                ctx.check(i < len(mine) and mine[i]["enc"] in PRIM
                          and PRIM[mine[i]["enc"]] == o.header.encoding
                          and at + mine[i]["n"] <= len(y), "samples that were not in the stream")
                r = mine[i]
                if r is not first:
                    gap = r["t"] - first["t"] - at * r["p"]
                    ctx.check((gap > -r["p"]) & (2 * gap < r["p"]), "joined across a gap")
                    ctx.check((r["p"] == first["p"]) & (r["pub"] == first["pub"]),
                              "joined records that differ")
                x = raw(r["x"], kind)
                for j in range(r["n"]):
                    ctx.check(y[at + j] == x[j], "sample value")
                at += r["n"]
                i += 1
        ctx.check(i == len(mine), "records are missing")
    ctx.check(sum([o.header.numSamples for o in outs]) == sum([r["n"] for r in recs]),
              "total number of samples")
    for o in outs:
        ctx.check(any([o.identifier == i for i in ids]), "identifier that was not in the stream")


def merged(ctx, shapes, ids, span, same, match=None, gap=None):
    if span == "run":
        # one after the other, but for a gap somewhere
        g = ctx.choice("gap", gap)
        span, t = [], 0
        for k, (n, enc) in enumerate(shapes):
            if k == g:
                t += 3
            span.append(t)
            t += n
    recs = [build(ctx, k, n, enc, ids, span, same) for k, (n, enc) in enumerate(shapes)]
    data = b""
    for r in recs:
        data = data + r["packed"]
    r = ctx.call(lambda: list(readMSeed3Records(ctx.file(data), merge=True, matchsid=match)))
    ctx.check(r.ok, "reading failed: " + r.exname)
    if match is not None:
        ids = [i for i in ids if match in i]
        recs = [r for r in recs if r["id"] in ids]
    verify(ctx, recs, r.value, ids)
    ctx.observe("n", len(r.value))
    ctx.reach("joined" if len(r.value) < len(recs) else "apart")


def command(ctx, shapes, ids, span):
    """The mseed3merge command writes what merged reading yields."""
    cmd = importlib.import_module("simplemseed.mseed3merge")
    recs = [build(ctx, k, n, enc, ids, span, True) for k, (n, enc) in enumerate(shapes)]
    data = b""
    for r in recs:
        data = data + r["packed"]
    fs = ctx.fs({"in.ms3": data})
    ctx.argv(["-o", "out.ms3", "in.ms3"])
    r = ctx.call(cmd.main)
    ctx.check(r.ok, "the command failed: " + r.exname)
    ctx.check(fs.read("in.ms3") == data, "the input file is unchanged")
    outs = list(readMSeed3Records(ctx.file(fs.read("out.ms3"))))
    verify(ctx, recs, outs, ids)
    ctx.reach("joined" if len(outs) < len(recs) else "apart")


def cases(tier):
    q = tier == "quick"
    out = []
    AB = ["FDSN:XX_A", "FDSN:XX_B"]

    def add(name, shapes, ids, span, same, must=("joined", "apart"), **k):
        out.append(dict(name=name, fn=merged, must=list(must), weight=2 ** len(shapes),
                        params=dict(shapes=shapes, ids=ids, span=span, same=same, **k),
                        bound=f"records of (samples, encoding) {shapes}, sources {ids}, any start "
                        f"times (1/16 s) of {SPAN[span]}, " + ("1 Hz" if same else
                                                      "1 Hz or 10 s, publication version 1 or 2")))
    one = AB[:1]
    add("two", [(2, 3), (2, 3)], AB, 2, False)
    add("three", [(2, 3), (1, 3), (2, 3)], AB, 1, True)
    add("three-one", [(1, 3), (2, 3), (1, 3)], one, 2, True)
    add("four-one", [(1, 3), (1, 3), (1, 3), (1, 3)], one, 0, True)
    add("types", [(1, 1), (1, 1), (2, 3), (1, 3)], one, 0, True)
    add("floats", [(1, 4), (2, 4), (1, 5), (1, 5)], one, 0, True)
    add("steim", [(2, 10), (2, 3), (2, 11)], one, 0, True)
    add("steims", [(3, 11), (2, 11), (1, 10)], one, 0, True)
    add("opaque", [(2, 3), (3, 100), (2, 3), (1, 3)], one, 0, True)
    add("opaque-ab", [(1, 3), (2, 100), (1, 3)], AB, 0, True, must=["apart"])
    add("ascii", [(1, 3), (4, 0), (1, 3)], one, 0, True, must=["apart"])
    add("empty", [(1, 3), (0, 3), (1, 3)], one, 1, True)
    add("rates", [(1, 3), (1, 3), (1, 3)], one, 0, False)
    add("match", [(1, 3), (1, 3), (1, 3)], AB, 0, True, match="B")
    SPAN["run"] = "the run of records, with a gap before one of the listed ones"
    add("run-12", [(2, 3), (1, 3)] * 6, one, "run", True, gap=[99, 1, 6, 11], must=["joined"])
    add("run-40", [(1, 3)] * 40, one, "run", True, gap=[99, 33], must=["joined"])
    add("run-large", [(300, 3), (1200, 3), (3, 3), (70, 3)], one, "run", True, gap=[99, 2], must=["joined"])
    add("run-large-16", [(4500, 1), (4000, 1), (1, 1)], one, "run", True, gap=[99, 2], must=["joined"])
    add("run-steim", [(60, 10), (50, 11), (2, 3), (40, 10)], one, "run", True, gap=[99, 1], must=["joined"])
    add("run-mixed", [(2, 3), (3, 1), (2, 1), (1, 4), (2, 4), (2, 3)], one, "run", True, gap=[99], must=["joined"])
    add("single", [(2, 3)], one, 2, True, must=["apart"])
    if not q:
        add("four-ab", [(1, 3), (1, 3), (1, 3), (1, 3)], AB, 2, True)
        add("five-one", [(1, 3)] * 5, one, 2, True)
        add("mixed", [(2, 10), (1, 3), (3, 11), (2, 1)], one, 2, True)
        add("long", [(5, 3), (4, 3), (3, 3)], AB, 2, True)
        add("double", [(2, 5), (2, 5), (2, 5)], AB, 2, True)
        add("rates-ab", [(1, 3), (1, 3), (1, 3)], AB, 0, False)
    out.append(dict(name="command", fn=command, must=["joined", "apart"], weight=8,
                    params=dict(shapes=[(1, 3), (2, 3), (1, 10)], ids=AB, span=0),
                    bound="the command on three records of two sources, any start times of a minute"))
    out.append(dict(name="command-text", fn=command, must=["apart"], weight=8,
                    params=dict(shapes=[(1, 3), (4, 0), (0, 0), (2, 100), (1, 3)], ids=one, span=0),
                    bound="the command on text, empty and opaque records between samples"))
    return out
