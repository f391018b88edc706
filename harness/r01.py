"""R01: listings of files report every record, once, with its own values and the right totals."""
import importlib
import json
import re
import numpy as np
from simplemseed import MSeed3Header, MSeed3Record, MiniseedHeader, MiniseedRecord
from simplemseed.miniseed import BTime, Blockette1000, Blockette100

OUTSIDE = ("more records than stated; identifiers, rates and counts other than the listed ones; the layout "
           "of the detailed listing, where only presence of the values after their captions is checked")
IDS = ["FDSN:XX_A", "FDSN:YY_B__H_H_Z"]
RATES = [20.0, 0.0, -10.0, 0.4]
VALUES = [[7, -8, 9, 0, 1, 2, 3, 4, 5, 12345, -6, 1, 2, 3, 4, 5, 6, 7, 8, 9, 77], [-32768, 32767] + [0] * 19]
ENC = {1: "16-bit integer", 3: "32-bit integer", 4: "32-bit floats", 5: "64-bit floats",
       10: "STEIM-1 integer compression", 11: "STEIM-2 integer compression"}


def two(n):
    return chr(48 + n // 10) + chr(48 + n % 10)


def clock(day, t, us):
    """ISO text of t seconds after midnight of a day in 2024."""
    s = f"{day}T{t // 3600:02}:{t // 60 % 60:02}:{t % 60:02}"
    return s + (f".{us:06}" if us else "")


def day_of(yday):
    return "2024-02-29" if yday == 60 else "2024-03-01"


def time_text(t, us):
    """t seconds, us microseconds after 29 February 2024, 00:00."""
    return clock(day_of(60 + t // 86400), t % 86400, us) + "Z"


def period(rate):
    return 0 if rate == 0 else -rate if rate < 0 else 1 / rate


def record3(ctx, k, listing=True):
    h = MSeed3Header()
    h.year, h.dayOfYear = 2024, 60
    if listing:
        # everything not in the listing is arbitrary, the second and the station too
        t = [86340, 0, 3600][k] + ctx.int(f"r{k}.s", 0, 59)
        h.flags = ctx.bits(f"r{k}.flags", 8)
        h.publicationVersion = ctx.bits(f"r{k}.pub", 8)
        ident = "FDSN:XX_" + ctx.str(f"r{k}.id", 1, ((65, 70),))
        h.sampleRatePeriod = RATES[(k + 2) % 4]
        n = 3 - 2 * (k % 2)
    else:
        t = 0
        h.flags = ctx.choice(f"r{k}.flags", [0, 135])
        h.publicationVersion = 7
        h.sampleRatePeriod = ctx.choice(f"r{k}.rate", RATES)
        ident = IDS[1] if h.sampleRatePeriod == -10 else IDS[0]
        n = ctx.choice(f"r{k}.n", [1, 10, 11, 21])
    h.hour, h.minute, h.second = t // 3600, t // 60 % 60, t % 60
    eh = {"k": ctx.str(f"r{k}.v", 1, ((97, 122),))} if k else None
    x = ctx.array(f"r{k}.x", "i2", n)
    r = MSeed3Record(h, ident, x, eh)
    b = bytes(r.pack())
    end = t * 1000000 + round(period(h.sampleRatePeriod) * (n - 1) * 1000000)
    return dict(id=ident, n=n, bytes=b, start=time_text(t, 0), end=time_text(end // 1000000, end % 1000000),
                rate=h.sampleRatePeriod, flags=h.flags, eh=eh, pub=h.publicationVersion, x=x, enc=1)


def summary3(ctx, files, verbose):
    """mseed3details --summary"""
    cmd = importlib.import_module("simplemseed.mseed3details")
    recs, fs, k = [], {}, 0
    for i, n in enumerate(files):
        b = b""
        for _ in range(n):
            recs.append(record3(ctx, k))
            b = b + recs[-1]["bytes"]
            k += 1
        fs[f"f{i}.ms3"] = b
    f = ctx.fs(fs)
    match = ctx.choice("match", [None, "_[BC]$", "X", "Q"])
    ctx.argv(["--summary"] + (["-v"] if verbose else []) + (["--match", match] if match else [])
             + (["--"] if match is None else []) + sorted(fs))
    r, text = ctx.printed(cmd.main)
    ctx.check(r.ok, "failed: " + r.exname)
    sel = [x for x in recs if match is None or re.search(match, x["id"])]
    want = [f"{x['id']} {x['start']} {x['end']} ({x['n']} pts)" for x in sel]
    want.append(f"Total {sum(x['n'] for x in sel)} samples in {len(sel)} records")
    ctx.check(text == "\n".join(want) + "\n", "listing")
    for n in fs:
        ctx.check(f.read(n) == fs[n], "the file is unchanged")
    ctx.reach("some" if sel else "none")


def after(ctx, text, caption):
    """The rest of the line with a caption."""
    ctx.check(text.count(caption) == 1, "caption " + caption)
    return text.split(caption)[1].split("\n")[0].strip()


def details3(ctx, eh, data):
    cmd = importlib.import_module("simplemseed.mseed3details")
    x = record3(ctx, 1 if eh else 0, False)
    vals = ctx.choice("values", VALUES)[:x["n"]]
    h = MSeed3Header()
    h.year, h.dayOfYear, h.sampleRatePeriod = 2024, 60, x["rate"]
    h.flags, h.publicationVersion = x["flags"], x["pub"]
    t = ctx.choice("t", [0, 86399])
    h.hour, h.minute, h.second = t // 3600, t // 60 % 60, t % 60
    b = bytes(MSeed3Record(h, x["id"], np.array(vals, dtype="i2"), x["eh"]).pack())
    ctx.fs({"f.ms3": b})
    ctx.argv((["--eh"] if eh else []) + (["--data"] if data else []) + ["f.ms3"])
    r, text = ctx.printed(cmd.main)
    ctx.check(r.ok, "failed: " + r.exname)
    ctx.check(text.startswith(f"          {x['id']}, version {x['pub']}, {len(b)} bytes"), "first line")
    ctx.check(after(ctx, text, "start time:") == clock("2024-02-29", t, 0) + "Z (060)", "start time")
    ctx.check(after(ctx, text, "number of samples:") == str(x["n"]), "number of samples")
    rate = 0 if x["rate"] == 0 else x["rate"] if x["rate"] > 0 else 1 / -x["rate"]
    ctx.check(float(after(ctx, text, "sample rate (Hz):")) == rate, "sample rate")
    ctx.check(after(ctx, text, " flags:").startswith(f"[{x['flags']:08b}] 8 bits"), "flags")
    for i, w in enumerate(["Calibration", "questionable", "locked", None, None, None, None, "[Bit 7]"]):
        if w:
            ctx.check((w in text) == bool(x["flags"] & 1 << i), "flag meaning")
    n = len(json.dumps(x["eh"])) if x["eh"] else 0
    ctx.check(after(ctx, text, "extra header length:") == f"{n} bytes", "extra header length")
    ctx.check(after(ctx, text, "data payload length:") == f"{2 * x['n']} bytes", "data length")
    ctx.check(after(ctx, text, "payload encoding:") == "16-bit integer (val: 1)", "encoding")
    if not eh:
        ctx.check(x["eh"] is None or '"k"' not in text, "extra headers not asked for")
    if eh:
        t = text.split("extra headers:")[1].split("data:")[0].split("Total")[0]
        ctx.check(json.loads(t) == x["eh"], "extra headers")
    ctx.check(data == ("data:" in text), "samples only when asked for")
    if data:
        t = text.split("data:")[1].split("Total")[0]
        ctx.check([int(v) for v in t.split()] == vals, "sample values")
    ctx.check(text.rstrip().endswith(f"Total {x['n']} samples in 1 records"), "totals")
    ctx.reach("ok")


def flags3(ctx):
    """Every flag is told, each by itself."""
    h = MSeed3Header()
    h.flags = ctx.bits("flags", 8)
    r = MSeed3Record(h, "FDSN:XX", ctx.array("x", "i2", 1))
    r.pack()
    text = r.details()
    line = "".join("1" if h.flags & 1 << i else "0" for i in range(7, -1, -1))
    ctx.check(after(ctx, text, " flags:").startswith(f"[{line}] 8 bits"), "flags")
    for i, w in enumerate(["Calibration", "questionable", "locked"] + [None] * 5):
        told = f"[Bit {i}]" in text
        ctx.check(told == bool(h.flags & 1 << i), f"flag {i}")
        ctx.check(w is None or (w in text) == told, f"meaning of flag {i}")
    ctx.reach("ok")


def record2(ctx, k, enc, big, fixed=None):
    if fixed is None:
        t = [86340, 0, 3600][k] + ctx.int(f"r{k}.s", 0, 59)
        rate = [0.4, 20.0][k % 2]
        n = 3 - 2 * (k % 2)
        codes = ("XX", "A", "00", "B" + ctx.str(f"r{k}.id", 1, ((72, 78),)) + "Z")
        io = (ctx.bits(f"r{k}.act", 8), ctx.bits(f"r{k}.io", 8), ctx.bits(f"r{k}.qual", 8))
    else:
        t = ctx.choice(f"r{k}.t", [0, 86399])
        rate = ctx.choice(f"r{k}.rate", [20.0, 0.4])
        n = ctx.choice(f"r{k}.n", [1, 10, 21])
        codes = ctx.choice(f"r{k}.codes", [("XX", "A", "00", "BHZ"), ("YY", "ABC", "", "LOG")])
        io = ctx.choice(f"r{k}.io", [(0, 0, 0), (1, 33, 0), (0, 2, 255), (128, 64, 5)])
    h = MiniseedHeader(*codes, BTime(2024, 60, t // 3600, t // 60 % 60, t % 60, 0), 0, rate,
                       byteorder=1 if big else 0, dataquality="R", actFlag=io[0], ioFlag=io[1], qualFlag=io[2])
    h.encoding = enc
    d = "i4" if enc == 3 else "i2"
    x = ctx.array(f"r{k}.x", d, n) if fixed is None else np.array(fixed[:n], dtype=d)
    if big:
        x = x.astype(">" + d)
    h.recordLengthExp = 8
    h.recordLength = 256
    r = MiniseedRecord(h, x)
    b = bytes(r.pack())
    end = t * 1000000 + round(1000000 / rate) * (n - 1)
    sid = f"FDSN:{codes[0]}_{codes[1]}_{codes[2]}_{codes[3][0]}_{codes[3][1]}_{codes[3][2]}"
    return dict(id=sid, codes=".".join(codes), n=n, bytes=b, rate=rate,
                start=time_text(t, 0), end=time_text(end // 1000000, end % 1000000), io=io)


def plain(t):
    return t.replace("T", " ").replace("Z", "+00:00")


def summary2(ctx, files, enc, big):
    cmd = importlib.import_module("simplemseed.mseed2details")
    recs, fs, k = [], {}, 0
    for i, n in enumerate(files):
        b = b""
        for _ in range(n):
            recs.append(record2(ctx, k, enc, big))
            b = b + recs[-1]["bytes"]
            k += 1
        fs[f"f{i}.ms2"] = b
    ctx.fs(fs)
    match = ctx.choice("match", [None, "_B_[HL]_Z", "^FDSN:XX", "Q$"])
    ctx.argv(["--summary"] + (["--match", match] if match else []) + (["--"] if match is None else [])
             + sorted(fs))
    r, text = ctx.printed(cmd.main)
    ctx.check(r.ok, "failed: " + r.exname)
    sel = [x for x in recs if match is None or re.search(match, x["id"])]
    want = [f"{x['codes']} {plain(x['start'])} {plain(x['end'])} ({x['n']} pts)" for x in sel]
    want.append(f"Total {sum(x['n'] for x in sel)} samples in {len(sel)} records")
    ctx.check(text == "\n".join(want) + "\n", "listing")
    ctx.reach("some" if sel else "none")


def details2(ctx, data, enc, big):
    cmd = importlib.import_module("simplemseed.mseed2details")
    vals = ctx.choice("values", VALUES)
    x = record2(ctx, 0, enc, big, vals)
    ctx.fs({"f.ms2": x["bytes"]})
    ctx.argv((["--data"] if data else []) + ["f.ms2"])
    r, text = ctx.printed(cmd.main)
    ctx.check(r.ok, "failed: " + r.exname)
    ctx.check(text.startswith(f"          {x['id']}, quality R, 256 bytes"), "first line")
    ctx.check(after(ctx, text, "start time:") == x["start"] + " (060)", "start time")
    ctx.check(after(ctx, text, "number of samples:") == str(x["n"]), "number of samples")
    ctx.check(abs(float(after(ctx, text, "sample rate (Hz):")) / x["rate"] - 1) < 1e-4, "sample rate")
    flags = [p.split("]")[0].strip() for p in text.split("flags: [")[1:]]
    ctx.check(flags == [f"{v:08b}" for v in x["io"]], "flags")
    ctx.check(after(ctx, text, "payload encoding:") == f"{ENC[enc]} (val: {enc})", "encoding")
    ctx.check("1000" in text, "blockette 1000")
    if data:
        t = text.split("data:")[1].split("Total")[0]
        ctx.check([int(v) for v in t.split()] == vals[:x["n"]], "sample values")
    ctx.check(text.rstrip().endswith(f"Total {x['n']} samples in 1 records"), "totals")
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []

    def add(name, fn, must, bound, **params):
        out.append(dict(name=name, fn=fn, params=params, must=must, bound=bound))
    for files in [[1], [2], [1, 1]] + ([] if q else [[3], [2, 1]]):
        n = "-".join(map(str, files))
        add("summary3-" + n, summary3, ["some", "none"], f"miniSEED3 files of {files} records, any match",
            files=files, verbose=False)
        add("summary2-" + n, summary2, ["some", "none"], f"miniSEED2 files of {files} records, any match",
            files=files, enc=3, big=True)
    add("flags3", flags3, ["ok"], "any flags")
    for eh in (False, True):
        for data in (False, True):
            add(f"details3{'-eh' if eh else ''}{'-data' if data else ''}", details3, ["ok"],
                "one miniSEED3 record", eh=eh, data=data)
    for enc in (1, 3):
        for big in (False, True):
            add(f"details2-{enc}-{'big' if big else 'little'}", details2, ["ok"], "one miniSEED2 record",
                data=True, enc=enc, big=big)
    add("details2", details2, ["ok"], "one miniSEED2 record", data=False, enc=3, big=True)
    return out
