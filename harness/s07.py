"""S07: what the fdsnsourceid command says about identifiers, codes and rates."""
import argparse
import json
import sys
from simplemseed import FDSNSourceId
from simplemseed import fdsnsourceid as fs

OUTSIDE = ("codes longer than stated; the wording of the descriptions of source codes, which is read from the "
           "table file; argparse itself, whose arguments are put in after it has parsed placeholders")
UP = ((48, 57), (65, 90))
SOME = ((32, 94), (96, 0x17F))
BAND = {"J": ("> 5000", ""), "F": (">= 1000 to < 5000", ">= 10 sec"), "G": (">= 1000 to < 5000", "< 10 sec"),
        "D": (">= 250 to < 1000", "< 10 sec"), "C": (">= 250 to < 1000", ">= 10 sec"),
        "E": (">= 80 to < 250", "< 10 sec"), "S": (">= 10 to < 80", "< 10 sec"),
        "H": (">= 80 to < 250", ">= 10 sec"), "B": (">= 10 to < 80", ">= 10 sec"), "M": ("> 1 to < 10", ""),
        "L": ("~ 1", ""), "V": (">= 0.1 to < 1", ""), "U": (">= 0.01 to < 0.1", ""),
        "W": (">= 0.001 to < 0.01", ""), "R": (">= 0.0001 to < 0.001", ""), "P": (">= 0.00001 to < 0.0001", ""),
        "T": (">= 0.000001 to < 0.00001", ""), "Q": ("< 0.000001", ""), "I": ("irregular", ""),
        "A": ("variable, DEPRECATED", ""), "O": ("variable, DEPRECATED", "")}
# the FDSN instrument codes
SOURCES = {"H": "High Gain Seismometer", "L": "Low Gain Seismometer", "M": "Mass Position Seismometer",
           "N": "Accelerometer", "P": "Geophone", "A": "Tilt Meter", "B": "Creep Meter", "C": "Calibration Input",
           "D": "Pressure", "E": "Electronic Test", "F": "Magnetometer", "G": "Gravimeter", "I": "Humidity",
           "J": "Rotational Sensor", "K": "Temperature", "O": "Water Current", "Q": "Electric Potential",
           "R": "Rainfall", "S": "Linear Strain", "T": "Tide", "U": "Bolometer", "V": "Volumetric Strain",
           "W": "Wind", "X": "Derived or generated channel", "Y": "Non-specific instruments",
           "Z": "Synthesized Beams"}


def command(ctx, args, values):
    """Run the command with the strings of values put where args has their keys."""
    ctx.argv(args)
    orig = argparse.ArgumentParser.parse_args

    def put(v):
        if isinstance(v, list):
            return [put(x) for x in v]
        return values[v] if isinstance(v, str) and v in values else v

    def parse_args(self, *a, **k):
        ns = orig(self, *a, **k)
        for name in list(vars(ns)):
            setattr(ns, name, put(getattr(ns, name)))
        return ns
    argparse.ArgumentParser.parse_args = parse_args
    try:
        return ctx.printed(fs.main)
    finally:
        argparse.ArgumentParser.parse_args = orig


def lines(text):
    out = [x for x in text.split("\n")]
    return out[:-1] if out and len(out[-1]) == 0 else out


def after(line, caption):
    """What follows the caption of a line, or None."""
    k = line.lstrip(" ")
    if not k.startswith(caption + ":"):
        return None
    return k[len(caption) + 2:]


NAMES = ["Net", "Sta", "Loc", "Band", "Source", "Subsource"]


def table_band(ctx, c):
    for k, v in BAND.items():
        if c == k:
            return v
    return None


def sid(ctx, sizes, two):
    """Any identifier is printed with its codes."""
    c = [ctx.str(f"c{i}", k, UP if i > 2 else SOME) for i, k in enumerate(sizes)]
    text = "FDSN:" + c[0]
    for k in c[1:]:
        text = text + "_" + k
    r, out = command(ctx, ["SID0", "SID1"] if two else ["SID0"], {"SID0": text, "SID1": "FDSN:XX_ABC_00_B_H_Z"})
    ctx.check(r.ok, "fails: " + r.exname)
    n = len(c)
    want = "      " + text + "\n"
    ls = lines(out[len(want):]) if out.startswith(want) else None
    ctx.check(ls is not None, "the identifier comes first")
    ctx.check(len(ls) == n + (7 if two else 0), "one line for each code")
    for i in range(n):
        v = after(ls[i], NAMES[i])
        ctx.check(v is not None, "caption of " + NAMES[i])
        if i in (3, 4):
            ctx.check(v.startswith(c[i] + " - "), NAMES[i])
        else:
            ctx.check(v == c[i], NAMES[i])
    if n == 6:
        d = after(ls[3], "Band")[len(c[3]) + 3:]
        b = table_band(ctx, c[3])
        if b is not None:
            ctx.check(b[0] + " Hz" in d, "rates of the band code")
            ctx.check(b[1] == "" or b[1] in d, "response of the band code")
        else:
            ctx.check("Hz" not in d, "rates of a band code that does not exist")
    if two:
        ctx.check(ls[n].strip() == "FDSN:XX_ABC_00_B_H_Z", "the second identifier")
        ctx.check(after(ls[n + 4], "Band") == "B - " + fs.bandCodeDescribe("B"), "band of the second")
        ctx.check(after(ls[n + 5], "Source") == "H - High Gain Seismometer", "source of the second")
    ctx.reach("ok")


def band(ctx, n):
    """Band codes, together or apart."""
    s = ctx.str("bands", n, ((33, 126),))
    r, out = command(ctx, ["-b", "BANDS", "Q"], {"BANDS": s})
    ctx.check(r.ok, "fails: " + r.exname)
    ls = lines(out)
    ctx.check(len(ls) == n + 1, "one line for each code")
    for i in range(n + 1):
        c = s[i] if i < n else "Q"
        v = after(ls[i], "Band")
        ctx.check(v is not None and v.startswith(c + " - "), "code")
        b = table_band(ctx, c)
        if b is not None:
            ctx.check(b[0] + " Hz" in v and (b[1] == "" or b[1] in v), "description")
        else:
            ctx.check("Hz" not in v, "description of a band code that does not exist")
    ctx.reach("ok")


def source(ctx, n):
    s = ctx.str("source", n, ((33, 126),))
    r, out = command(ctx, ["-s", "SRC", "N"], {"SRC": s})
    ctx.check(r.ok, "fails: " + r.exname)
    ls = lines(out)
    v = after(ls[0], "Source")
    ctx.check(v is not None and v.startswith(s + " - "), "code")
    d = v[n + 3:]
    known = None
    for k, e in fs.SOURCE_CODE_JSON.items():
        if s == k:
            known = e
    if known is not None:
        ctx.check(d == known["type"] and len(ls) >= 4, "description")
        ctx.check(known["desc"] in out, "longer description")
        for k, t in SOURCES.items():
            if s == k:
                ctx.check(d.startswith(t), "instrument")
    else:
        ctx.check(len(ls) == 3, "a source code without description")
    ctx.check(after(ls[-2], "Source") == "N - Accelerometer", "the second code")
    ctx.reach("ok")


def info(ctx):
    """The description functions for every one character code."""
    c = ctx.str("code", 1, ((33, 126),))
    r = ctx.call(fs.bandCodeInfo, c)
    d = ctx.call(fs.bandCodeDescribe, c)
    b = table_band(ctx, c)
    if b is None:
        ctx.check((not r.ok) and (not d.ok), "a band code that does not exist is described")
    else:
        ctx.check(r.ok and d.ok, "band code")
        ctx.check(r.value["code"] == c, "code")
        ctx.check(r.value["rate"] == b[0] and r.value["response_lb"].strip() == b[1], "rate and response")
        ctx.check(d.value.startswith(r.value["type"] + ", " + b[0] + " Hz"), "description")
        ctx.check(("response" in d.value) == (b[1] != ""), "response in the description")
    r = ctx.call(fs.sourceCodeInfo, c)
    d = ctx.call(fs.sourceCodeDescribe, c)
    for k, t in SOURCES.items():
        if c == k:
            ctx.check(r.ok and r.value["type"].startswith(t) and r.value["code"] == c, "source code")
    ctx.check(r.ok == d.ok, "known source codes have a description")
    if r.ok:
        ctx.check(r.value["code"] == c and d.value == r.value["type"], "source code")
        ctx.check((c >= "A") & (c <= "Z"), "the code of an instrument")
    ctx.reach("ok")


def sps(ctx):
    """The bands of a rate, for a broadband and a short period response."""
    n = ctx.int("rate", -200000, 200000)
    # argparse gives a float; the text of the number itself is not looked at
    r = ctx.call(lambda: (fs.bandCodeForRate(n, 0.01), fs.bandCodeForRate(n, 10)))
    ctx.check(r.ok, "fails: " + r.exname)
    for rate in (87.0, 1.0, 0.05, -10.0, 0.0, 5000.0, 1200.0, 300.0, 20.0, -3600.0):
        res, out = command(ctx, ["--sps=" + str(rate)], {})
        ctx.check(res.ok, "fails: " + res.exname)
        bb, sp = fs.bandCodeForRate(rate, 0.01), fs.bandCodeForRate(rate, 10)
        want = [f"{rate} - {x} - {fs.bandCodeDescribe(x)}" for x in ([bb] if bb == sp else [bb, sp])]
        ctx.check([after(x, "Rate") for x in lines(out)] == want, "bands of a rate")
    ctx.reach("ok")


def everything(ctx):
    ctx.argv(["--allbands", "--allsources"])
    r, out = ctx.printed(fs.main)
    ctx.check(r.ok, "fails: " + r.exname)
    ls = lines(out)
    b = [after(x, "Band") for x in ls if after(x, "Band") is not None]
    s = [after(x, "Source") for x in ls if after(x, "Source") is not None]
    ctx.check(sorted(x[0] for x in b) == sorted(BAND), "every band code")
    ctx.check(all(x[1:] == " - " + fs.bandCodeDescribe(x[0]) for x in b), "description of every band code")
    ctx.check(len(s) == len(set(s)) and all(x == x[0] + " - " + fs.sourceCodeDescribe(x[0]) for x in s),
              "every source code once")
    for k in SOURCES:
        ctx.check(len([x for x in s if x.startswith(k + " - " + SOURCES[k])]) == 1, "source code " + k)
    ctx.reach("ok")


def cases(tier):
    q = tier == "quick"
    out = []
    for sizes in ((2,), (3, 2), (2, 3, 2), (1, 1, 0), (1, 2, 2, 1, 1, 1), (2, 3, 0, 0, 3, 0), (1, 1, 1, 1, 2, 1),
                  (0,), (0, 0, 0, 0, 0, 0)) + (() if q else ((8, 8, 8, 1, 4, 4), (8, 8, 8))):
        for two in (False, True) if len(sizes) < 6 or not q else (sizes == (0,) * 6,):
            out.append(dict(name="sid-" + "-".join(map(str, sizes)) + ("-two" if two else ""), fn=sid,
                            params=dict(sizes=sizes, two=two), weight=3,
                            bound=f"codes of {sizes} characters below U+0180, band and later codes A to Z and 0 to 9"))
    for n in (1, 2) if q else (1, 2, 3):
        out.append(dict(name=f"band-{n}", fn=band, params=dict(n=n), weight=3 ** n, bound=f"{n} printable characters"))
    for n in (1, 2, 3):
        out.append(dict(name=f"source-{n}", fn=source, params=dict(n=n), weight=3, bound=f"{n} printable characters"))
    out.append(dict(name="info", fn=info, params={}, weight=5, bound="every printable character"))
    out.append(dict(name="sps", fn=sps, params={}, weight=3, bound="whole rates and periods to 200000; ten rates for the command"))
    out.append(dict(name="all", fn=everything, params={}, bound="the tables"))
    return out
