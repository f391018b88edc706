"""M12: what is asked of the extra headers in files is what is there."""
import importlib
import json
import re
from simplemseed import MSeed3Header, MSeed3Record

OUTSIDE = ("files of more records than stated; pointers, documents and values other than the listed "
           "shapes; invalid pointers; the empty pointer on records without extra headers")
DETAILS = "simplemseed.mseed3details"
TEXT = ((32, 126), (0xA1, 0xFF), (0x1F600, 0x1F64F))
LETTER = ((97, 122),)
AB = ["FDSN:XX_A", "FDSN:XX_B"]
NOTHING = object()


def document(ctx, k, shape, text):
    """The extra headers of record k."""
    if shape == "none":
        return None
    s = ctx.str(f"r{k}.s", 1, text)
    w = ctx.bool(f"r{k}.w") if shape != "flat" else None
    if shape == "flat":
        return {"c": s, "n": k}
    if shape == "deep":
        return {"a": {"b": s, "k": [k, {"n": s, "w": w}, []], "": 5}, "c": w, "x/y": None, "x~y": 1.5}
    return {"a": [w, {"b": s}], "n": k + 10 ** 15}


def at(doc, ptr):
    """The value at a JSON pointer (RFC 6901)."""
    if doc is None:
        return NOTHING
    v = doc
    for p in ptr.split("/")[1:]:
        p = p.replace("~1", "/").replace("~0", "~")
        if isinstance(v, dict):
            if p not in v:
                return NOTHING
            v = v[p]
        elif isinstance(v, list):
            if not p.isdigit() or int(p) >= len(v):
                return NOTHING
            v = v[int(p)]
        else:
            return NOTHING
    return v


def query(ctx, files, shapes, ptrs, mode, text):
    cmd = importlib.import_module(DETAILS)
    k, fs, recs = 0, {}, []
    for i, n in enumerate(files):
        b = b""
        for _ in range(n):
            ident, doc = ctx.choice(f"r{k}.id", AB), document(ctx, k, ctx.choice(f"r{k}.shape", shapes), text)
            h = MSeed3Header()
            h.year = 2000 + k
            h.flags = ctx.bits(f"r{k}.flags", 8)
            b = b + bytes(MSeed3Record(h, ident, ctx.array(f"r{k}.x", "i2", 1 + k % 2), doc).pack())
            recs.append((ident, doc))
            k += 1
        fs[f"f{i}.ms3"] = b
    ptr = ctx.choice("ptr", ptrs)
    every = ctx.choice("all", [False, True])
    match = ctx.choice("match", [None, "B$"])
    f = ctx.fs(fs)
    if mode == "argv":
        ctx.argv((["--match", match] if match else []) + ["--getall" if every else "--get", ptr]
                 + ["-o", "out.txt"] + sorted(fs))
        r = ctx.call(cmd.main)
        f.exit()
        said = f.read("out.txt").decode("utf-8")
    elif mode == "print":
        ctx.argv(["--getall" if every else "--get", ptr] + (["--match", match] if match else [])
                 + (["--"] if match is None else []) + sorted(fs))
        r, said = ctx.printed(cmd.main)
    else:
        with open("out.txt", "w", encoding="utf-8") as o:
            r = ctx.call(cmd.do_get_eh, ptr, sorted(fs), match, every, o)
        said = f.read("out.txt").decode("utf-8")
    ctx.check(r.ok, "failed: " + r.exname)
    sel = [d for i, d in recs if match is None or re.search(match, i)]
    if not every:
        sel = sel[:1]
    lines = said.split("\n")
    ctx.check(len(lines) == len(sel) + 1, "one line for each record asked for")
    ctx.check(lines[len(lines) - 1] == "", "ends with a line end")
    for d, line in zip(sel, lines):
        v = at(d, ptr)
        if v is NOTHING:
            ctx.check(line == ("  pointer not found in extra headers" if mode == "print" else ""), "no value")
        else:
            got = ctx.call(json.loads, line)
            ctx.check(got.ok, "not JSON: " + got.exname)
            ctx.check(got.value == v, "value")
            ctx.check(isinstance(got.value, bool) == isinstance(v, bool), "kind of value")
    for n in fs:
        ctx.check(f.read(n) == fs[n], "the files are unchanged")
    ctx.check(f.names() == sorted(list(fs) + ([] if mode == "print" else ["out.txt"])), "files left behind")
    ctx.reach("some" if sel else "none")


PTRS = ["/c", "/n", "/a/b", "/a", "/a/1/b", "/a/k/1", "/a/k/1/n", "/a/k/2", "/x~1y", "/x~0y", "/a/", "/q", "/c/d", "/a/9"]


def cases(tier):
    q = tier == "quick"
    out = []

    def add(name, files, shapes, ptrs, mode, text=LETTER):
        out.append(dict(name=name, fn=query, must=["some", "none"], weight=3 * sum(files), max_paths=20000,
                        params=dict(files=files, shapes=shapes, ptrs=ptrs, mode=mode, text=text),
                        bound=f"files of {files} records, extra headers of kinds {shapes}, pointers {ptrs}, "
                        f"any {'letters' if text is LETTER else 'texts'}, {mode}"))
    for mode in ("call", "argv", "print"):
        add(f"flat-{mode}", [1], ["none", "flat"], ["/c", "/n", "/q", "/c/d"], mode)
        add(f"deep-{mode}", [1], ["deep"], PTRS, mode)
        add(f"list-{mode}", [1], ["list"], PTRS, mode)
    add("text", [1], ["flat"], ["/c", "/n"], "argv", TEXT)
    add("text-print", [1], ["flat"], ["/c"], "print", TEXT)
    add("whole", [1], ["flat", "deep", "list"], [""], "argv")
    add("two-argv", [2], ["none", "flat"], ["/c"], "argv")
    add("two-print", [2], ["flat"], ["/c"], "print")
    add("files-argv", [1, 2], ["flat"], ["/n"], "argv")
    add("files-print", [2, 1], ["none", "flat"], ["/n"], "print")
    add("empty-first", [0, 2], ["flat"], ["/c"], "argv")
    if not q:
        add("two-all", [2], ["none", "flat", "deep", "list"], PTRS, "argv")
        add("files-three", [1, 1, 2], ["none", "deep"], ["/a/b"], "print")
        add("files-call", [2, 2], ["none", "list"], ["/a/1/b"], "call")
        add("text-deep", [1], ["deep"], ["/a/b", "/a/k", "/a"], "argv", TEXT)
    return out
