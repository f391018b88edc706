"""M10: editing extra headers in files keeps everything else."""
import importlib
import json
import re
from simplemseed import MSeed3Header, MSeed3Record, readMSeed3Records, unpackMSeed3Record

OUTSIDE = ("files of more records than stated; pointers, documents and values other than the listed "
           "shapes; interruption inside a single write; records whose CRC is wrong")
DETAILS = "simplemseed.mseed3details"
TEXT = ((32, 126), (0xA1, 0xFF))
DOCS = [None, {"a": {"b": 1, "k": [1, 2]}, "c": "x"}, {"c": {}, "a": {"b": [3], "k": []}},
        {"a": {"k": [0]}, "z": [{"a": 0}]}]


def copy(x):
    return json.loads(json.dumps(x))


def record(ctx, k, ident, eh):
    h = MSeed3Header()
    h.year = 2000 + k
    h.flags = ctx.bits(f"r{k}.flags", 8)
    h.publicationVersion = ctx.bits(f"r{k}.pub", 8)
    h.nanosecond = ctx.bits(f"r{k}.ns", 30)
    r = MSeed3Record(h, ident, ctx.array(f"r{k}.x", "i2", 1 + k % 2), copy(eh))
    return dict(id=ident, eh=eh, bytes=bytes(r.pack()))


def put(doc, ptr, v):
    """What JSON pointer ptr of doc set to v gives; None if there is no such place."""
    doc = copy(doc) if doc is not None else {}
    if ptr in ("", "/"):
        return v
    at = doc
    parts = [p.replace("~1", "/").replace("~0", "~") for p in ptr.split("/")[1:]]
    for p in parts[:-1]:
        if isinstance(at, list):
            if not p.isdigit() or int(p) >= len(at):
                return None
            at = at[int(p)]
        elif isinstance(at, dict) and p in at:
            at = at[p]
        else:
            return None
    p = parts[-1]
    if isinstance(at, dict):
        at[p] = v
    elif isinstance(at, list):
        if p == "-":
            at.append(v)
        elif p.isdigit() and int(p) < len(at):
            at[int(p)] = v
        else:
            return None
    else:
        return None
    return doc


def same_but_eh(ctx, old, new, eh):
    """new is old with extra headers eh."""
    g = unpackMSeed3Record(new)
    ctx.check((g.eh or {}) == eh, "extra headers of a selected record")
    n = g.header.extraHeadersLength
    m = len(old["id"])
    ctx.check(new[0:28] == old["bytes"][0:28], "header of a selected record")
    ctx.check(new[32:34] == old["bytes"][32:34], "version and identifier length of a selected record")
    ctx.check(new[36:40 + m] == old["bytes"][36:40 + m], "data length and identifier of a selected record")
    k = g.header.dataLength
    ctx.check(len(new) == 40 + m + n + k, "length of a selected record")
    ctx.check(new[len(new) - k:] == old["bytes"][len(old["bytes"]) - k:], "data of a selected record")


def split(data):
    """The bytes of every record of a file, by its length fields."""
    out = []
    i = 0
    while i < len(data):
        n = 40 + data[i + 33] + data[i + 34] + 256 * data[i + 35] + data[i + 36] + 256 * data[i + 37]
        out.append(data[i:i + n])
        i += n
    return out


def join(recs):
    b = b""
    for r in recs:
        b = b + r["bytes"]
    return b


def content(ctx, files, ids, docs):
    out, k = [], 0
    for f, n in enumerate(files):
        recs = []
        for _ in range(n):
            recs.append(record(ctx, k, ctx.choice(f"r{k}.id", ids),
                               docs[k % len(docs)] if len(docs) > 3 else ctx.choice(f"r{k}.eh", docs)))
            k += 1
        out.append(recs)
    return out


def value(ctx, kind):
    if kind == "text":
        return ctx.str("v", 1, TEXT)
    if kind == "object":
        return {"n": [ctx.str("v", 1, ((97, 122),)), None, {"m": ctx.bool("w")}]}
    if kind == "bool":
        return ctx.bool("v")
    if kind == "number":
        return ctx.choice("v", [0, -1, 17, 1.5, 10 ** 20])
    return {}


def editing(ctx, files, ids, ptrs, kind, docs, mode, crash):
    cmd = importlib.import_module(DETAILS)
    f = content(ctx, files, ids, docs)
    names = [f"f{i}.ms3" for i in range(len(f))]
    old = {n: join(r) for n, r in zip(names, f)}
    v = value(ctx, kind)
    ptr = ctx.choice("ptr", ptrs)
    setall = ctx.choice("all", [False, True])
    match = ctx.choice("match", [None] + sorted(set(i[-1:] + "$" for i in ids)))
    at = ctx.int("crash", 0, 12) if crash else None
    fs = ctx.fs({**old, "v.json": json.dumps(v).encode("utf-8")}, at)
    if mode == "call":
        r = ctx.call(cmd.do_set_eh, ptr, json.dumps(v), names, match, setall)
    else:
        opt = ("--f" if mode == "file" else "--") + ("setall" if setall else "set")
        ctx.argv((["--match", match] if match else [])
                 + [opt, ptr, "v.json" if mode == "file" else json.dumps(v)]
                 + (["--"] if ctx.choice("dd", [False, True]) else []) + names)
        r = ctx.call(cmd.main)
    # what has to come of it
    new, chosen, refused, touched = {}, 0, False, 0
    for n, recs in zip(names, f):
        want = []
        for x in recs:
            sel = (match is None or re.search(match, x["id"]) is not None) and (setall or not chosen)
            if sel:
                chosen += 1
                eh = put(x["eh"], ptr, copy(v) if kind == "number" else v)
                refused = refused or eh is None
                want.append((x, eh))
            else:
                want.append((x, None))
        new[n] = want

    def is_new(n):
        got = fs.read(n)
        parts = split(got)
        ctx.check(len(parts) == len(new[n]), "number of records")
        for b, (x, eh) in zip(parts, new[n]):
            if eh is None:
                ctx.check(b == x["bytes"], "a record that was not selected")
            else:
                same_but_eh(ctx, x, b, eh)
        rr = ctx.call(lambda: list(readMSeed3Records(ctx.file(got))))
        ctx.check(rr.ok and len(rr.value) == len(parts), "the file can be read")

    done = r.ok
    if crash or refused:
        ctx.check(done or refused or r.exname == "Crash", "failed: " + r.exname)
        for n in names:
            ctx.check(fs.read(n) is not None, "a file is missing")
            if fs.read(n) != old[n]:
                is_new(n)
        ctx.reach("refused" if refused else "done" if done else "interrupted")
        return
    ctx.check(done, "failed: " + r.exname)
    for n in names:
        is_new(n)
    ctx.check(fs.names() == sorted(names + ["v.json"]), "files left behind")
    ctx.reach("edited" if chosen else "none")


def getting(ctx, ptrs):
    """The value at a pointer is what the command reports."""
    cmd = importlib.import_module(DETAILS)
    s = ctx.str("s", 1, TEXT)
    doc = {"a": {"b": s, "k": [1, {"n": s}]}, "c": ctx.bool("c")}
    r0 = record(ctx, 0, "FDSN:XX_A", {"x": 1})
    h = MSeed3Header()
    h.year = 2001
    r1 = MSeed3Record(h, "FDSN:XX_B", ctx.array("x", "i2", 1), doc)
    fs = ctx.fs({"f.ms3": r0["bytes"] + bytes(r1.pack())})
    ptr = ctx.choice("ptr", ptrs)
    want = {"/a/b": s, "/a": doc["a"], "/a/k/1": {"n": s}, "/c": doc["c"], "": doc, "/q": None}[ptr]
    with open("out.json", "w", encoding="utf-8") as f:
        r = ctx.call(cmd.do_get_eh, ptr, ["f.ms3"], "B$", ctx.choice("all", [False, True]), f)
    ctx.check(r.ok, "failed: " + r.exname)
    got = fs.read("out.json").decode("utf-8")
    if want is None:
        ctx.check(got == "\n", "no value")
    else:
        ctx.check(json.loads(got) == want, "value")
    ctx.check(fs.read("f.ms3") == r0["bytes"] + bytes(r1.pack()), "the file is unchanged")
    ctx.reach("ok")


AB = ["FDSN:XX_A", "FDSN:XX_B"]
FLAT = ["/c", "/new", "/a~1b", "/t~0"]
DEEP = ["/a/b", "/a/k/0", "/a/k/-", "/z/0/a", "/a/new", "/c/d"]


def cases(tier):
    q = tier == "quick"
    out = []

    def add(name, files, ids, ptrs, kind, docs, mode, crash=False, must=("edited",)):
        out.append(dict(name=name, fn=editing, must=list(must), weight=4 * sum(files),
                        params=dict(files=files, ids=ids, ptrs=ptrs, kind=kind, docs=docs, mode=mode,
                                    crash=crash),
                        bound=f"files of {files} records from sources {ids}, pointers {ptrs}, {kind} "
                        f"values, any match and selection, through the "
                        + ("function" if mode == "call" else "command")
                        + (", interrupted at any point" if crash else "")))
    D3 = DOCS[:3]
    D4 = DOCS[1:] + DOCS[:1]
    add("flat", [2], AB, FLAT, "bool", D3, "call", must=["edited", "none"])
    add("flat-any", [1], AB, FLAT, "text", D3, "call", must=["edited", "none"])
    add("deep", [2], AB[:1], DEEP, "object", D4, "call", must=["edited", "refused"])
    add("deep-any", [1], AB[:1], DEEP, "text", D3, "call", must=["edited", "refused"])
    add("number", [1], AB[:1], ["/c", "/a/b"], "number", D3, "call", must=["edited", "refused"])
    add("three", [3], AB, ["/c"], "bool", DOCS, "call", must=["edited", "none"])
    add("files", [1, 2], AB, ["/c"], "bool", DOCS, "call", must=["edited", "none"])
    add("replace", [2], AB, ["", "/"], "object", D3, "call", must=["edited", "none"])
    add("clear", [2], AB, [""], "empty", D3, "call", must=["edited", "none"])
    add("command", [2], AB, ["/c", ""], "object", DOCS, "argv", must=["edited", "none"])
    add("command-file", [2], AB, ["/c", "/new"], "text", DOCS, "file", must=["edited", "none"])
    add("crash", [2], AB, ["/c"], "bool", DOCS, "call", True, must=["done", "interrupted"])
    add("crash-files", [1, 1], AB[:1], ["/c", ""], "object", DOCS, "call", True, must=["done", "interrupted"])
    add("crash-command", [1, 1], AB, ["/c"], "bool", DOCS, "argv", True, must=["done", "interrupted"])
    if not q:
        add("flat-three", [3], AB, FLAT, "text", DOCS, "call", must=["edited", "none"])
        add("deep-files", [2, 2], AB, DEEP, "text", DOCS, "argv", must=["edited", "refused", "none"])
        add("crash-deep", [2, 1], AB, DEEP, "bool", DOCS, "call", True,
            must=["done", "interrupted", "refused"])
        add("crash-three", [1, 1, 1], AB, ["/c"], "bool", DOCS, "file", True, must=["done", "interrupted"])
    out.append(dict(name="get", fn=getting, must=["ok"], weight=2,
                    params=dict(ptrs=["/a/b", "/a", "/a/k/1", "/c", "", "/q"]),
                    bound="values at the listed pointers of the matching record"))
    return out
