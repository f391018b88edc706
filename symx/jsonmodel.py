"""json.dumps / json.loads for documents with symbolic leaves."""
import io
import json

from .core import eng, PathUnknown
from .values import Sym, SymInt, SymBool, SymFloat, is_sym, s_and, s_or, s_not, i_cmp, num
from .seqs import (SymStr, SymBytes, chars_of, mkstr, in_ranges, conc, contains_sym, digits,
                   narrow, tostr, hex_digit, c_eq)

ESC = {8: "b", 9: "t", 10: "n", 12: "f", 13: "r", 34: '"', 92: "\\"}


def enc_char(c, ascii_):
    if isinstance(c, int):
        return [ord(x) for x in json.dumps(chr(c), ensure_ascii=ascii_)[1:-1]]
    plain = ((32, 33), (35, 91), (93, 126 if ascii_ else 0x10FFFF))
    if not ascii_:
        plain = ((32, 33), (35, 91), (93, 0x10FFFF))
    else:
        plain = ((32, 33), (35, 91), (93, 127))
    if in_ranges(c, plain):
        return [c]
    for k, v in ESC.items():
        if c == k:
            return [92, ord(v)]
    def u4(v):
        return [92, 117] + [hex_digit((v >> s) & 15, False) for s in (12, 8, 4, 0)]
    if c < 0x10000:
        return u4(c)
    v = c - 0x10000
    return u4(0xD800 | ((v >> 10) & 0x3FF)) + u4(0xDC00 | (v & 0x3FF))


def quote(s, ascii_):
    out = [34]
    for c in chars_of(s):
        out += enc_char(c, ascii_)
    return out + [34]


def h_dumps(obj, *, skipkeys=False, ensure_ascii=True, check_circular=True, allow_nan=True,
            cls=None, indent=None, separators=None, default=None, sort_keys=False, **kw):
    if not contains_sym(obj, 12):
        return json.dumps(obj, skipkeys=skipkeys, ensure_ascii=ensure_ascii,
                          allow_nan=allow_nan, cls=cls, indent=indent, separators=separators,
                          default=default, sort_keys=sort_keys, **kw)
    if cls is not None or skipkeys:
        raise PathUnknown("json.dumps options")
    if separators is None:
        separators = (", ", ": ") if indent is None else (",", ": ")
    if isinstance(indent, int):
        indent = " " * indent
    isep = [ord(c) for c in separators[0]]
    ksep = [ord(c) for c in separators[1]]

    def nl(level):
        return [10] + [ord(c) for c in indent * level] if indent is not None else []

    def go(v, level):
        if v is None:
            return [ord(c) for c in "null"]
        if isinstance(v, bool):
            return [ord(c) for c in ("true" if v else "false")]
        if isinstance(v, SymBool) and not v._np:
            return [ord(c) for c in ("true" if v else "false")]
        if isinstance(v, (str, SymStr)):
            return quote(v, ensure_ascii)
        if isinstance(v, (int, SymInt)):
            return chars_of(tostr(v))
        if isinstance(v, (float, SymFloat)):
            return [ord(c) for c in json.dumps(conc(v), allow_nan=allow_nan)]
        if isinstance(v, (list, tuple)):
            if not v:
                return [91, 93]
            out = [91]
            for i, x in enumerate(v):
                out += (isep if i else []) + nl(level + 1) + go(x, level + 1)
            return out + nl(level) + [93]
        if isinstance(v, dict):
            if not v:
                return [123, 125]
            out = [123]
            items = list(v.items())
            if sort_keys:
                items.sort()
            for i, (k, x) in enumerate(items):
                if not isinstance(k, (str, SymStr)):
                    k = {True: "true", False: "false", None: "null"}.get(k) \
                        if k is None or isinstance(k, bool) else tostr(k)
                out += (isep if i else []) + nl(level + 1) + quote(k, ensure_ascii) + ksep + \
                    go(x, level + 1)
            return out + nl(level) + [125]
        if default is not None:
            return go(default(v), level)
        raise TypeError(f"Object of type {type(v).__name__} is not JSON serializable")
    return mkstr(go(obj, 0))


WS = ((9, 10), (13, 13), (32, 32))
DIG = ((48, 57),)


class _P:
    def __init__(self, cs):
        self.c = cs
        self.i = 0

    def fail(self, msg, i=None):
        raise json.JSONDecodeError(msg, "?" * len(self.c), self.i if i is None else i)

    def ws(self):
        while self.i < len(self.c) and bool(in_ranges(self.c[self.i], WS)):
            self.i += 1

    def at(self, ch):
        return self.i < len(self.c) and bool(c_eq(self.c[self.i], ord(ch)))

    def lit(self, word):
        if len(self.c) - self.i < len(word):
            return False
        if bool(s_and(*[c_eq(self.c[self.i + k], ord(w)) for k, w in enumerate(word)])):
            self.i += len(word)
            return True
        return False

    def value(self):
        if self.i >= len(self.c):
            self.fail("Expecting value")
        if self.at('"'):
            self.i += 1
            return self.string()
        if self.at("{"):
            self.i += 1
            return self.obj()
        if self.at("["):
            self.i += 1
            return self.arr()
        for w, v in (("null", None), ("true", True), ("false", False), ("NaN", float("nan")),
                     ("Infinity", float("inf")), ("-Infinity", float("-inf"))):
            if self.lit(w):
                return v
        return self.number()

    def digs(self):
        st = self.i
        while self.i < len(self.c) and bool(in_ranges(self.c[self.i], DIG)):
            self.i += 1
        return self.c[st:self.i]

    def number(self):
        st = self.i
        neg = self.at("-")
        if neg:
            self.i += 1
        if self.at("0"):
            self.i += 1
            ip = [48]
        else:
            ip = self.digs()
        if not ip:
            self.fail("Expecting value", st)
        isf = False
        if self.at("."):
            save = self.i
            self.i += 1
            if self.digs():
                isf = True
            else:
                self.i = save
        if self.at("e") or self.at("E"):
            save = self.i
            self.i += 1
            if self.at("+") or self.at("-"):
                self.i += 1
            if self.digs():
                isf = True
            else:
                self.i = save
        if isf:
            return float(conc(mkstr(self.c[st:self.i])))
        v = 0
        for c in ip:
            v = v * 10 + ((narrow(c, 48, 57) if isinstance(c, SymInt) else c) - 48)
        return -v if neg else v

    def string(self):
        out = []
        st = self.i
        while True:
            if self.i >= len(self.c):
                self.fail("Unterminated string starting at", st - 1)
            c = self.c[self.i]
            if bool(c_eq(c, 34)):
                self.i += 1
                return mkstr(out)
            if bool(c_eq(c, 92)):
                self.i += 1
                if self.i >= len(self.c):
                    self.fail("Unterminated string starting at", st - 1)
                e = self.c[self.i]
                if not isinstance(e, int):
                    from .values import int_of
                    e = int_of(e)
                if e == 117:
                    h = self.hex4(self.i + 1)
                    self.i += 5
                    if bool(in_ranges(h, ((0xD800, 0xDBFF),))) and self.i + 1 < len(self.c) and \
                            bool(s_and(c_eq(self.c[self.i], 92), c_eq(self.c[self.i + 1], 117))):
                        h2 = self.hex4(self.i + 2)
                        if bool(in_ranges(h2, ((0xDC00, 0xDFFF),))):
                            h = 0x10000 + (((h - 0xD800) << 10) | (h2 - 0xDC00))
                            if isinstance(h, SymInt):
                                h = narrow(h, 0x10000, 0x10FFFF)
                            self.i += 6
                    out.append(h)
                    continue
                back = {v: k for k, v in ESC.items()}
                back["/"] = 47
                if chr(e) not in back:
                    self.fail("Invalid \\escape: ", self.i - 1)
                out.append(back[chr(e)])
                self.i += 1
                continue
            if bool(i_cmp(c, 32, "lt")):
                self.fail("Invalid control character at")
            out.append(c)
            self.i += 1

    def hex4(self, i):
        cs = self.c[i:i + 4]
        if len(cs) < 4:
            self.fail("Invalid \\uXXXX escape", i - 1)
        v = 0
        for c in cs:
            if in_ranges(c, DIG):
                d = (narrow(c, 48, 57) if isinstance(c, SymInt) else c) - 48
            elif in_ranges(c, ((65, 70),)):
                d = (narrow(c, 65, 70) if isinstance(c, SymInt) else c) - 55
            elif in_ranges(c, ((97, 102),)):
                d = (narrow(c, 97, 102) if isinstance(c, SymInt) else c) - 87
            else:
                self.fail("Invalid \\uXXXX escape", i - 1)
            v = v * 16 + d
        return v

    def obj(self):
        pairs = {}
        self.ws()
        if self.at("}"):
            self.i += 1
            return pairs
        while True:
            if not self.at('"'):
                self.fail("Expecting property name enclosed in double quotes")
            self.i += 1
            k = self.string()
            self.ws()
            if not self.at(":"):
                self.fail("Expecting ':' delimiter")
            self.i += 1
            self.ws()
            v = self.value()
            if is_sym(k):
                hit = False
                for kk in list(pairs):
                    if bool(k == kk):
                        pairs[kk] = v
                        hit = True
                        break
                if not hit:
                    pairs[k if isinstance(k, str) else SymKey(k)] = v
            else:
                pairs[k] = v
            self.ws()
            if self.at("}"):
                self.i += 1
                return pairs
            if not self.at(","):
                self.fail("Expecting ',' delimiter")
            self.i += 1
            self.ws()

    def arr(self):
        out = []
        self.ws()
        if self.at("]"):
            self.i += 1
            return out
        while True:
            out.append(self.value())
            self.ws()
            if self.at("]"):
                self.i += 1
                return out
            if not self.at(","):
                self.fail("Expecting ',' delimiter")
            self.i += 1
            self.ws()


def SymKey(k):
    return k.concrete()


def h_loads(s, **kw):
    if isinstance(s, SymBytes):
        if s and bool(s[0] == 0) or len(s) > 1 and bool(s[1] == 0):
            return json.loads(conc(s), **kw)
        if len(s) >= 2 and bool(s_or(s[0] >= 0xEF)) :
            # possible byte order mark
            if bool(s_or(s_and(s[0] >= 0xFE, s[1] >= 0xFE),
                         s_and(s[0] == 0xEF, s[1] == 0xBB))):
                return json.loads(conc(s), **kw)
        s = s.decode("utf-8", "surrogatepass")
    if not is_sym(s) or kw:
        return json.loads(conc(s), **kw)
    cs = s.chars
    if cs and bool(c_eq(cs[0], 0xFEFF)):
        raise json.JSONDecodeError("Unexpected UTF-8 BOM (decode using utf-8-sig)", "?", 0)
    p = _P(cs)
    p.ws()
    v = p.value()
    p.ws()
    if p.i != len(cs):
        p.fail("Extra data")
    return v


def install(H, S, F):
    F[json.dumps] = lambda obj, **k: h_dumps(obj, **k)
    F[json.loads] = lambda s, **k: h_loads(s, **k) if is_sym(s) else json.loads(s, **k)

    def load(fp, **k):
        data = fp.read()
        return F[json.loads](data, **k)
    F[json.load] = load

    def dump(obj, fp, **k):
        fp.write(h_dumps(obj, **k))
    F[json.dump] = dump
