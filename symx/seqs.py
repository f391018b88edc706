"""Symbolic byte strings, text strings and in-memory files.

Lengths are always concrete; elements are ints or solver terms.
"""
import functools
import sys
import z3
from .core import eng, PathUnknown
from .values import (
    Sym, SymInt, SymBool, SymFloat, from_bits, extract, concat, s_and, s_or, s_not, sbool,
    is_sym, int_of, mk, bvval, fit, i_cmp, ite_int, parts as iparts, term, width, num,
)


def clamp_index(x, n):
    """Concrete slice bound in [0, n] (Python clamping rules); forks over <= n+1 values."""
    if x is None:
        return None
    if isinstance(x, SymBool):
        x = x._i()
    if not isinstance(x, SymInt):
        return x.__index__()
    if x.lo < 0 and bool(x < 0):
        y = x + n
        if y.lo < 0 and bool(y < 0):
            return 0
        x = y
        if not isinstance(x, SymInt):
            return min(x, n)
    if x.hi > n:
        if bool(x >= n):
            return n
    return int_of(x)


def slice_bounds(sl, n):
    step = int_of(sl.step) if sl.step is not None else None
    if step is None or step == 1:
        a = clamp_index(sl.start, n)
        b = clamp_index(sl.stop, n)
        return slice(a, b, step).indices(n)
    return slice(int_of(sl.start), int_of(sl.stop), step).indices(n)


def byte_elem(v):
    """Element for a byte value given as int/SymInt; range-checked by the caller."""
    if isinstance(v, int):
        return v
    e = extract(7, 0, fit(v.e, max(8, v.e.size())))
    return e.as_long() if z3.is_bv_value(e) else e


def elem_val(b):
    return b if isinstance(b, int) else from_bits(b, False)


def elem_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    A = bvval(a, 8) if isinstance(a, int) else a
    B = bvval(b, 8) if isinstance(b, int) else b
    if A.eq(B):
        return True
    return sbool(A == B)


def elems_of(x):
    """Byte elements of any bytes-like value (concrete or symbolic)."""
    if isinstance(x, SymBytes):
        return x.b
    if isinstance(x, (bytes, bytearray, memoryview)):
        return list(bytes(x))
    t = getattr(x, "tobytes", None)
    if t is not None:
        return elems_of(t())
    raise TypeError(f"a bytes-like object is required, not '{type(x).__name__}'")


def bytes_like(x):
    return isinstance(x, (SymBytes, bytes, bytearray, memoryview))


def concrete_elems(b):
    return all(isinstance(x, int) for x in b)


class SymBytes(Sym):
    __slots__ = ("b",)
    mutable = False

    def __init__(self, elems=()):
        self.b = list(elems)

    def _new(self, elems):
        return type(self)(elems)

    def __len__(self):
        return len(self.b)

    def __bool__(self):
        return bool(self.b)

    def __iter__(self):
        for x in list(self.b):
            yield elem_val(x)

    def __getitem__(self, i):
        if isinstance(i, slice):
            a, b, s = slice_bounds(i, len(self.b))
            return self._new(self.b[a:b:s] if s > 0 or b >= 0 else self.b[a::s])
        i = int_of(i)
        n = len(self.b)
        if not -n <= i < n:
            raise IndexError("index out of range")
        return elem_val(self.b[i])

    def __eq__(self, o):
        if not bytes_like(o):
            return NotImplemented if not is_sym(o) else False
        ob = elems_of(o)
        if len(ob) != len(self.b):
            return False
        return s_and(*[elem_eq(x, y) for x, y in zip(self.b, ob)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    def __hash__(self):
        return hash(self.concrete())

    def __add__(self, o):
        if not bytes_like(o):
            raise TypeError(f"can't concat {type(o).__name__} to bytes")
        return self._new(self.b + elems_of(o))

    def __radd__(self, o):
        if not bytes_like(o):
            raise TypeError(f"can't concat bytes to {type(o).__name__}")
        cls = SymByteArray if isinstance(o, bytearray) else (
            type(o) if isinstance(o, SymBytes) else SymBytes)
        return cls(elems_of(o) + self.b)

    def __mul__(self, n):
        return self._new(self.b * int_of(n))

    __rmul__ = __mul__

    def __contains__(self, o):
        if bytes_like(o):
            return self.find(o) >= 0
        return bool(s_or(*[elem_val(x) == o for x in self.b]))

    def concrete(self):
        out = bytearray()
        for x in self.b:
            if isinstance(x, int):
                out.append(x)
            else:
                v = eng().concretise(x)
                out.append(v.as_long())
        return bytes(out)

    def __bytes__(self):
        return self.concrete()

    def tobytes(self):
        return SymBytes(self.b)

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return s_or(*[self.startswith(q, start, end) for q in p])
        s = self[start:end]
        pb = elems_of(p)
        if len(pb) > len(s.b):
            return False
        return s[: len(pb)] == SymBytes(pb)

    def endswith(self, p):
        pb = elems_of(p)
        if len(pb) > len(self.b):
            return False
        return self[len(self.b) - len(pb):] == SymBytes(pb)

    def find(self, p, start=0, end=None):
        pb = [byte_elem(p)] if num(p) is not None else elems_of(p)
        n, m = len(self.b), len(pb)
        a, b, _ = slice(int_of(start), int_of(end) if end is not None else None).indices(n)
        for i in range(a, b - m + 1):
            if s_and(*[elem_eq(x, y) for x, y in zip(self.b[i:i + m], pb)]):
                return i
        return -1

    def index(self, p, *a):
        r = self.find(p, *a)
        if r < 0:
            raise ValueError("subsection not found")
        return r

    def _strip(self, chars, left, right):
        cs = elems_of(chars) if chars is not None else [9, 10, 11, 12, 13, 32]
        b = self.b
        i, j = 0, len(b)
        if left:
            while i < j and s_or(*[elem_eq(b[i], c) for c in cs]):
                i += 1
        if right:
            while j > i and s_or(*[elem_eq(b[j - 1], c) for c in cs]):
                j -= 1
        return self._new(b[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def split(self, sep=None, maxsplit=-1):
        return [SymBytes(list(x.encode("latin-1") if isinstance(x, str) else
                              [byte_elem(c) for c in x.chars]))
                for x in self.latin1().split(
                    None if sep is None else SymBytes(elems_of(sep)).latin1(), maxsplit)]

    def latin1(self):
        return SymStr([elem_val(x) for x in self.b])

    def ljust(self, n, fill=b" "):
        return self._new(self.b + elems_of(fill) * max(0, int_of(n) - len(self.b)))

    def rjust(self, n, fill=b" "):
        return self._new(elems_of(fill) * max(0, int_of(n) - len(self.b)) + self.b)

    def hex(self, *a):
        if a:
            return self.concrete().hex(*a)
        out = []
        for x in self.b:
            v = elem_val(x)
            for d in (v >> 4, v & 15):
                out.append(hex_digit(d, False))
        return mkstr(out)

    def join(self, items):
        out = []
        for i, x in enumerate(items):
            if i:
                out += self.b
            out += elems_of(x)
        return SymBytes(out)

    def replace(self, old, new, count=-1):
        ob, nb = elems_of(old), elems_of(new)
        if not ob:
            return SymBytes(list(self.concrete().replace(bytes(ob), bytes(nb))))
        out = []
        i = 0
        while i < len(self.b):
            seg = self.b[i:i + len(ob)]
            if count != 0 and len(seg) == len(ob) and \
                    s_and(*[elem_eq(x, y) for x, y in zip(seg, ob)]):
                out += nb
                i += len(ob)
                count -= 1
            else:
                out.append(self.b[i])
                i += 1
        return self._new(out)

    def decode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        if concrete_elems(self.b):
            return bytes(self.b).decode(encoding, errors)
        if errors not in ("strict", "replace", "ignore"):
            return self.concrete().decode(encoding, errors)
        if enc in ("latin-1", "latin1", "iso-8859-1"):
            return mkstr([elem_val(x) for x in self.b])
        if enc == "ascii":
            out = []
            for i, x in enumerate(self.b):
                v = elem_val(x)
                if v < 128:
                    out.append(narrow(v, 0, 127))
                elif errors == "strict":
                    raise UnicodeDecodeError("ascii", b"?" * len(self.b), i, i + 1,
                                             "ordinal not in range(128)")
                elif errors == "replace":
                    out.append(0xFFFD)
            return mkstr(out)
        if enc not in ("utf-8", "utf8"):
            return self.concrete().decode(encoding, errors)
        if errors != "strict":
            return self.concrete().decode(encoding, errors)
        return mkstr(utf8_decode(self.b))

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(bytes, name):
            raise AttributeError(name)

        def call(*a, **k):
            eng().stats["fallback"] += 1
            return getattr(self.concrete(), name)(*a, **k)
        return call

    def __repr__(self):
        return "<SymBytes>"


def narrow(v, lo, hi):
    """Re-interval a SymInt whose value is known (on this path) to lie in [lo, hi]."""
    if isinstance(v, int):
        return v
    r = mk(v.e, max(lo, v.lo), min(hi, v.hi))
    if isinstance(r, SymInt) and r is not v:
        r.src = v.src
    return r


def utf8_decode(b):
    n = len(b)
    out = []

    def bad(i, j, why):
        raise UnicodeDecodeError("utf-8", b"?" * n, i, j, why)
    i = 0
    while i < n:
        c = elem_val(b[i])
        if c < 0x80:
            out.append(narrow(c, 0, 0x7F))
            i += 1
            continue
        if c < 0xC2:
            bad(i, i + 1, "invalid start byte")
        if c < 0xE0:
            need, base, mask = 1, 0xC0, 0x1F
        elif c < 0xF0:
            need, base, mask = 2, 0xE0, 0x0F
        elif c < 0xF5:
            need, base, mask = 3, 0xF0, 0x07
        else:
            bad(i, i + 1, "invalid start byte")
        v = c & mask
        for k in range(1, need + 1):
            if i + k >= n:
                bad(i, n, "unexpected end of data")
            d = elem_val(b[i + k])
            lo, hi = 0x80, 0xBF
            if k == 1:
                if need == 2:
                    if c == 0xE0:
                        lo = 0xA0
                    elif c == 0xED:
                        hi = 0x9F
                elif need == 3:
                    if c == 0xF0:
                        lo = 0x90
                    elif c == 0xF4:
                        hi = 0x8F
            if s_or(d < lo, d > hi):
                bad(i, i + k, "invalid continuation byte")
            v = (v << 6) | (d & 0x3F)
        lo, hi = {1: (0x80, 0x7FF), 2: (0x800, 0xFFFF), 3: (0x10000, 0x10FFFF)}[need]
        out.append(narrow(v, lo, hi))
        i += need + 1
    return out


class SymByteArray(SymBytes):
    __slots__ = ()
    mutable = True

    def __setitem__(self, i, v):
        if isinstance(i, slice):
            a, b, s = slice_bounds(i, len(self.b))
            ve = elems_of(v) if bytes_like(v) or hasattr(v, "tobytes") else [check_byte(x) for x in v]
            if s == 1:
                self.b[a:max(a, b)] = ve
            else:
                self.b[a:b:s] = ve
            return
        i = int_of(i)
        n = len(self.b)
        if not -n <= i < n:
            raise IndexError("bytearray index out of range")
        self.b[i] = check_byte(v)

    def __delitem__(self, i):
        if isinstance(i, slice):
            a, b, s = slice_bounds(i, len(self.b))
            del self.b[a:b:s]
        else:
            del self.b[int_of(i)]

    def __iadd__(self, o):
        self.b += elems_of(o)
        return self

    def append(self, v):
        self.b.append(check_byte(v))

    def extend(self, v):
        self.b += elems_of(v) if bytes_like(v) else [check_byte(x) for x in v]

    def copy(self):
        return SymByteArray(self.b)

    __copy__ = copy

    def __deepcopy__(self, memo):
        return SymByteArray(self.b)

    def clear(self):
        self.b = []

    def insert(self, i, v):
        self.b.insert(int_of(i), check_byte(v))

    def pop(self, i=-1):
        return elem_val(self.b.pop(int_of(i)))

    def reverse(self):
        self.b.reverse()

    def __hash__(self):
        raise TypeError("unhashable type: 'bytearray'")


def check_byte(v):
    n = num(v)
    if n is None:
        if hasattr(v, "dtype"):
            n = v.as_int() if is_sym(v) else int(v)
        else:
            raise TypeError(f"'{type(v).__name__}' object cannot be interpreted as an integer")
    if isinstance(n, int):
        if not 0 <= n < 256:
            raise ValueError("byte must be in range(0, 256)")
        return n
    if s_or(n < 0, n > 255):
        raise ValueError("byte must be in range(0, 256)")
    return byte_elem(n)


# ---------------------------------------------------------------------------
# text

def chars_of(x):
    if isinstance(x, SymStr):
        return x.chars
    return [ord(c) for c in x]


def mkstr(chars):
    if all(isinstance(c, int) for c in chars):
        return "".join(map(chr, chars))
    return SymStr(chars)


def c_eq(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a == b
    return i_cmp(a, b, "eq")


@functools.lru_cache(None)
def char_ranges(pred):
    """Code point ranges for which the str predicate (by name) holds."""
    out = []
    start = None
    f = CHAR_PRED[pred]
    for c in range(0x110000 + 1):
        ok = c < 0x110000 and f(chr(c))
        if ok and start is None:
            start = c
        elif not ok and start is not None:
            out.append((start, c - 1))
            start = None
    return tuple(out)


CHAR_PRED = {
    "digit": str.isdigit, "decimal": str.isdecimal, "space": str.isspace,
    "alpha": str.isalpha, "alnum": str.isalnum, "upper": str.isupper,
    "lower": str.islower, "word": lambda c: c.isalnum() or c == "_",
    "numeric": str.isnumeric, "printable": str.isprintable,
}


def in_ranges(c, ranges):
    if isinstance(c, int):
        return any(a <= c <= b for a, b in ranges)
    ts = []
    for a, b in ranges:
        if b < c.lo or a > c.hi:
            continue
        if a <= c.lo and b >= c.hi:
            return True
        ts.append(c == a if a == b else s_and(c >= a, c <= b))
    return s_or(*ts)


def hex_digit(d, upper):
    if isinstance(d, int):
        return ord("0123456789ABCDEF"[d] if upper else "0123456789abcdef"[d])
    a = 55 if upper else 87
    return ite_int((d < 10).e if isinstance(d < 10, SymBool) else z3.BoolVal(d < 10), d + 48, d + a)


class SymStr(Sym):
    """Text with symbolic characters; may be a not-yet-rendered format result."""
    __slots__ = ("_c", "_parts")

    def __init__(self, chars=None, parts=None):
        self._c = chars
        self._parts = parts

    @property
    def chars(self):
        if self._c is None:
            out = []
            for p in self._parts:
                if isinstance(p, str):
                    out += [ord(c) for c in p]
                else:
                    out += chars_of(render(*p))
            self._c = out
            self._parts = None
        return self._c

    def __len__(self):
        return len(self.chars)

    def __bool__(self):
        if self._c is None and any(isinstance(p, str) and p for p in self._parts):
            return True
        return len(self.chars) > 0

    def __iter__(self):
        for c in self.chars:
            yield mkstr([c])

    def __getitem__(self, i):
        cs = self.chars
        if isinstance(i, slice):
            a, b, s = slice_bounds(i, len(cs))
            return mkstr(cs[a:b:s] if s > 0 or b >= 0 else cs[a::s])
        i = int_of(i)
        if not -len(cs) <= i < len(cs):
            raise IndexError("string index out of range")
        return mkstr([cs[i]])

    def __eq__(self, o):
        if not isinstance(o, (str, SymStr)):
            return False if is_sym(o) else NotImplemented
        a, b = self.chars, chars_of(o)
        if len(a) != len(b):
            return False
        return s_and(*[c_eq(x, y) for x, y in zip(a, b)])

    def __ne__(self, o):
        r = self.__eq__(o)
        return r if r is NotImplemented else s_not(r)

    def _lex(self, o, strict):
        a, b = self.chars, chars_of(o)
        acc = len(a) < len(b) or (not strict and len(a) == len(b))
        for x, y in reversed(list(zip(a, b))):
            lt, eq = i_cmp(x, y, "lt"), i_cmp(x, y, "eq")
            acc = s_or(lt, s_and(eq, acc))
        return acc

    def __lt__(self, o):
        return self._lex(o, True)

    def __le__(self, o):
        return self._lex(o, False)

    def __gt__(self, o):
        return s_not(self._lex(o, False))

    def __ge__(self, o):
        return s_not(self._lex(o, True))

    def concrete(self):
        return "".join(chr(int_of(c)) for c in self.chars)

    def __hash__(self):
        return hash(self.concrete())

    def __str__(self):
        return "<SymStr>"

    __repr__ = __str__

    def __format__(self, spec):
        return "<SymStr>"

    def __add__(self, o):
        if not isinstance(o, (str, SymStr)):
            raise TypeError(f'can only concatenate str (not "{type(o).__name__}") to str')
        if self._c is None or (isinstance(o, SymStr) and o._c is None):
            return SymStr(parts=self.as_parts() + (o.as_parts() if isinstance(o, SymStr) else [o]))
        return mkstr(self._c + chars_of(o))

    def __radd__(self, o):
        if not isinstance(o, str):
            raise TypeError(f'can only concatenate str (not "str") to {type(o).__name__}')
        if self._c is None:
            return SymStr(parts=[o] + self.as_parts())
        return mkstr(chars_of(o) + self._c)

    def as_parts(self):
        if self._c is None:
            return list(self._parts)
        return [(self, None, "")]

    def __mul__(self, n):
        return mkstr(self.chars * int_of(n))

    __rmul__ = __mul__

    def __contains__(self, o):
        return bool(self.contains(o))

    def contains(self, o):
        a, b = self.chars, chars_of(o)
        return s_or(*[s_and(*[c_eq(x, y) for x, y in zip(a[i:], b)])
                      for i in range(len(a) - len(b) + 1)])

    def startswith(self, p, start=0, end=None):
        if isinstance(p, tuple):
            return s_or(*[self.startswith(q, start, end) for q in p])
        s = chars_of(self[start:end])
        b = chars_of(p)
        if len(b) > len(s):
            return False
        return s_and(*[c_eq(x, y) for x, y in zip(s, b)])

    def endswith(self, p):
        if isinstance(p, tuple):
            return s_or(*[self.endswith(q) for q in p])
        s, b = self.chars, chars_of(p)
        if len(b) > len(s):
            return False
        return s_and(*[c_eq(x, y) for x, y in zip(s[len(s) - len(b):], b)])

    def find(self, p, start=0, end=None):
        a, b = self.chars, chars_of(p)
        lo, hi, _ = slice(int_of(start), None if end is None else int_of(end)).indices(len(a))
        for i in range(lo, hi - len(b) + 1):
            if s_and(*[c_eq(x, y) for x, y in zip(a[i:], b)]):
                return i
        return -1

    def rfind(self, p, start=0, end=None):
        a, b = self.chars, chars_of(p)
        lo, hi, _ = slice(int_of(start), None if end is None else int_of(end)).indices(len(a))
        for i in range(hi - len(b), lo - 1, -1):
            if s_and(*[c_eq(x, y) for x, y in zip(a[i:], b)]):
                return i
        return -1

    def index(self, p, *a):
        r = self.find(p, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def rindex(self, p, *a):
        r = self.rfind(p, *a)
        if r < 0:
            raise ValueError("substring not found")
        return r

    def count(self, p):
        a, b = self.chars, chars_of(p)
        if not b:
            return len(a) + 1
        n = i = 0
        while i + len(b) <= len(a):
            if s_and(*[c_eq(x, y) for x, y in zip(a[i:], b)]):
                n += 1
                i += len(b)
            else:
                i += 1
        return n

    def split(self, sep=None, maxsplit=-1):
        a = self.chars
        maxsplit = int_of(maxsplit)
        out = []
        if sep is None:
            sp = char_ranges("space")
            i = 0
            n = len(a)
            while True:
                while i < n and in_ranges_b(a[i], sp):
                    i += 1
                if i >= n:
                    return out
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and in_ranges_b(a[j - 1], sp):
                        j -= 1
                    out.append(mkstr(a[i:j]))
                    return out
                j = i
                while j < n and not in_ranges_b(a[j], sp):
                    j += 1
                out.append(mkstr(a[i:j]))
                i = j
        b = chars_of(sep)
        if not b:
            raise ValueError("empty separator")
        i = last = 0
        while i + len(b) <= len(a):
            if (maxsplit < 0 or len(out) < maxsplit) and \
                    s_and(*[c_eq(x, y) for x, y in zip(a[i:], b)]):
                out.append(mkstr(a[last:i]))
                i += len(b)
                last = i
            else:
                i += 1
        out.append(mkstr(a[last:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        if sep is None or maxsplit < 0 or len(sep) != 1:
            if maxsplit < 0:
                return self.split(sep)
            return self.concrete().rsplit(sep, maxsplit)
        r = mkstr(self.chars[::-1])
        ps = r.split(sep, maxsplit) if isinstance(r, str) else SymStr.split(r, sep, maxsplit)
        return [p[::-1] for p in reversed(ps)]

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return (self, "", "")
        return (self[:i], sep, self[i + len(sep):])

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return ("", "", self)
        return (self[:i], sep, self[i + len(sep):])

    def _strip(self, chars, left, right):
        a = self.chars
        if chars is None:
            test = lambda c: in_ranges(c, char_ranges("space"))
        else:
            cs = chars_of(chars)
            test = lambda c: s_or(*[c_eq(c, x) for x in cs])
        i, j = 0, len(a)
        if left:
            while i < j and test(a[i]):
                i += 1
        if right:
            while j > i and test(a[j - 1]):
                j -= 1
        return mkstr(a[i:j])

    def strip(self, chars=None):
        return self._strip(chars, True, True)

    def lstrip(self, chars=None):
        return self._strip(chars, True, False)

    def rstrip(self, chars=None):
        return self._strip(chars, False, True)

    def removeprefix(self, p):
        return self[len(p):] if self.startswith(p) else self

    def removesuffix(self, p):
        return self[:len(self) - len(p)] if len(p) and self.endswith(p) else self

    def replace(self, old, new, count=-1):
        a, ob, nb = self.chars, chars_of(old), chars_of(new)
        if not ob:
            return self.concrete().replace(conc(old), conc(new), count)
        out = []
        i = 0
        while i < len(a):
            if count != 0 and i + len(ob) <= len(a) and \
                    s_and(*[c_eq(x, y) for x, y in zip(a[i:], ob)]):
                out += nb
                i += len(ob)
                count -= 1
            else:
                out.append(a[i])
                i += 1
        return mkstr(out)

    def join(self, items):
        return str_join(self, items)

    def ljust(self, n, fill=" "):
        n = int_of(n)
        a = self.chars
        return mkstr(a + chars_of(fill) * max(0, n - len(a)))

    def rjust(self, n, fill=" "):
        n = int_of(n)
        a = self.chars
        return mkstr(chars_of(fill) * max(0, n - len(a)) + a)

    def center(self, n, fill=" "):
        n = int_of(n)
        a = self.chars
        marg = n - len(a)
        if marg <= 0:
            return self
        left = marg // 2 + (marg & n & 1)
        f = chars_of(fill)
        return mkstr(f * left + a + f * (marg - left))

    def zfill(self, n):
        n = int_of(n)
        a = self.chars
        if len(a) >= n:
            return self
        if a and s_or(c_eq(a[0], 43), c_eq(a[0], 45)):
            return mkstr([a[0]] + [48] * (n - len(a)) + a[1:])
        return mkstr([48] * (n - len(a)) + a)

    def _all(self, pred):
        a = self.chars
        if not a:
            return False
        r = char_ranges(pred)
        return s_and(*[in_ranges(c, r) for c in a])

    def isdigit(self):
        return self._all("digit")

    def isdecimal(self):
        return self._all("decimal")

    def isnumeric(self):
        return self._all("numeric")

    def isspace(self):
        return self._all("space")

    def isalpha(self):
        return self._all("alpha")

    def isalnum(self):
        return self._all("alnum")

    def isprintable(self):
        r = char_ranges("printable")
        return s_and(*[in_ranges(c, r) for c in self.chars])

    def isascii(self):
        return s_and(*[i_cmp(c, 127, "le") for c in self.chars])

    def _case(self, lo, hi, delta, name):
        out = []
        for c in self.chars:
            if isinstance(c, int):
                out += [ord(x) for x in getattr(chr(c), name)()]
            elif c.hi < 128 or c < 128:
                cond = s_and(c >= lo, c <= hi)
                cc = cond.e if isinstance(cond, SymBool) else z3.BoolVal(cond)
                out.append(ite_int(cc, c + delta, c))
            else:
                out += [ord(x) for x in getattr(chr(int_of(c)), name)()]
        return mkstr(out)

    def upper(self):
        return self._case(97, 122, -32, "upper")

    def lower(self):
        return self._case(65, 90, 32, "lower")

    def isupper(self):
        return self.concrete().isupper()

    def islower(self):
        return self.concrete().islower()

    def encode(self, encoding="utf-8", errors="strict"):
        enc = encoding.lower().replace("_", "-")
        cs = self.chars
        if enc in ("utf-8", "utf8"):
            return SymBytes(utf8_encode(cs))
        lim = {"ascii": 128, "us-ascii": 128, "latin-1": 256, "latin1": 256,
               "iso-8859-1": 256}.get(enc)
        if lim is None or errors not in ("strict", "replace", "ignore"):
            return self.concrete().encode(encoding, errors)
        out = []
        for i, c in enumerate(cs):
            if c < lim:
                out.append(byte_elem(c))
            elif errors == "strict":
                raise UnicodeEncodeError(enc, "?" * len(cs), i, i + 1, "ordinal not in range")
            elif errors == "replace":
                out.append(63)
        return SymBytes(out)

    def format(self, *a, **k):
        return self.concrete().format(*a, **k)

    def __mod__(self, a):
        return self.concrete() % a

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(str, name):
            raise AttributeError(name)

        def call(*a, **k):
            eng().stats["fallback"] += 1
            return getattr(self.concrete(), name)(*a, **k)
        return call

    def _sx_merge_key(self):
        return ("symstr", len(self._c)) if self._c is not None else None

    def _sx_merge(self, c, o):
        b = chars_of(o)
        return mkstr([ite_int(c, x, y) for x, y in zip(self.chars, b)])


def conc(x):
    if isinstance(x, (SymStr, SymBytes)):
        return x.concrete()
    if isinstance(x, SymInt):
        return int_of(x)
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymFloat):
        return float(x)
    c = getattr(x, "concrete", None)
    if c is not None and is_sym(x):
        return c()
    if isinstance(x, list):
        return [conc(y) for y in x]
    if isinstance(x, tuple):
        return tuple(conc(y) for y in x)
    if isinstance(x, dict):
        return {conc(k): conc(v) for k, v in x.items()}
    return x


def in_ranges_b(c, r):
    return bool(in_ranges(c, r))


def str_join(sep, items):
    out = []
    first = True
    lazy = False
    items = list(items)
    for x in items:
        if not isinstance(x, (str, SymStr)):
            raise TypeError(f"sequence item: expected str instance, {type(x).__name__} found")
    for x in items:
        if not first:
            out += chars_of(sep)
        first = False
        out += chars_of(x)
    return mkstr(out)


def utf8_encode(cs):
    out = []
    for i, c in enumerate(cs):
        if isinstance(c, int):
            out += list(chr(c).encode("utf-8"))
            continue
        if c < 0x80:
            out.append(byte_elem(c))
        elif c < 0x800:
            out += [byte_elem((c >> 6) & 0x1F | 0xC0), byte_elem((c & 0x3F) | 0x80)]
        elif c < 0x10000:
            if s_and(c >= 0xD800, c <= 0xDFFF):
                raise UnicodeEncodeError("utf-8", "?" * len(cs), i, i + 1,
                                         "surrogates not allowed")
            out += [byte_elem(((c >> 12) & 0xF) | 0xE0), byte_elem(((c >> 6) & 0x3F) | 0x80),
                    byte_elem((c & 0x3F) | 0x80)]
        else:
            out += [byte_elem(((c >> 18) & 7) | 0xF0), byte_elem(((c >> 12) & 0x3F) | 0x80),
                    byte_elem(((c >> 6) & 0x3F) | 0x80), byte_elem((c & 0x3F) | 0x80)]
    return out


# ---- rendering -------------------------------------------------------------
def digits(v, base, minw=0, upper=False):
    """Character codes of a non-negative integer; forks on the digit count."""
    if isinstance(v, int):
        s = {10: f"{v:d}", 16: f"{v:X}" if upper else f"{v:x}", 2: f"{v:b}", 8: f"{v:o}"}[base]
        return [ord(c) for c in s.rjust(minw, "0")]
    n = max(1, minw)
    while base ** n <= v.hi and bool(v >= base ** n):
        n += 1
    v = narrow(v, 0 if n == max(1, minw) else base ** (n - 1), min(v.hi, base ** n - 1))
    out = []
    for _ in range(n):
        d = v % base
        v = v // base
        out.append(hex_digit(d, upper) if base == 16 else d + 48)
    return out[::-1]


import re as _re
_SPEC = _re.compile(r"(?:(.)?([<>=^]))?([-+ ])?(#)?(0)?(\d+)?([,_])?(?:\.(\d+))?([a-zA-Z%])?$")


def render(v, conv, spec):
    """Text (str/SymStr) of one replacement field."""
    if conv == "r" or conv == "a":
        if not contains_sym(v):
            v = repr(v)
        elif isinstance(v, SymStr):
            v = repr(v.concrete())
        else:
            v = tostr(v)
    elif conv == "s":
        v = tostr(v)
    if isinstance(spec, SymStr):
        spec = spec.concrete()
    if not is_sym(v):
        if spec == "" and contains_sym(v):
            return tostr(v)
        return format(v, spec)
    if hasattr(v, "_sx_format"):
        return v._sx_format(spec)
    if hasattr(v, "as_int"):
        v = v.as_int()
    if isinstance(v, SymBool):
        if spec == "":
            return "True" if v else "False"
        v = v._i()
    if hasattr(v, "as_float"):
        v = v.as_float()
    if isinstance(v, int):
        return format(v, spec)
    m = _SPEC.match(spec)
    if isinstance(v, SymInt) and m and not m.group(7) and not m.group(8):
        fill, align, sign, alt, zero, w, _, _, ty = m.groups()
        ty = ty or "d"
        w = int(w) if w else 0
        if ty in "dxXbo" and not (alt and ty != "d"):
            base = {"d": 10, "x": 16, "X": 16, "b": 2, "o": 8}[ty]
            neg = v.lo < 0 and bool(v < 0)
            pre = [45] if neg else ([ord(sign)] if sign in ("+", " ") else [])
            a = narrow(-v, 0, -v.lo) if neg else narrow(v, 0, v.hi)
            if zero and not align:
                return mkstr(pre + digits(a, base, w - len(pre), ty == "X"))
            out = pre + digits(a, base, 0, ty == "X")
            pad = max(0, w - len(out))
            f = [ord(fill)] if fill else ([48] if zero else [32])
            if align == "<":
                return mkstr(out + f * pad)
            if align == "^":
                return mkstr(f * (pad // 2) + out + f * (pad - pad // 2))
            if align == "=":
                return mkstr(pre + f * pad + out[len(pre):])
            return mkstr(f * pad + out)
    if isinstance(v, SymStr):
        if spec == "":
            return v
        if m and not m.group(8) and m.group(9) in (None, "s") and not m.group(3):
            fill, align, w = m.group(1) or " ", m.group(2) or "<", int(m.group(6) or 0)
            if align == "<":
                return v.ljust(w, fill)
            if align == ">":
                return v.rjust(w, fill)
    eng().stats["fallback"] += 1
    return format(conc(v), spec)


def contains_sym(v, depth=3):
    if is_sym(v):
        return True
    if depth and isinstance(v, (list, tuple, set)):
        return any(contains_sym(x, depth - 1) for x in v)
    if depth and isinstance(v, dict):
        return any(contains_sym(x, depth - 1) for kv in v.items() for x in kv)
    return False


def tostr(v):
    """str(v) for possibly symbolic v."""
    if isinstance(v, SymStr):
        return v
    if isinstance(v, SymBytes):
        return repr(v.concrete())
    if isinstance(v, SymFloat):
        return SymStr(parts=[(v, None, "")])
    if isinstance(v, (SymInt, SymBool)):
        return SymStr(parts=[(v, None, "")])
    if is_sym(v) and hasattr(v, "_sx_str"):
        return v._sx_str()
    if is_sym(v):
        return SymStr(parts=[(v, None, "")])
    s = getattr(type(v), "__str__", None)
    import types
    if isinstance(s, types.FunctionType):
        return s(v)
    if isinstance(v, BaseException) and any(contains_sym(a) for a in v.args):
        if len(v.args) == 1:
            return tostr(v.args[0])
    if contains_sym(v):
        return str(conc(v))
    return str(v)


def fstr(*ps):
    """f-string: literal strs and (value, conv, spec) triples."""
    if not any(not isinstance(p, str) and (contains_sym(p[0]) or is_sym(p[2]) or userstr(p[0]))
               for p in ps):
        out = []
        for p in ps:
            if isinstance(p, str):
                out.append(p)
            else:
                v, cv, sp = p
                if cv == "r":
                    v = repr(v)
                elif cv == "s":
                    v = str(v)
                elif cv == "a":
                    v = ascii(v)
                out.append(format(v, sp))
        return "".join(out)
    parts = []
    for p in ps:
        if isinstance(p, str):
            parts.append(p)
            continue
        v, cv, sp = p
        if not contains_sym(v) and not is_sym(sp):
            if userstr(v) and sp == "" and cv != "r":
                v = tostr(v)
                if isinstance(v, str):
                    parts.append(v)
                else:
                    parts += v.as_parts()
            elif userstr(v) and cv == "r":
                r = type(v).__repr__(v)
                parts.append(r) if isinstance(r, str) else parts.append((r, None, ""))
            else:
                parts.append(fstr((v, cv, sp)))
        elif isinstance(v, SymStr) and sp == "" and cv != "r":
            parts += v.as_parts()
        else:
            parts.append((freeze(v), cv, sp))
    s = "".join(parts) if all(isinstance(p, str) for p in parts) else None
    if s is not None:
        return s
    if all(isinstance(p, str) or isinstance(p[0], SymStr) and p[0]._c is not None and p[2] == ""
           for p in parts):
        return mkstr([c for p in parts for c in (chars_of(p) if isinstance(p, str) else p[0].chars)])
    return SymStr(parts=parts)


def freeze(v):
    """Snapshot mutable containers so that late rendering sees the value of now."""
    if isinstance(v, list):
        return list(v)
    if isinstance(v, dict):
        return dict(v)
    if isinstance(v, SymByteArray):
        return SymByteArray(v.b)
    return v


def userstr(v):
    """Does str(v) run instrumented Python code?"""
    import types
    t = type(v)
    if isinstance(v, BaseException):
        return any(contains_sym(a) for a in v.args)
    return isinstance(getattr(t, "__str__", None), types.FunctionType) or \
        isinstance(getattr(t, "__format__", None), types.FunctionType)


# ---------------------------------------------------------------------------
class SymFile(Sym):
    """In-memory binary file."""

    def __init__(self, data=(), readable=True, writable=True, on_close=None, append=False):
        self.d = list(data)
        self.pos = 0
        self.readable_ = readable
        self.writable_ = writable
        self.closed = False
        self.on_close = on_close
        self.append = append
        self.on_write = None

    def _chk(self):
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def read(self, n=-1):
        self._chk()
        if not self.readable_:
            import io
            raise io.UnsupportedOperation("not readable")
        rest = max(0, len(self.d) - self.pos)
        if n is None:
            k = rest
        elif isinstance(n, (SymInt, SymBool)):
            n = num(n)
            if n.lo < 0 and bool(n < 0):
                k = rest
            else:
                k = clamp_index(narrow(n, 0, n.hi), rest)
        else:
            n = n.__index__()
            k = rest if n < 0 else min(n, rest)
        out = SymBytes(self.d[self.pos:self.pos + k])
        self.pos += k
        return out

    def readinto(self, buf):
        b = self.read(len(buf))
        buf[0:len(b)] = b
        return len(b)

    def write(self, data):
        self._chk()
        if not self.writable_:
            import io
            raise io.UnsupportedOperation("not writable")
        if isinstance(data, (str, SymStr)):
            raise TypeError("a bytes-like object is required, not 'str'")
        e = elems_of(data)
        if self.append:
            self.pos = len(self.d)
        if self.pos > len(self.d):
            self.d += [0] * (self.pos - len(self.d))
        self.d[self.pos:self.pos + len(e)] = e
        self.pos += len(e)
        if self.on_write:
            self.on_write(self)
        return len(e)

    def seek(self, off, whence=0):
        self._chk()
        off = int_of(off)
        base = {0: 0, 1: self.pos, 2: len(self.d)}[whence]
        self.pos = max(0, base + off)
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, n=None):
        n = self.pos if n is None else int_of(n)
        del self.d[n:]
        return n

    def flush(self):
        pass

    def fileno(self):
        return 99

    def readable(self):
        return self.readable_

    def writable(self):
        return self.writable_

    def seekable(self):
        return True

    def peek(self, n=0):
        return SymBytes(self.d[self.pos:])

    def getvalue(self):
        return SymBytes(self.d)

    def getbuffer(self):
        return SymBytes(self.d)

    def close(self):
        if not self.closed:
            self.closed = True
            if self.on_close:
                self.on_close(self)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False

    def __iter__(self):
        raise PathUnknown("line iteration of a binary file")
