"""Dispatch of every call made by instrumented code."""
import array
import builtins
import collections
import copy
import datetime as _dt
import functools
import io
import itertools
import json
import math
import operator
import os
import re
import struct
import sys
import types

import numpy as np
import z3

from . import core, npmodel, structmodel, crcmodel
from .core import eng, Steer, PathUnknown, TrialFork, SubGiveUp
from .values import (
    Sym, SymInt, SymBool, SymFloat, num, is_sym, int_of, s_and, s_or, s_not, sbool, merge_key,
    merge_values, ite_int, i_cmp, as_bool_term,
)
from .seqs import (
    SymBytes, SymByteArray, SymStr, SymFile, elems_of, elem_val, bytes_like, conc, mkstr,
    chars_of, tostr, fstr, contains_sym, check_byte, digits, in_ranges, char_ranges, str_join,
    render, concrete_elems, narrow,
)
from .npmodel import SymNp, SymArray, SymArrayArray


def type_of(x):
    if not is_sym(x):
        return type(x)
    if isinstance(x, SymInt):
        return int
    if isinstance(x, SymBool):
        return np.bool_ if x._np else bool
    if isinstance(x, SymFloat):
        return float
    if isinstance(x, SymByteArray):
        return bytearray
    if isinstance(x, SymBytes):
        return bytes
    if isinstance(x, SymStr):
        return str
    if isinstance(x, SymNp):
        return x.dtype.type
    if isinstance(x, SymArray):
        return np.ndarray
    if isinstance(x, SymArrayArray):
        return array.array
    if isinstance(x, SymFile):
        return io.BufferedRandom
    t = getattr(type(x), "_sx_type", None)
    return t if t is not None else type(x)


def h_isinstance(x, t):
    if is_sym(x):
        return issubclass(type_of(x), t)
    return isinstance(x, t)


def h_type(*a, **k):
    if len(a) == 1 and not k:
        return type_of(a[0])
    return type(*a, **k)


ASCII_DIG = ((48, 57),)


def parse_int(s, base=10):
    cs = chars_of(s)
    base = int_of(base)
    if base != 10 or not cs:
        return int(conc(s), base)
    def fail():
        raise ValueError(f"invalid literal for int() with base {base}")
    dig = s_and(*[in_ranges(c, ASCII_DIG) for c in cs])
    if not dig:
        # leave the plain-ASCII-digits fragment
        asc = s_and(*[i_cmp(c, 127, "le") for c in cs])
        if not asc:
            return int(conc(s), base)
        i, j = 0, len(cs)
        ws = ((9, 13), (28, 32))
        while i < j and in_ranges(cs[i], ws):
            i += 1
        while j > i and in_ranges(cs[j - 1], ws):
            j -= 1
        if i == j:
            fail()
        neg = False
        if s_or(i_cmp(cs[i], 43, "eq"), i_cmp(cs[i], 45, "eq")):
            neg = bool(i_cmp(cs[i], 45, "eq"))
            i += 1
        body = cs[i:j]
        out = []
        prev_us = True
        for c in body:
            if in_ranges(c, ASCII_DIG):
                out.append(c)
                prev_us = False
            elif not prev_us and i_cmp(c, 95, "eq"):
                prev_us = True
            else:
                fail()
        if prev_us:
            fail()
        v = _digval(out)
        return -v if neg else v
    return _digval(cs)


def _digval(cs):
    v = 0
    for c in cs:
        v = v * 10 + (narrow(c, 48, 57) - 48)
    return v


def h_int(*a, **k):
    if not a:
        return int(*a, **k)
    x = a[0]
    if not is_sym(x):
        return int(*conc(a), **conc(k))
    if isinstance(x, SymInt):
        return x
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, SymFloat):
        return x.trunc()
    if isinstance(x, SymNp):
        return x.as_int()
    if isinstance(x, SymStr):
        return parse_int(x, *a[1:], **k)
    if isinstance(x, SymBytes):
        return parse_int(x.latin1(), *a[1:], **k)
    if isinstance(x, SymArray):
        if len(x) != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return h_int(x[0])
    return int(conc(x))


def h_int_from_bytes(b, byteorder="big", *, signed=False):
    if not is_sym(b) and not contains_sym(b):
        return int.from_bytes(b, byteorder, signed=signed)
    if isinstance(b, (list, tuple)):
        es = [check_byte(x) for x in b]
    else:
        es = elems_of(b)
    if concrete_elems(es):
        return int.from_bytes(bytes(es), byteorder, signed=signed)
    from .values import concat, from_bits
    le = es if byteorder == "little" else es[::-1]
    return from_bits(concat([z3.BitVecVal(x, 8) if isinstance(x, int) else x for x in le[::-1]]),
                     bool(signed))


def h_float(*a):
    if not a or not is_sym(a[0]):
        return float(*a)
    x = a[0]
    if isinstance(x, (SymInt, SymBool)):
        return SymFloat.of(x)
    if isinstance(x, SymFloat):
        return x
    if isinstance(x, SymNp):
        return x.as_float()
    if isinstance(x, SymStr):
        return parse_float(x)
    return float(conc(x))


def parse_float(s):
    """float(text): decimal integers symbolically, everything else concretised."""
    cs = chars_of(s)
    if cs and len(cs) <= 15 and s_and(*[in_ranges(c, ASCII_DIG) for c in cs]):
        v = _digval(cs)
        return SymFloat.of(v) if isinstance(v, SymInt) else float(v)
    return float(conc(s))


def h_bool(*a):
    if not a:
        return False
    x = a[0]
    if isinstance(x, SymBool):
        return x
    if isinstance(x, SymInt):
        return sbool(x.e != 0)
    if isinstance(x, (SymFloat, SymNp)):
        r = x != 0
        return SymBool(r.e) if isinstance(r, SymBool) else bool(r)
    return bool(x)


def h_str(*a, **k):
    if not a:
        return str(*a, **k)
    x = a[0]
    if len(a) > 1 or k:
        if isinstance(x, SymBytes):
            return x.decode(*a[1:], **k)
        return str(*a, **k)
    return tostr(x)


def h_repr(x):
    if is_sym(x) or contains_sym(x):
        return SymStr(parts=[(x, "r", "")])
    return repr(x)


def mk_bytes(cls, real):
    def f(*a, **k):
        if not a:
            return cls() if cls is SymByteArray else real()
        x = a[0]
        if isinstance(x, (str, SymStr)):
            r = x.encode(*a[1:], **k)
            return cls(elems_of(r)) if is_sym(r) or cls is SymByteArray else real(r)
        if isinstance(x, (int, np.integer)) and not isinstance(x, bool) or \
                isinstance(x, SymInt) or (isinstance(x, SymNp)):
            n = int_of(x) if not isinstance(x, SymNp) else x.__index__()
            n = int(n)
            if n < 0:
                raise ValueError("negative count")
            return cls([0] * n) if cls is SymByteArray else bytes(n)
        if bytes_like(x) or isinstance(x, SymArray) or isinstance(x, np.ndarray):
            es = elems_of(x)
        elif isinstance(x, SymArrayArray):
            es = elems_of(x.tobytes())
        elif hasattr(type(x), "__bytes__") and not is_sym(x):
            es = elems_of(x.__bytes__())
        else:
            es = [check_byte(v) for v in x]
        if cls is SymByteArray or not concrete_elems(es):
            return cls(es)
        return real(es)
    return f


h_bytes = mk_bytes(SymBytes, bytes)
h_bytearray = mk_bytes(SymByteArray, bytearray)


def h_minmax(which):
    real = getattr(builtins, which)

    def f(*a, key=None, **k):
        items = list(a[0]) if len(a) == 1 else list(a)
        if key is None and items and any(is_sym(x) for x in items) and \
                all(num(x) is not None or isinstance(x, (float, SymFloat, np.generic, SymNp))
                    for x in items):
            r = items[0]
            for x in items[1:]:
                c = (x > r) if which == "max" else (x < r)
                if isinstance(c, SymBool):
                    if merge_key(x) == merge_key(r):
                        r = merge_values(c.e, x, r)
                    else:
                        r = x if bool(c) else r
                elif c:
                    r = x
            return r
        if key is not None:
            k["key"] = wrapf(key)
        return real(items, **k)
    return f


def wrapf(f):
    """A callable that is about to be called from C code."""
    if f is None or type(f) is types.FunctionType and f not in SYM_HANDLERS_F:
        return f
    return lambda *a, **k: sx_call(f, *a, **k)


def h_map(f, *its, **k):
    return map(wrapf(f), *its, **k)


def h_filter(f, it):
    return filter(wrapf(f), it)


def h_sorted(it, *, key=None, reverse=False):
    return sorted(it, key=wrapf(key), reverse=reverse)


def h_reduce(f, it, *init):
    it = iter(it)
    if init:
        r = init[0]
    else:
        try:
            r = next(it)
        except StopIteration:
            raise TypeError("reduce() of empty iterable with no initial value") from None
    for x in it:
        r = sx_call(f, r, x)
    return r


def h_first(real):
    return lambda f, *a, **k: real(wrapf(f), *a, **k)


def h_second(real):
    return lambda it, f=None, *a, **k: real(it, wrapf(f), *a, **k)


def h_accumulate(it, func=None, *, initial=None):
    return itertools.accumulate(it, wrapf(func), initial=initial)


def getters(t, f, a, k):
    """Calls of itemgetter, attrgetter, methodcaller and partial objects."""
    if t is functools.partial:
        return sx_call(f.func, *f.args, *a, **{**f.keywords, **k})
    if t is operator.attrgetter:
        return f(*a, **k)
    args = f.__reduce__()[1]
    if t is operator.itemgetter:
        r = tuple(sx_getitem(a[0], i) for i in args)
        return r[0] if len(r) == 1 else r
    red = f.__reduce__()
    if red[0] is operator.methodcaller:
        return sx_call(getattr(a[0], red[1][0]), *red[1][1:])
    return sx_call(getattr(a[0], red[0].args[0]), *red[1], **red[0].keywords)


OPERATOR_SPECIAL = {
    operator.getitem: lambda o, i: sx_getitem(o, i),
    operator.contains: lambda o, x: sx_in(x, o),
    operator.not_: lambda x: sx_not(x),
    operator.truth: lambda x: h_bool(x),
}


def h_sum(it, start=0, **k):
    r = k.get("start", start)
    for x in it:
        r = r + x
    return r


def h_quant(is_all):
    def f(it):
        acc = []
        gen = iter(it)
        while True:
            try:
                x = next(gen)
            except StopIteration:
                break
            except Exception:
                if acc:
                    # an earlier element may already decide
                    c = s_and(*acc) if is_all else s_or(*acc)
                    if bool(c) != is_all:
                        return not is_all
                raise
            if isinstance(x, (SymNp, SymInt, SymFloat)):
                x = h_bool(x)
            if isinstance(x, SymBool):
                acc.append(x)
            elif bool(x) != is_all:
                if not acc:
                    return not is_all
                acc.append(not is_all)
                break
        return s_and(*acc) if is_all else s_or(*acc)
    return f


def h_range(*a):
    return range(*[x.__index__() if is_sym(x) else x for x in a])


def h_abs(x):
    return abs(x)


def h_round(x, nd=None):
    if not is_sym(x):
        return round(x) if nd is None else round(x, nd)
    return x.__round__() if nd is None else x.__round__(nd)


def h_divmod(a, b):
    return (a // b, a % b) if is_sym(a) or is_sym(b) else divmod(a, b)


def h_pow(a, b, m=None):
    if m is None:
        return a ** b
    return pow(conc(a), conc(b), conc(m))


def h_ord(c):
    if isinstance(c, SymStr):
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return c.chars[0]
    if isinstance(c, SymBytes):
        if len(c) != 1:
            raise TypeError("ord() expected a character")
        return c[0]
    return ord(c)


def h_chr(n):
    if isinstance(n, SymNp):
        n = n.as_int()
    if isinstance(n, SymInt):
        if s_or(n < 0, n > 0x10FFFF):
            raise ValueError("chr() arg not in range(0x110000)")
        return mkstr([narrow(n, 0, 0x10FFFF)])
    return chr(n)


def h_format(v, spec=""):
    if is_sym(v) or is_sym(spec):
        return SymStr(parts=[(v, None, spec)])
    return format(v, spec)


def h_hex(n):
    if is_sym(n):
        return SymStr(parts=["0x", (n, None, "x")])
    return hex(n)


def h_len(x):
    return len(x)


def h_print(*a, **k):
    f = k.get("file")
    out = getattr(eng(), "stdout", None)
    if f is not None and f is not sys.stdout:
        if not (f is sys.stderr):
            f.write(print_text(a, k))
    elif out is not None:
        out.write(print_text(a, k))
    return None


def print_text(a, k):
    sep = " " if k.get("sep") is None else k["sep"]
    end = "\n" if k.get("end") is None else k["end"]
    t = ""
    for i, x in enumerate(a):
        t = t + (sep if i else "") + h_str(x)
    return t + end


class Stdout:
    """Stands for sys.stdout while a harness captures it."""

    def __init__(self):
        self.parts = []
        self.closed = False

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def flush(self):
        pass

    def text(self):
        t = ""
        for p in self.parts:
            t = t + p
        return t


def h_open(path, mode="r", *a, **k):
    fs = getattr(eng(), "fs", None)
    if fs is None:
        if "w" in mode or "a" in mode or "+" in mode or "x" in mode:
            raise PermissionError("symbolic execution: writing real files is blocked")
        return open(path, mode, *a, **k)
    return fs.open(conc(path), mode, *a, **k)


def h_bytesio(*a):
    return SymFile(elems_of(a[0]) if a else [])


def h_memoryview(x):
    if is_sym(x):
        return x
    return memoryview(x)


def h_hash(x):
    return hash(conc(x)) if is_sym(x) else hash(x)


def h_array(typecode, init=()):
    if bytes_like(init):
        r = SymArrayArray(typecode)
        r.v = npmodel.frombuffer(init, r.dt).vals()
        return r
    if typecode not in "bBhHiIlLqQfd":
        return array.array(typecode, init)
    return SymArrayArray(typecode, init)


def h_math(name):
    real = getattr(math, name)

    def f(*a):
        x = a[0]
        if isinstance(x, SymNp):
            x = x.v
        if name in ("floor", "ceil", "trunc") and is_sym(x):
            if isinstance(x, SymInt):
                return x
            if isinstance(x, SymFloat):
                return {"floor": x.__floor__, "ceil": x.__ceil__, "trunc": x.trunc}[name]()
        if name == "fabs" and isinstance(x, SymFloat):
            return abs(x)
        if name in ("isnan", "isinf", "isfinite") and isinstance(x, SymFloat):
            g = {"isnan": z3.fpIsNaN, "isinf": z3.fpIsInf,
                 "isfinite": lambda v: z3.Not(z3.Or(z3.fpIsNaN(v), z3.fpIsInf(v)))}[name]
            return sbool(g(x.f))
        if name in ("isnan", "isinf") and isinstance(x, SymInt):
            return False
        if name == "isfinite" and isinstance(x, SymInt):
            return True
        if any(is_sym(y) for y in a):
            eng().stats["fallback"] += 1
        return real(*conc(list(a)))
    return f


# ---- boolean structure -------------------------------------------------------
def sx_not(x):
    if isinstance(x, SymBool):
        return s_not(x)
    if isinstance(x, SymInt):
        return sbool(x.e == 0)
    return not x


def _truthish(x):
    return isinstance(x, (bool, SymBool, np.bool_))


def sx_and(*thunks):
    return _bool_chain(thunks, True)


def sx_or(*thunks):
    return _bool_chain(thunks, False)


def _bool_chain(thunks, is_and):
    """`and`/`or` with short-circuit semantics, joined into one term when possible."""
    acc = None
    last = len(thunks) - 1
    for i, th in enumerate(thunks):
        if acc is None:
            v = th()
        else:
            ok, v = eng().try_eval(th)
            if not ok or not _truthish(v):
                # cannot speculate: decide on what we have
                if bool(acc) != is_and:
                    return not is_and
                acc = None
                v = th()
        if i == last:
            if acc is None:
                return v
            return s_and(acc, v) if is_and else s_or(acc, v)
        if isinstance(v, SymBool):
            acc = v if acc is None else (s_and(acc, v) if is_and else s_or(acc, v))
            if isinstance(acc, bool):
                if acc != is_and:
                    return acc
                acc = None
        elif acc is None:
            if bool(v) != is_and:
                return v
        else:
            if bool(v) != is_and:
                # decisive constant behind an undecided prefix
                return not is_and
    return acc


def sx_ifexp(c, ta, tb):
    if isinstance(c, SymInt):
        c = sbool(c.e != 0)
    if isinstance(c, SymBool):
        e = eng()
        k = e.lookup(c.e)
        if k is None:
            oka, a = e.try_eval(ta)
            if oka:
                okb, b = e.try_eval(tb)
                if okb:
                    ka = merge_key(a)
                    if ka == merge_key(b) and ka[:1] != ("id",):
                        return merge_values(c.e, a, b)
    return ta() if c else tb()


def sx_cmp(left, *rest):
    """Chained comparison; rest = op, thunk, op, thunk ..."""
    acc = []
    for i in range(0, len(rest), 2):
        op, th = rest[i], rest[i + 1]
        if acc:
            ok, right = eng().try_eval(th)
            if not ok:
                if not s_and(*acc):
                    return False
                acc = []
                right = th()
        else:
            right = th()
        r = CMP[op](left, right)
        if isinstance(r, SymBool):
            acc.append(r)
        elif i + 2 >= len(rest) and not acc:
            return r
        elif not r:
            return False if acc else r
        left = right
    if not acc:
        return r
    return s_and(*acc)


def sx_in(a, b):
    if isinstance(b, (list, tuple)):
        if is_sym(a) or any(is_sym(x) for x in b):
            res = []
            for x in b:
                if x is a:
                    return True if not res else s_or(*res, True)
                r = (a == x)
                if r is NotImplemented:
                    r = False
                res.append(r if isinstance(r, SymBool) else bool(r))
            return s_or(*res)
        return a in b
    if isinstance(b, (set, frozenset)) and is_sym(a):
        return s_or(*[_as_b(a == x) for x in sorted(b, key=repr)])
    if isinstance(b, dict) and isinstance(a, (SymInt, SymStr, SymNp)):
        return s_or(*[_as_b(a == x) for x in b])
    if isinstance(b, types.MappingProxyType) and is_sym(a):
        return s_or(*[_as_b(a == x) for x in b])
    if isinstance(b, range) and isinstance(a, SymInt):
        if b.step == 1:
            return s_and(a >= b.start, a < b.stop)
        return s_or(*[a == x for x in b])
    if isinstance(a, SymStr) and isinstance(b, str):
        return mkstr_contains(b, a)
    if isinstance(b, SymStr):
        return b.contains(a)
    if isinstance(a, SymInt) and isinstance(b, (bytes, bytearray)):
        return s_or(*[a == x for x in set(b)])
    if isinstance(b, SymBytes) and num(a) is not None:
        return s_or(*[elem_val(x) == a for x in b.b])
    return a in b


def mkstr_contains(hay, needle):
    b = needle.chars
    hay = [ord(c) for c in hay]
    if not b:
        return True
    cands = set()
    for i in range(len(hay) - len(b) + 1):
        cands.add(tuple(hay[i:i + len(b)]))
    return s_or(*[s_and(*[_as_b(x == y) for x, y in zip(b, c)]) for c in sorted(cands)])


def _as_b(r):
    if isinstance(r, SymBool):
        return r
    return False if r is NotImplemented else bool(r)


import operator as _op
CMP = {
    "lt": _op.lt, "le": _op.le, "gt": _op.gt, "ge": _op.ge, "eq": _op.eq, "ne": _op.ne,
    "is": _op.is_, "isnot": _op.is_not, "in": sx_in, "notin": lambda a, b: sx_not(sx_in(a, b)),
}


def sx_mod(a, b):
    if isinstance(a, (str, bytes)) and (is_sym(b) or contains_sym(b)):
        return str_percent(a, b)
    return a % b


_PCT = re.compile(r"%(?:\((\w+)\))?([-+ #0]*)(\d+)?(?:\.(\d+))?([diouxXeEfFgGcrsa%])")


def str_percent(fmt, args):
    if isinstance(fmt, bytes):
        return fmt % conc(args)
    parts = []
    pos = 0
    seq = list(args) if isinstance(args, tuple) else [args]
    i = 0
    for m in _PCT.finditer(fmt):
        parts.append(fmt[pos:m.start()])
        pos = m.end()
        key, flags, w, prec, ty = m.groups()
        if ty == "%":
            parts.append("%")
            continue
        if key:
            v = args[key]
        else:
            v = seq[i]
            i += 1
        spec = ("<" if "-" in flags else "") + ("+" if "+" in flags else "") + \
            ("0" if "0" in flags and "-" not in flags else "") + (w or "")
        if ty in "di":
            parts.append((h_int(v), None, spec))
        elif ty in "xXo":
            parts.append((v, None, spec + ty))
        elif ty == "s":
            if w and "-" not in flags:
                spec = ">" + spec
            parts.append((tostr(v), None, spec))
        elif ty == "r":
            parts.append((v, "r", spec))
        else:
            parts.append((m.group(0) % conc(v)))
    parts.append(fmt[pos:])
    return fstr(*[p if isinstance(p, (str, tuple)) else str(p) for p in parts if p != ""])


def str_format(fmt, a, k):
    import string
    parts = []
    auto = 0
    for lit, field, spec, conv in string.Formatter().parse(fmt):
        if lit:
            parts.append(lit)
        if field is None:
            continue
        m = re.match(r"([^.\[]*)(.*)$", field)
        head, tail = m.groups()
        if head == "":
            v = a[auto]
            auto += 1
        elif head.isdigit():
            v = a[int(head)]
        else:
            v = k[head]
        for t in re.findall(r"\.(\w+)|\[([^\]]*)\]", tail):
            v = getattr(v, t[0]) if t[0] else v[int(t[1]) if t[1].isdigit() else t[1]]
        if spec and "{" in spec:
            spec = str_format(spec, a, k)
        parts.append((v, conv, spec or ""))
    return fstr(*parts)


# ---- generic dispatch ---------------------------------------------------------
HANDLERS = {}       # always replaced
SYM_HANDLERS = {}   # replaced when a symbolic value is involved
SAFE_METHODS = {
    list: {"append", "extend", "insert", "pop", "remove", "index", "count", "reverse", "clear",
           "copy", "sort"},
    dict: {"get", "setdefault", "update", "pop", "items", "keys", "values", "copy", "clear",
           "popitem"},
    set: {"add", "update", "discard", "remove"},
    tuple: {"index", "count"},
    collections.deque: {"append", "appendleft", "pop", "popleft", "extend", "extendleft", "clear",
                        "copy", "reverse", "rotate"},
}
SAFE_FUNCS = {
    builtins.tuple, builtins.list, builtins.dict, builtins.set, builtins.frozenset, builtins.zip,
    builtins.enumerate, builtins.map, builtins.filter, builtins.reversed, builtins.sorted,
    builtins.iter, builtins.next, builtins.id, builtins.getattr, builtins.setattr,
    builtins.hasattr, builtins.callable, builtins.slice, builtins.object, copy.copy,
    copy.deepcopy, builtins.property, builtins.staticmethod, builtins.classmethod, builtins.super,
    builtins.delattr, builtins.vars, builtins.dir, builtins.issubclass, collections.OrderedDict,
}


def sx_call(f, *a, **k):
    t = type(f)
    if t is types.FunctionType:
        if f in SYM_HANDLERS_F:
            return SYM_HANDLERS_F[f](*a, **k)
        if getattr(f, "__sx_pure__", False) and not k and _any_sym(a):
            return eng().merge_block(lambda: f(*a))
        if f.__module__ is not None and _needs_model(f):
            return foreign_call(f, a, k)
        return f(*a, **k)
    if t is types.MethodType:
        fn = f.__func__
        if type(fn) is types.FunctionType and getattr(fn, "__sx_pure__", False) and \
                (_any_sym(a) or getattr(f.__self__, "__dict__", None)):
            if _any_sym(a) or any(is_sym(v) for v in vars(f.__self__).values()):
                return eng().merge_block(lambda: f(*a, **k))
        return f(*a, **k)
    try:
        h = HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    if t in (functools.partial, operator.itemgetter, operator.attrgetter, operator.methodcaller):
        return getters(t, f, a, k)
    if t is types.BuiltinFunctionType and f.__module__ == "_operator":
        return OPERATOR_SPECIAL.get(f, f)(*a, **k)
    if t is types.MethodDescriptorType and a and f.__objclass__ in (str, bytes, bytearray, list, dict):
        if is_sym(a[0]) or isinstance(a[0], f.__objclass__):
            m = getattr(a[0], f.__name__, None)
            if m is not None:
                return sx_call(m, *a[1:], **k)
    if t is type or isinstance(f, type):
        return _type_call(f, a, k)
    s = getattr(f, "__self__", None)
    if s is not None and not isinstance(s, types.ModuleType):
        if is_sym(s):
            return f(*a, **k)
        return _builtin_method(f, s, a, k)
    if not (_any_sym(a) or (k and _any_sym(k.values()))):
        return f(*a, **k)
    try:
        h = SYM_HANDLERS.get(f)
    except TypeError:
        h = None
    if h is not None:
        return h(*a, **k)
    try:
        if f in SAFE_FUNCS:
            return f(*a, **k)
    except TypeError:
        pass
    if callable(f) and not isinstance(f, (types.BuiltinFunctionType, np.ufunc)) \
            and isinstance(getattr(type(f), "__call__", None), types.FunctionType):
        return f(*a, **k)
    if t.__name__ in ("method-wrapper", "wrapper_descriptor", "method_descriptor") and a and \
            is_sym(a[0]):
        m = getattr(a[0], f.__name__, None)
        if m is not None:
            return m(*a[1:], **k)
    return concretised_call(f, a, k)


def concretised_call(f, a, k):
    e = eng()
    e.guard_speculation()
    e.stats["fallback"] += 1
    return wrap_real(f(*conc(list(a)), **conc(k)))


def wrap_real(r):
    if isinstance(r, np.ndarray) and r.ndim == 1 and r.dtype.kind in "iufb":
        return SymArray(r.tolist(), r.dtype, r.flags.writeable)
    return r


def _any_sym(vals):
    for v in vals:
        if isinstance(v, Sym):
            return True
        if isinstance(v, (list, tuple)) and any(isinstance(x, Sym) for x in v):
            return True
        if isinstance(v, dict) and contains_sym(v):
            return True
    return False


FOREIGN = {}
SYM_HANDLERS_F = {}


def _needs_model(f):
    return False


def foreign_call(f, a, k):
    return f(*a, **k)


def _type_call(f, a, k):
    if isinstance(f, type) and issubclass(f, np.generic):
        if a and is_sym(a[0]) or (a and isinstance(a[0], (list, tuple))):
            return npmodel.scalar_type_call(f, a, k)
        return f(*a, **k)
    if f in SAFE_FUNCS:
        return f(*a, **k)
    if isinstance(f, type) and (f.__flags__ & (1 << 9)):  # heap type: Python class
        h = SYM_HANDLERS.get(f)
        if h is not None and _any_sym(a):
            return h(*a, **k)
        return f(*a, **k)
    if isinstance(f, type) and issubclass(f, BaseException):
        return f(*a, **k)
    if not (_any_sym(a) or (k and _any_sym(k.values()))):
        return f(*a, **k)
    h = SYM_HANDLERS.get(f)
    if h is not None:
        return h(*a, **k)
    return concretised_call(f, a, k)


def _builtin_method(f, s, a, k):
    name = getattr(f, "__name__", "")
    if isinstance(s, str):
        if name == "join":
            items = list(a[0])
            if any(is_sym(x) for x in items):
                return str_join(s, items)
            return s.join(items)
        if name == "format":
            if _any_sym(a) or _any_sym(k.values()) or contains_sym(list(a)):
                return str_format(s, a, k)
            return f(*a, **k)
        if _any_sym(a):
            return getattr(SymStr([ord(c) for c in s]), name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, (bytes, bytearray)):
        if name == "join":
            items = list(a[0])
            if any(is_sym(x) for x in items):
                out = SymBytes(list(s)).join(items)
                return SymByteArray(list(out.b)) if isinstance(s, bytearray) else out
            return s.join(items)
        if _any_sym(a):
            if isinstance(s, bytearray) and name in ("append", "extend", "insert"):
                raise PathUnknown("symbolic data stored in a real bytearray")
            return getattr(SymBytes(list(s)), name)(*a, **k)
        return f(*a, **k)
    if isinstance(s, type):
        if s is int and name == "from_bytes":
            return h_int_from_bytes(*a, **k)
        if s is bytes and name == "fromhex" or s is bytearray and name == "fromhex":
            r = f(*conc(list(a)))
            return SymByteArray(list(r)) if s is bytearray else r
        h = CLASSMETHODS.get((s, name))
        if h is not None:
            return h(*a, **k)
        if not _any_sym(a) and not _any_sym(k.values()):
            return f(*a, **k)
        return concretised_call(f, a, k)
    if isinstance(s, list) and name == "sort" and k.get("key") is not None:
        return s.sort(key=wrapf(k["key"]), reverse=k.get("reverse", False))
    if not _any_sym(a) and not _any_sym(k.values()):
        return f(*a, **k)
    for ty, names in SAFE_METHODS.items():
        if isinstance(s, ty) and name in names:
            if ty is dict and name in ("get", "pop", "setdefault") and is_sym(a[0]):
                return dict_lookup(s, name, a)
            return f(*a, **k)
    if isinstance(s, struct.Struct):
        return getattr(structmodel.StructModel(s.format), name)(*a, **k)
    if isinstance(s, re.Pattern):
        from . import remodel
        return remodel.pattern_call(s, name, a, k)
    h = METHODS.get((type(s), name))
    if h is not None:
        return h(s, *a, **k)
    if name.startswith("__") and name.endswith("__"):
        r = f(*a, **k)
        if r is not NotImplemented:
            return r
        return concretised_call(f, a, k)
    return concretised_call(f, a, k)


CLASSMETHODS = {}
METHODS = {}


def dict_lookup(d, name, a):
    key = a[0]
    for kk in list(d):
        c = key == kk
        if c is NotImplemented:
            continue
        if bool(c):
            if name == "pop":
                return d.pop(kk)
            return d[kk]
    if name == "get":
        return a[1] if len(a) > 1 else None
    if name == "pop":
        if len(a) > 1:
            return a[1]
        raise KeyError(key)
    d[conc(key)] = a[1] if len(a) > 1 else None
    return d[conc(key)]


def sx_getitem(o, i):
    """Subscript load."""
    if is_sym(i):
        if isinstance(o, dict) and isinstance(i, (SymInt, SymStr, SymNp)):
            for kk in list(o):
                c = i == kk
                if c is not NotImplemented and bool(c):
                    return o[kk]
            if type(o).__missing__ if hasattr(type(o), "__missing__") else False:
                return o[conc(i)]
            raise KeyError(i)
        if isinstance(o, (list, tuple, str, bytes, range)) and isinstance(i, (SymInt, SymNp)):
            v = i if isinstance(i, SymInt) else i.as_int()
            n = len(o)
            if isinstance(v, SymInt) and n <= 256 and (isinstance(o, (bytes, str, range)) or (
                    n and len({merge_key(x) for x in o}) == 1)):
                neg = v.lo < 0 and bool(v < 0)
                w = v + n if neg else v
                if isinstance(w, int):
                    return o[w]
                if s_or(w < 0, w >= n):
                    raise IndexError(f"{type(o).__name__} index out of range")
                lo, hi = max(0, w.lo), min(n - 1, w.hi)
                vals = [ord(c) for c in o] if isinstance(o, str) else list(o)
                r = vals[hi]
                for j in range(hi - 1, lo - 1, -1):
                    c = w == j
                    if isinstance(c, SymBool):
                        r = merge_values(c.e, vals[j], r)
                    elif c:
                        r = vals[j]
                return mkstr([r]) if isinstance(o, str) else r
    elif isinstance(i, slice) and isinstance(o, (str, bytes, bytearray, list, tuple, np.ndarray)):
        if is_sym(i.start) or is_sym(i.stop) or is_sym(i.step):
            from .seqs import slice_bounds
            st = [x.as_int() if isinstance(x, SymNp) else x for x in (i.start, i.stop, i.step)]
            a, b, s = slice_bounds(slice(*st), len(o))
            return o[a:b:s] if s > 0 or b >= 0 else o[a::s]
    return o[i]


def sx_merge(fn, *args):
    return eng().merge_block(lambda: fn(*args))


class _Unbound:
    def __repr__(self):
        return "<unbound>"


UNBOUND = _Unbound()


def sx_get(th):
    try:
        return th()
    except NameError:
        return UNBOUND


def sx_exc():
    """First statement of a handler that would swallow engine control flow."""
    e = sys.exc_info()[1]
    if isinstance(e, Steer):
        raise e


def install():
    h, s = npmodel.handlers()
    HANDLERS.update(h)
    SYM_HANDLERS.update(s)
    # a list of symbolic numbers is the usual hidden case for numpy functions
    HANDLERS.update({
        isinstance: h_isinstance, type: h_type, int: h_int, float: h_float, bool: h_bool,
        str: h_str, repr: h_repr, bytes: h_bytes, bytearray: h_bytearray,
        max: h_minmax("max"), min: h_minmax("min"), sum: h_sum, any: h_quant(False),
        all: h_quant(True), range: h_range, round: h_round, divmod: h_divmod, pow: h_pow,
        ord: h_ord, chr: h_chr, format: h_format, hex: h_hex, print: h_print, open: h_open,
        io.open: h_open, io.BytesIO: h_bytesio, memoryview: h_memoryview, hash: h_hash,
        array.array: h_array,
        struct.pack: structmodel.pack, struct.unpack: structmodel.unpack,
        struct.pack_into: structmodel.pack_into, struct.unpack_from: structmodel.unpack_from,
        map: h_map, filter: h_filter, sorted: h_sorted, functools.reduce: h_reduce,
        itertools.accumulate: h_accumulate, itertools.groupby: h_second(itertools.groupby),
        **{x: h_first(x) for x in (itertools.takewhile, itertools.dropwhile, itertools.starmap,
                                   itertools.filterfalse)},
        struct.iter_unpack: structmodel.iter_unpack, struct.Struct: structmodel.StructModel,
    })
    for n in ("floor", "ceil", "trunc", "fabs", "isnan", "isinf", "isfinite"):
        SYM_HANDLERS[getattr(math, n)] = h_math(n)
    SYM_HANDLERS.update({
        len: h_len, abs: h_abs,
    })
    try:
        import crc32c as c
        for n in ("crc32c", "crc32"):
            if hasattr(c, n):
                HANDLERS[getattr(c, n)] = crcmodel.crc32c
    except ImportError:
        pass
    from . import remodel, jsonmodel, dtmodel, fsmodel
    fsmodel.install(HANDLERS, h_open)
    remodel.install(HANDLERS, SYM_HANDLERS)
    jsonmodel.install(HANDLERS, SYM_HANDLERS, SYM_HANDLERS_F)
    dtmodel.install(HANDLERS, SYM_HANDLERS, CLASSMETHODS, METHODS)


NAMES = {
    "__sx_call__": sx_call, "__sx_fstr__": fstr, "__sx_mod__": sx_mod, "__sx_and__": sx_and,
    "__sx_or__": sx_or, "__sx_not__": sx_not, "__sx_ifexp__": sx_ifexp, "__sx_cmp__": sx_cmp,
    "__sx_in__": sx_in, "__sx_merge__": sx_merge, "__sx_get__": sx_get,
    "__sx_unbound__": UNBOUND, "__sx_exc__": sx_exc, "__sx_getitem__": sx_getitem,
}
