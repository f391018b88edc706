"""Model of the numpy scalars, 1-d arrays and functions used with symbolic data.

Integer elements are exact values confined to their dtype's range (wrapping on
overflow as numpy does); float64/float32 elements are IEEE values.
"""
import numpy as np
import z3
from .core import eng, PathUnknown
from .values import (
    Sym, SymInt, SymBool, SymFloat, SymFromInt, num, is_sym, int_of, mk, extract, fit, from_bits,
    s_and, s_or, s_not, sbool, OPS, i_cmp, i_sub, i_truediv, parts, ite_int, merge_values,
    int_bytes, concat, bits_to_float, float_to_bits, nan_bits32, F32, F64, RNE, i_floordiv, i_mod,
    i_shr, pin,
)
from .seqs import SymBytes, SymByteArray, elems_of, elem_val, bytes_like, conc, concrete_elems

np.seterr(all="ignore")
REAL = {}


def drange(dt):
    i = np.iinfo(dt)
    return int(i.min), int(i.max)


def native(dt):
    return dt.newbyteorder("=")


def wrap(v, dt):
    """Integer v reduced into the range of integer dtype dt (two's complement)."""
    lo, hi = drange(dt)
    bits = dt.itemsize * 8
    if isinstance(v, int):
        v &= (1 << bits) - 1
        return v - (1 << bits) if v > hi else v
    if v.lo >= lo and v.hi <= hi:
        return v
    e = v.e
    e = extract(bits - 1, 0, fit(e, max(bits, e.size())))
    return from_bits(e, dt.kind == "i")


def in_range(v, dt):
    lo, hi = drange(dt)
    return s_and(v >= lo, v <= hi)


def f32_of_bits(b):
    import struct
    return struct.unpack("<f", struct.pack("<I", b))[0]


def to_single(x):
    """Round a double value to single precision (as a widened double)."""
    if isinstance(x, float):
        return float(np.float32(x))
    if x.bits32 is not None:
        return x
    if isinstance(x, SymFromInt) and max(abs(x.n.lo), abs(x.n.hi)) <= 1 << 24:
        return SymFloat(bits32=z3.fpToIEEEBV(z3.fpSignedToFP(RNE, x.n.e, F32)))
    return SymFloat(bits32=x.bits_single())


def as_float(v):
    if isinstance(v, (SymFloat, float)):
        return v
    if isinstance(v, int):
        return float(v)
    return SymFloat.of(v)


def coerce(v, dt, checked=True):
    """Element value of dtype dt made from any scalar v (numpy assignment/cast rules)."""
    k = dt.kind
    if isinstance(v, np.generic):
        return coerce_np(v.item(), v.dtype, dt)
    if isinstance(v, SymNp):
        return coerce_np(v.v, v.dtype, dt)
    if isinstance(v, (bool, SymBool)):
        if k == "b":
            return v
        n = num(v)
        return n if k in "iu" else as_float(n)
    n = num(v)
    if n is not None:
        if k in "iu":
            if checked and not in_range(n, dt):
                raise OverflowError(f"Python integer out of bounds for {dt.name}")
            return wrap(n, dt)
        if k == "f":
            f = as_float(n)
            return to_single(f) if dt.itemsize == 4 else f
        if k == "b":
            return n != 0
    if isinstance(v, (float, SymFloat)):
        return coerce_np(v, np.dtype("f8"), dt)
    raise PathUnknown(f"cannot coerce {type(v).__name__} to {dt}")


def coerce_np(v, sdt, dt):
    k = dt.kind
    if sdt.kind == "b":
        v = num(v) if k != "b" else v
    if k in "iu":
        if sdt.kind == "f":
            if isinstance(v, float):
                return int(np.float64(v).astype(native(dt)))
            t = v.trunc()
            return wrap(t, dt)
        return wrap(v, dt)
    if k == "f":
        if dt.itemsize not in (4, 8):
            raise PathUnknown("float16/longdouble")
        f = as_float(v)
        return to_single(f) if dt.itemsize == 4 else f
    if k == "b":
        return v if sdt.kind == "b" else (v != 0)
    raise PathUnknown(f"dtype {dt}")


def np_scalar(v, dt):
    dt = native(np.dtype(dt))
    if not is_sym(v):
        return dt.type(v)
    return SymNp(v, dt)


def scal(v):
    """(value, dtype or None) of a scalar operand; None when not a scalar."""
    if isinstance(v, SymNp):
        return v.v, v.dtype
    if isinstance(v, np.generic):
        return v.item(), v.dtype
    if isinstance(v, SymBool) and v._np:
        return v, np.dtype(bool)
    if isinstance(v, (bool, int, float, SymInt, SymBool, SymFloat)):
        return v, None
    return None


def result_dt(va, da, vb, db, op):
    if da is not None and db is not None:
        dt = np.result_type(da, db)
    else:
        d, v = (da, vb) if da is not None else (db, va)
        if isinstance(v, (float, SymFloat)) :
            dt = d if d.kind == "f" else np.dtype("f8")
        elif isinstance(v, (bool, SymBool)):
            dt = d
        else:
            dt = np.dtype("i8") if d.kind == "b" else d
    if dt.kind == "b" and op in ("add", "mul", "sub", "floordiv", "mod", "lshift", "rshift"):
        dt = np.dtype("i1") if op not in ("add", "mul") else dt
    return native(dt)


def scalar_op(op, a, b):
    """numpy scalar arithmetic with value semantics; returns element value and dtype."""
    va, da = scal(a)
    vb, db = scal(b)
    if op == "truediv":
        dt = result_dt(va, da, vb, db, op)
        if dt.kind != "f":
            dt = np.dtype("f8")
        fa, fb = as_float(num(va) if num(va) is not None else va), \
            as_float(num(vb) if num(vb) is not None else vb)
        if isinstance(fa, float) and isinstance(fb, float):
            r = float(np.true_divide(np.float64(fa), np.float64(fb)))
        else:
            z = fb == 0
            if z is True or (isinstance(z, SymBool) and bool(z)):
                raise PathUnknown("numpy float division by zero")
            if isinstance(fa, SymFromInt) and isinstance(num(vb), int):
                r = i_truediv(fa.n, num(vb))
            else:
                r = fa / fb
        return (to_single(r) if dt.itemsize == 4 else r), dt
    dt = result_dt(va, da, vb, db, op)
    if dt.kind == "f":
        fa, fb = as_float(num(va) if num(va) is not None else va), \
            as_float(num(vb) if num(vb) is not None else vb)
        if dt.itemsize == 4:
            fa, fb = to_single(fa), to_single(fb)
        if isinstance(fa, float) and isinstance(fb, float):
            r = REALOP[op](dt.type(fa), dt.type(fb))
            return float(r), dt
        r = getattr(fa if isinstance(fa, SymFloat) else SymFloat.of(fa), f"__{op}__")(fb)
        return (to_single(r) if dt.itemsize == 4 else r), dt
    if dt.kind == "b":
        return {"and": s_and, "or": s_or, "add": s_or, "mul": s_and}.get(
            op, lambda x, y: x ^ y)(va, vb), dt
    na, nb = num(va), num(vb)
    for n, d in ((na, da), (nb, db)):
        if d is None and not in_range(n, dt):
            raise OverflowError(f"Python integer out of bounds for {dt.name}")
    bits = dt.itemsize * 8
    if op in ("lshift", "rshift"):
        nb = pin(nb)
        if s_or(nb >= bits, nb < 0):
            if op == "lshift":
                return 0, dt
            return ite_int((na < 0).e, -1, 0) if isinstance(na < 0, SymBool) else \
                (-1 if na < 0 else 0), dt
    if op in ("floordiv", "mod"):
        if nb == 0:
            return 0, dt
    r = OPS[op](na, nb)
    return wrap(r, dt), dt


import operator as _o
REALOP = {"add": _o.add, "sub": _o.sub, "mul": _o.mul, "floordiv": _o.floordiv, "mod": _o.mod,
          "lshift": _o.lshift, "rshift": _o.rshift, "and": _o.and_, "or": _o.or_, "xor": _o.xor,
          "truediv": _o.truediv, "pow": _o.pow}


def scalar_cmp(op, a, b):
    va, vb = scal(a)[0], scal(b)[0]
    fa, fb = isinstance(va, (float, SymFloat)), isinstance(vb, (float, SymFloat))
    if fa or fb:
        if not is_sym(va) and not is_sym(vb):
            return {"lt": va < vb, "le": va <= vb, "gt": va > vb, "ge": va >= vb,
                    "eq": va == vb}[op]
        x, y = as_float(va if fa else num(va)), as_float(vb if fb else num(vb))
        if not is_sym(x):
            x = SymFloat.of(x)
        return getattr(x, f"__{op}__")(y)
    return i_cmp(num(va), num(vb), op)


def npbool(r):
    if isinstance(r, SymBool):
        return SymBool(r.e, True)
    return np.bool_(r)


def binop(op, a, b):
    """a op b where at least one operand is a numpy-typed value."""
    if isinstance(a, (SymArray, np.ndarray)) or isinstance(b, (SymArray, np.ndarray)):
        return array_op(op, a, b)
    if scal(a) is None or scal(b) is None:
        return NotImplemented
    v, dt = scalar_op(op, a, b)
    return np_scalar(v, dt)


def cmpop(op, a, b):
    if isinstance(a, (SymArray, np.ndarray)) or isinstance(b, (SymArray, np.ndarray)):
        return array_cmp(op, a, b)
    if scal(a) is None or scal(b) is None:
        return NotImplemented
    return npbool(scalar_cmp(op, a, b))


class SymNp(Sym):
    """Symbolic numpy scalar."""
    __slots__ = ("v", "dtype")
    shape = ()
    ndim = 0
    size = 1

    def __init__(self, v, dtype):
        self.v = v
        self.dtype = dtype

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize

    def as_int(self):
        n = num(self.v)
        if n is not None:
            return n
        return self.v.trunc() if isinstance(self.v, SymFloat) else int(self.v)

    def as_float(self):
        return as_float(self.v)

    def item(self):
        return self.v

    tolist = item

    def __neg__(self):
        if self.dtype.kind == "f":
            return np_scalar(-self.v, self.dtype)
        return np_scalar(wrap(i_sub(0, self.v), self.dtype), self.dtype)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.dtype.kind == "f":
            return np_scalar(abs(self.v), self.dtype)
        return np_scalar(wrap(abs(self.v), self.dtype), self.dtype)

    def __invert__(self):
        return np_scalar(wrap(~self.v, self.dtype), self.dtype)

    def __bool__(self):
        return bool(self.v)

    def __index__(self):
        if self.dtype.kind == "f":
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int_of(num(self.v))

    def __int__(self):
        return int_of(self.as_int())

    def __float__(self):
        return float(self.v)

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        return self.dtype.type(conc(self.v))

    def __round__(self, nd=None):
        if self.dtype.kind == "f":
            return round(self.v) if nd is None else round(self.concrete(), nd)
        return self.v if nd is None else self

    def __pow__(self, o):
        r = 1
        n = num(scal(o)[0]) if scal(o) else None
        if isinstance(n, int) and 0 <= n <= 8 and self.dtype.kind in "iu":
            for _ in range(n):
                r = wrap(OPS["mul"](r, self.v), self.dtype)
            return np_scalar(r, self.dtype)
        return self.concrete() ** conc(o)

    def astype(self, dt, *a, **k):
        dt = np.dtype(dt)
        return np_scalar(coerce_np(self.v, self.dtype, dt), dt)

    def tobytes(self):
        return SymArray([self.v], self.dtype).tobytes()

    def byteswap(self):
        return SymArray([self.v], self.dtype).byteswap()[0]

    def copy(self):
        return self

    def max(self):
        return self

    min = max

    def bit_length(self):
        return self.v.bit_length()

    def is_integer(self):
        return self.v.is_integer()

    def __repr__(self):
        return "<SymNp>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<SymNp>"

    def _sx_merge_key(self):
        return ("np", str(self.dtype))

    def _sx_merge(self, c, o):
        ov = o.v if isinstance(o, SymNp) else o.item()
        return np_scalar(merge_values(c, self.v, ov), self.dtype)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(np.generic, name):
            raise AttributeError(name)
        return getattr(self.concrete(), name)


def _mk(op):
    def f(self, o):
        return binop(op, self, o)

    def r(self, o):
        return binop(op, o, self)
    return f, r


def _mkc(op):
    def f(self, o):
        return cmpop(op, self, o)
    return f


for _n in ("add", "sub", "mul", "floordiv", "mod", "lshift", "rshift", "and", "or", "xor",
           "truediv"):
    _f, _r = _mk(_n)
    setattr(SymNp, f"__{_n}__", _f)
    setattr(SymNp, f"__r{_n}__", _r)
for _n in ("lt", "le", "gt", "ge", "eq"):
    setattr(SymNp, f"__{_n}__", _mkc(_n))


def _ne(self, o):
    r = cmpop("eq", self, o)
    if r is NotImplemented:
        return r
    if isinstance(r, SymArray):
        return ~r
    return npbool(s_not(r) if isinstance(r, SymBool) else not r)


SymNp.__ne__ = _ne
SymNp.__hash__ = lambda self: hash(self.concrete())


class Flags:
    def __init__(self, w):
        self.writeable = w
        self.c_contiguous = self.f_contiguous = self.contiguous = True
        self.owndata = True

    def __getitem__(self, k):
        return getattr(self, k.lower().replace("c_contiguous", "c_contiguous"))


class SymArray(Sym):
    """1-d numpy array with possibly symbolic elements; slices are views."""

    def __init__(self, elems, dtype, writeable=True, view=None):
        self.dtype = np.dtype(dtype)
        if view is None:
            self.buf = list(elems)
            self.idx = range(len(self.buf))
        else:
            self.buf, self.idx = view
        self.writeable = writeable

    # -- basic protocol
    @property
    def shape(self):
        return (len(self.idx),)

    ndim = 1

    @property
    def size(self):
        return len(self.idx)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize * len(self.idx)

    @property
    def T(self):
        return self

    @property
    def flags(self):
        return Flags(self.writeable)

    def setflags(self, write=None, **k):
        if write is not None:
            self.writeable = bool(write)

    def vals(self):
        return [self.buf[i] for i in self.idx]

    def __len__(self):
        return len(self.idx)

    def __bool__(self):
        if len(self.idx) == 1:
            return bool(self.vals()[0])
        if len(self.idx) == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous.")

    def __iter__(self):
        for i in self.idx:
            yield np_scalar(self.buf[i], self.dtype)

    def __getitem__(self, i):
        if isinstance(i, tuple) and len(i) == 1:
            i = i[0]
        if isinstance(i, slice):
            from .seqs import slice_bounds
            a, b, s = slice_bounds(i, len(self.idx))
            sub = self.idx[a:b:s] if s > 0 or b >= 0 else self.idx[a::s]
            return SymArray(None, self.dtype, self.writeable, (self.buf, sub))
        if i is Ellipsis:
            return self[:]
        if isinstance(i, (list, SymArray, np.ndarray)):
            return self._fancy(i)
        i = self._ix(i)
        return np_scalar(self.buf[self.idx[i]], self.dtype)

    def _ix(self, i):
        if isinstance(i, (float, SymFloat)) or not hasattr(i, "__index__"):
            raise IndexError("only integers, slices (`:`), ellipsis (`...`), numpy.newaxis "
                             "(`None`) and integer or boolean arrays are valid indices")
        i = i.__index__()
        n = len(self.idx)
        if not -n <= i < n:
            raise IndexError(f"index {i} is out of bounds for axis 0 with size {n}")
        return i

    def _fancy(self, i):
        i = as_sym(i)
        if i.dtype.kind == "b":
            return SymArray([v for v, k in zip(self.vals(), i.vals()) if k], self.dtype)
        vals = self.vals()
        return SymArray([vals[int_of(num(k))] for k in i.vals()], self.dtype)

    def __setitem__(self, i, v):
        if not self.writeable:
            raise ValueError("assignment destination is read-only")
        if isinstance(i, slice) or i is Ellipsis:
            t = self[i]
            if isinstance(v, (SymArray, np.ndarray, list, tuple)):
                v = as_sym(v)
                src = v.vals()
                if len(src) == 1:
                    src = src * len(t.idx)
                if len(src) != len(t.idx):
                    raise ValueError("could not broadcast input array")
                src = [coerce_np(x, v.dtype, self.dtype) for x in src]
            else:
                src = [coerce(v, self.dtype)] * len(t.idx)
            for k, x in zip(t.idx, src):
                self.buf[k] = x
            return
        if isinstance(i, (list, SymArray, np.ndarray)):
            i = as_sym(i)
            ks = ([k for k, m in enumerate(i.vals()) if m] if i.dtype.kind == "b"
                  else [int_of(num(k)) for k in i.vals()])
            vs = as_sym(v).vals() if isinstance(v, (SymArray, np.ndarray, list)) else None
            for n, k in enumerate(ks):
                self[k] = np_scalar(vs[n], as_sym(v).dtype) if vs is not None else v
            return
        if isinstance(v, (SymArray, np.ndarray)):
            if len(v) != 1:
                raise ValueError("setting an array element with a sequence.")
            v = v[0]
        self.buf[self.idx[self._ix(i)]] = coerce(v, self.dtype)

    def __contains__(self, v):
        return bool(s_or(*[s if isinstance(s, SymBool) else bool(s)
                           for s in (x == v for x in self)]))

    def concrete(self):
        return np.array([conc(v) for v in self.vals()], dtype=self.dtype)

    def __array__(self, *a, **k):
        return self.concrete()

    def __hash__(self):
        raise TypeError("unhashable type: 'numpy.ndarray'")

    # -- conversions
    def tobytes(self, order="C"):
        out = []
        for v in self.vals():
            out += elem_bytes(v, self.dtype)
        return SymBytes(out)

    def tolist(self):
        return self.vals()

    def item(self, *a):
        return self.vals()[int_of(a[0]) if a else 0]

    def copy(self, order="C"):
        return SymArray(self.vals(), self.dtype)

    def __copy__(self):
        return self.copy()

    def __deepcopy__(self, memo):
        return self.copy()

    def astype(self, dt, order="K", casting="unsafe", subok=True, copy=True):
        dt = np.dtype(dt)
        if not np.can_cast(self.dtype, dt, casting):
            raise TypeError(f"Cannot cast array data from {self.dtype!r} to {dt!r} "
                            f"according to the rule '{casting}'")
        if not copy and dt == self.dtype:
            return self
        return SymArray([coerce_np(v, self.dtype, dt) for v in self.vals()], dt)

    def byteswap(self, inplace=False):
        sw = self.dtype.newbyteorder("S") if self.dtype.itemsize > 1 else self.dtype
        r = frombuffer(self.tobytes(), sw)
        if inplace:
            for k, v in zip(self.idx, r.vals()):
                self.buf[k] = v
            return self
        return SymArray(r.vals(), self.dtype)

    def view(self, dt=None, type=None):
        if dt is None or dt is np.ndarray:
            return SymArray(None, self.dtype, self.writeable, (self.buf, self.idx))
        dt = np.dtype(dt)
        if dt == self.dtype:
            return SymArray(None, self.dtype, self.writeable, (self.buf, self.idx))
        return frombuffer(self.tobytes(), dt)

    def newbyteorder(self, *a):
        raise AttributeError("`newbyteorder` was removed from the ndarray class in NumPy 2.0.")

    def reshape(self, *s, **k):
        s = s[0] if len(s) == 1 and isinstance(s[0], tuple) else s
        if tuple(s) in ((-1,), (len(self.idx),)):
            return self.view()
        return self.concrete().reshape(*s)

    def ravel(self, *a):
        return self.view()

    def flatten(self, *a):
        return self.copy()

    squeeze = ravel

    def fill(self, v):
        self[:] = v

    # -- reductions
    def _fold(self, op):
        vs = self.vals()
        if not vs:
            raise ValueError("zero-size array to reduction operation has no identity")
        r = vs[0]
        for v in vs[1:]:
            c = (v > r) if op == "max" else (v < r)
            if isinstance(c, SymBool):
                r = merge_values(c.e, v, r)
            elif c:
                r = v
        return np_scalar(r, self.dtype)

    def max(self, *a, **k):
        return self._fold("max")

    def min(self, *a, **k):
        return self._fold("min")

    def any(self, *a, **k):
        r = s_or(*[tf(v) for v in self.vals()])
        return npbool(r)

    def all(self, *a, **k):
        r = s_and(*[tf(v) for v in self.vals()])
        return npbool(r)

    def _accdt(self, dt):
        if dt is not None:
            return np.dtype(dt)
        if self.dtype.kind in "bi":
            return np.dtype("i8")
        if self.dtype.kind == "u":
            return np.dtype("u8")
        return native(self.dtype)

    def sum(self, axis=None, dtype=None, **k):
        dt = self._accdt(dtype)
        acc = np_scalar(0, dt)
        for v in self.vals():
            acc = binop("add", acc, np_scalar(coerce_np(v, self.dtype, dt), dt)) \
                if is_sym(acc) or is_sym(v) else acc + dt.type(v)
        return acc

    def cumsum(self, axis=None, dtype=None, out=None):
        dt = self._accdt(dtype)
        acc = np_scalar(0, dt)
        res = []
        for v in self.vals():
            acc = add_np(acc, np_scalar(coerce_np(v, self.dtype, dt), dt))
            res.append(scal(acc)[0])
        return SymArray(res, dt)

    def mean(self, *a, **k):
        return self.concrete().mean()

    def __abs__(self):
        return SymArray([scal(abs(x))[0] for x in self], native(self.dtype))

    def __neg__(self):
        return SymArray([scal(-x)[0] for x in self], native(self.dtype))

    def __pos__(self):
        return self.copy()

    def __invert__(self):
        if self.dtype.kind == "b":
            return SymArray([s_not(v) if isinstance(v, SymBool) else not v for v in self.vals()],
                            self.dtype)
        return SymArray([scal(~x)[0] for x in self], native(self.dtype))

    def __pow__(self, o):
        return self.concrete() ** conc(o)

    def __repr__(self):
        return "<SymArray>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<SymArray>"

    def _sx_str(self):
        from .seqs import SymStr
        return SymStr(parts=[(self.copy(), None, "")])

    def _sx_format(self, spec):
        return format(self.concrete(), spec)

    def __getattr__(self, name):
        if name.startswith("__") or not hasattr(np.ndarray, name):
            raise AttributeError(f"'numpy.ndarray' object has no attribute '{name}'")
        eng().stats["fallback"] += 1
        return getattr(self.concrete(), name)


def tf(v):
    return v if isinstance(v, (bool, SymBool)) else (v != 0)


def add_np(a, b):
    if is_sym(a) or is_sym(b):
        return binop("add", a, b)
    return a + b


for _n in ("add", "sub", "mul", "floordiv", "mod", "lshift", "rshift", "and", "or", "xor",
           "truediv"):
    _f, _r = _mk(_n)
    setattr(SymArray, f"__{_n}__", _f)
    setattr(SymArray, f"__r{_n}__", _r)

    def _inpl(op):
        def f(self, o):
            r = array_op(op, self, o)
            if not np.can_cast(r.dtype, self.dtype, "same_kind"):
                raise TypeError(f"Cannot cast ufunc '{op}' output from {r.dtype!r} to "
                                f"{self.dtype!r} with casting rule 'same_kind'")
            self[:] = r
            return self
        return f
    setattr(SymArray, f"__i{_n}__", _inpl(_n))
for _n in ("lt", "le", "gt", "ge", "eq"):
    setattr(SymArray, f"__{_n}__", _mkc(_n))
SymArray.__ne__ = _ne


def elem_bytes(v, dt):
    n = dt.itemsize
    k = dt.kind
    if k == "f":
        if isinstance(v, float):
            b = list(np.array([v], dtype=np.dtype("<f%d" % n)).tobytes())
        else:
            bits = v.to_bits() if n == 8 else v.bits_single()
            b = [extract(8 * i + 7, 8 * i, bits) for i in range(n)]
            b = [x.as_long() if z3.is_bv_value(x) else x for x in b]
    else:
        b = int_bytes(num(v), n)
    if dt.byteorder == ">" and n > 1:
        b = b[::-1]
    return b


def frombuffer(buf, dtype=float, count=-1, offset=0):
    dt = np.dtype(dtype)
    es = elems_of(buf)
    count, offset = int_of(num(count)), int_of(num(offset))
    es = es[offset:] if offset else es
    n = dt.itemsize
    if count < 0:
        if len(es) % n:
            raise ValueError("buffer size must be a multiple of element size")
        count = len(es) // n
    elif count * n > len(es):
        raise ValueError("buffer is smaller than requested size")
    if not es and count == 0 and offset == 0:
        pass
    out = []
    for i in range(count):
        out.append(elem_from_bytes(es[i * n:(i + 1) * n], dt))
    w = isinstance(buf, (bytearray, SymByteArray))
    return SymArray(out, dt, writeable=w)


def elem_from_bytes(b, dt):
    if dt.byteorder == ">":
        b = b[::-1]
    if dt.kind == "b":
        return elem_val(b[0]) != 0
    if concrete_elems(b):
        return np.frombuffer(bytes(b), dtype=dt.newbyteorder("<") if len(b) > 1 else dt)[0].item()
    bits = concat([z3.BitVecVal(x, 8) if isinstance(x, int) else x for x in b[::-1]])
    if dt.kind == "f":
        if dt.itemsize == 8:
            return SymFloat(bits=bits)
        if dt.itemsize == 4:
            return SymFloat(bits32=bits)
        raise PathUnknown("float dtype")
    if dt.kind not in "iu":
        raise PathUnknown(f"dtype {dt}")
    return from_bits(bits, dt.kind == "i")


def as_sym(a, dtype=None):
    """SymArray of any array-like (1-d)."""
    if isinstance(a, SymArray):
        return a if dtype is None else a.astype(dtype)
    if isinstance(a, np.ndarray):
        if a.ndim != 1 or a.dtype.kind not in "iufb":
            raise PathUnknown(f"array of shape {a.shape} dtype {a.dtype}")
        r = SymArray(a.tolist(), a.dtype, a.flags.writeable)
        return r if dtype is None else r.astype(dtype)
    if bytes_like(a):
        raise PathUnknown("array from bytes")
    items = list(a)
    if dtype is None:
        dts = []
        for x in items:
            s = scal(x)
            if s is None:
                raise PathUnknown("array of objects")
            v, d = s
            if d is None:
                d = np.dtype(bool) if isinstance(v, (bool, SymBool)) else (
                    np.dtype("f8") if isinstance(v, (float, SymFloat)) else np.dtype("i8"))
            dts.append(d)
        dt = native(np.result_type(*dts)) if dts else np.dtype("f8")
    else:
        dt = np.dtype(dtype)
    return SymArray([coerce(x, dt) for x in items], dt)


def array_op(op, a, b):
    if not isinstance(a, (SymArray, np.ndarray, list, tuple)):
        b = as_sym(b)
        prs = [(a, y) for y in b]
    elif not isinstance(b, (SymArray, np.ndarray, list, tuple)):
        a = as_sym(a)
        prs = [(x, b) for x in a]
    else:
        a, b = as_sym(a), as_sym(b)
        la, lb = list(a), list(b)
        if len(la) != len(lb):
            if len(la) == 1:
                la = la * len(lb)
            elif len(lb) == 1:
                lb = lb * len(la)
            else:
                raise ValueError("operands could not be broadcast together with shapes "
                                 f"({len(la)},) ({len(lb)},)")
        prs = list(zip(la, lb))
    out = []
    dt = None
    for x, y in prs:
        v, dt = scalar_op(op, x, y)
        out.append(v)
    if dt is None:
        ref = [scal(q) for q in (np_scalar(1, a.dtype) if isinstance(a, SymArray) else a,
                                 np_scalar(1, b.dtype) if isinstance(b, SymArray) else b)]
        dt = result_dt(ref[0][0], ref[0][1], ref[1][0], ref[1][1], op)
        if op == "truediv" and dt.kind != "f":
            dt = np.dtype("f8")
    return SymArray(out, dt)


def array_cmp(op, a, b):
    if not isinstance(a, (SymArray, np.ndarray)):
        if scal(a) is None and not isinstance(a, (list, tuple)):
            return False
        if scal(a) is not None:
            return SymArray([scalar_cmp(op, a, y) for y in as_sym(b)], bool)
    if not isinstance(b, (SymArray, np.ndarray)):
        if b is None or isinstance(b, str):
            return SymArray([False] * len(a), bool)
        if scal(b) is not None:
            return SymArray([scalar_cmp(op, x, b) for x in as_sym(a)], bool)
    a, b = as_sym(a), as_sym(b)
    if len(a) != len(b) and 1 not in (len(a), len(b)):
        raise ValueError("operands could not be broadcast together")
    la, lb = list(a), list(b)
    la = la * len(lb) if len(la) == 1 else la
    lb = lb * len(la) if len(lb) == 1 else lb
    return SymArray([scalar_cmp(op, x, y) for x, y in zip(la, lb)], bool)


def scalar_type_call(ty, a, k):
    """np.int32(x) and friends."""
    dt = np.dtype(ty)
    if not a:
        return ty()
    x = a[0]
    if isinstance(x, SymArray):
        return x.astype(dt)
    if isinstance(x, (list, tuple)):
        return as_sym(x, dt)
    if is_sym(x) and scal(x) is None:
        return ty(conc(x))
    if not is_sym(x):
        return ty(*a, **k)
    return np_scalar(coerce(x, dt), dt)


def ctor(kind):
    def f(*a, **k):
        dt = k.get("dtype", a[1] if len(a) > 1 else None)
        if kind in ("zeros", "ones", "empty"):
            n = a[0] if a else k["shape"]
            if isinstance(n, (list, tuple)):
                if len(n) != 1:
                    return getattr(np, kind)(*conc(a), **conc(k))
                n = n[0]
            n = int_of(num(scal(n)[0]))
            if n < 0:
                raise ValueError("negative dimensions are not allowed")
            if n > 1 << 20:
                raise PathUnknown("huge array")
            dt = np.dtype(dt if dt is not None else float)
            if dt.kind not in "iufb":
                return getattr(np, kind)(*conc(a), **conc(k))
            one = 1 if kind == "ones" else 0
            v = {"f": float(one), "b": bool(one)}.get(dt.kind, one)
            return SymArray([v] * n, dt)
        if kind == "full":
            n = a[0]
            if isinstance(n, (list, tuple)):
                n = n[0]
            v = a[1] if len(a) > 1 else k["fill_value"]
            dt = k.get("dtype", a[2] if len(a) > 2 else None)
            return as_sym([v] * int_of(num(scal(n)[0])), dt)
        x = a[0] if a else k.get("object", k.get("a"))
        if isinstance(x, (SymArray, np.ndarray)):
            if isinstance(x, np.ndarray) and (x.ndim != 1 or x.dtype.kind not in "iufb"):
                return getattr(np, kind)(*a, **k)
            if kind == "array":
                if k.get("copy", True) is False and (dt is None or np.dtype(dt) == x.dtype):
                    return x
                return (x.astype(dt) if dt is not None else x.copy()) if isinstance(x, SymArray) \
                    else SymArray(as_sym(x, dt).vals(), np.dtype(dt) if dt is not None else x.dtype)
            if dt is None or np.dtype(dt) == x.dtype:
                return x if isinstance(x, SymArray) else x
            return as_sym(x, dt)
        if isinstance(x, SymArrayArray):
            return as_sym(x.items_np(), dt)
        if bytes_like(x) or scal(x) is not None or isinstance(x, (str, dict)) or x is None:
            return getattr(np, kind)(*conc(a), **conc(k))
        items = list(x)
        if items and any(isinstance(i, (list, tuple, np.ndarray, SymArray)) for i in items):
            return getattr(np, kind)(*conc([items] + list(a[1:])), **conc(k))
        try:
            return as_sym(items, dt)
        except PathUnknown:
            if any(is_sym(i) for i in items):
                raise
            return getattr(np, kind)(*a, **k)
    return f


class SymArrayArray(Sym):
    """array.array with possibly symbolic elements."""

    def __init__(self, typecode, items=()):
        import array
        self.typecode = typecode
        self.itemsize = array.array(typecode).itemsize
        self.dt = np.dtype({"f": "f4", "d": "f8"}.get(
            typecode, ("i" if typecode.islower() else "u") + str(self.itemsize)))
        self.v = [coerce(x, self.dt) for x in items]

    def items_np(self):
        return [np_scalar(v, self.dt) for v in self.v]

    def __len__(self):
        return len(self.v)

    def __iter__(self):
        return iter(list(self.v))

    def __getitem__(self, i):
        if isinstance(i, slice):
            r = SymArrayArray(self.typecode)
            r.v = self.v[i]
            return r
        return self.v[int_of(i)]

    def __setitem__(self, i, v):
        self.v[int_of(i)] = coerce(v, self.dt)

    def append(self, v):
        self.v.append(coerce(v, self.dt))

    def extend(self, vs):
        for v in vs:
            self.append(v)

    def tobytes(self):
        return SymArray(self.v, self.dt).tobytes()

    def tolist(self):
        return list(self.v)

    def byteswap(self):
        self.v = SymArray(self.v, self.dt).byteswap().vals()

    def concrete(self):
        import array
        return array.array(self.typecode, [conc(x) for x in self.v])

    def __eq__(self, o):
        return self.v == list(o)


# ---- function handlers ------------------------------------------------------
def np_concatenate(arrs, axis=0, **k):
    arrs = list(arrs)
    if not any(isinstance(x, SymArray) for x in arrs) and not any(
            isinstance(x, (list, tuple)) for x in arrs):
        return np.concatenate(arrs, axis, **k)
    sa = [as_sym(x) for x in arrs]
    dt = np.result_type(*[x.dtype for x in sa])
    return SymArray([coerce_np(v, x.dtype, dt) for x in sa for v in x.vals()], dt)


def np_append(a, b, axis=None):
    if scal(b) is not None:
        b = [b]
    return np_concatenate([a, b])


def np_array_equal(a, b, equal_nan=False):
    a = as_sym(a)
    b = as_sym(b)
    if len(a) != len(b):
        return False
    return s_and(*[scalar_cmp("eq", x, y) for x, y in zip(a, b)])


def np_ufunc2(op):
    real = {"add": np.add, "sub": np.subtract, "mul": np.multiply, "and": np.bitwise_and,
            "or": np.bitwise_or, "xor": np.bitwise_xor, "lshift": np.left_shift,
            "rshift": np.right_shift, "floordiv": np.floor_divide, "mod": np.mod,
            "truediv": np.true_divide}[op]

    def f(a, b, *rest, **k):
        if not is_sym(a) and not is_sym(b):
            return real(a, b, *rest, **k)
        if rest or k:
            dt = k.pop("dtype", None)
            if k or rest:
                raise PathUnknown("ufunc keyword")
            r = f(a, b)
            return r.astype(dt) if dt is not None else r
        if isinstance(a, (SymArray, np.ndarray, list)) or isinstance(b, (SymArray, np.ndarray, list)):
            return array_op(op, a, b)
        sa, sb = scal(a), scal(b)
        if sa[1] is None and sb[1] is None:
            # two Python scalars: default integer/float types
            def lift(v):
                if isinstance(v, (bool, SymBool)):
                    return np_scalar(v, np.bool_)
                n = num(v)
                if n is not None:
                    return np_scalar(coerce(n, np.dtype("i8")), np.dtype("i8"))
                return np_scalar(v, np.dtype("f8"))
            a, b = lift(a), lift(b)
            v, dt = scalar_op(op, a, b)
            return np_scalar(v, dt)
        return binop(op, a, b)
    return f


def np_cmp(op):
    def f(a, b):
        return _ne(a, b) if op == "ne" and is_sym(a) else cmpop(op, a, b)
    return f


def np_abs(a, *r, **k):
    return abs(a) if is_sym(a) else np.abs(a, *r, **k)


def np_max(a, *r, **k):
    if isinstance(a, (list, tuple)):
        a = as_sym(a)
    return a.max()


def np_min(a, *r, **k):
    if isinstance(a, (list, tuple)):
        a = as_sym(a)
    return a.min()


def np_diff(a, n=1, axis=-1, prepend=None, append=None):
    a = as_sym(a)
    if prepend is not None:
        a = np_append([prepend] if scal(prepend) else prepend, a)
    return a[1:] - a[:-1]


def np_where(c, *ab):
    if not ab:
        c = as_sym(c)
        return (np.array([i for i, v in enumerate(c.vals()) if tf(v)], dtype="i8"),)
    a, b = ab
    c = as_sym(c)
    n = len(c)
    aa = list(as_sym(a)) if scal(a) is None else [a] * n
    bb = list(as_sym(b)) if scal(b) is None else [b] * n
    out, dts = [], []
    la, lb = as_sym(aa), as_sym(bb)
    dt = np.result_type(la.dtype, lb.dtype)
    for k, x, y in zip(c.vals(), la.vals(), lb.vals()):
        k = tf(k)
        x, y = coerce_np(x, la.dtype, dt), coerce_np(y, lb.dtype, dt)
        out.append(merge_values(k.e, x, y) if isinstance(k, SymBool) else (x if k else y))
    return SymArray(out, dt)


def np_clip(a, lo, hi, **k):
    if isinstance(a, SymArray):
        return SymArray([scal(np_clip(x, lo, hi))[0] for x in a], a.dtype)
    r = a
    c = r < lo
    c = c.e if isinstance(c, SymBool) else z3.BoolVal(bool(c))
    v, dt = scal(a)
    v = merge_values(c, coerce(lo, dt), v)
    c = v > hi
    c = c.e if isinstance(c, SymBool) else z3.BoolVal(bool(c))
    return np_scalar(merge_values(c, coerce(hi, dt), v), dt)


def np_shape(a):
    if isinstance(a, SymArray):
        return a.shape
    if is_sym(a):
        return ()
    if isinstance(a, (list, tuple)) and any(is_sym(x) for x in a):
        return (len(a),)
    return np.shape(a)


def np_arange(*a, **k):
    r = np.arange(*conc(list(a)), **conc(k))
    return SymArray(r.tolist(), r.dtype)


def np_fromiter(it, dtype, count=-1):
    items = list(it)
    return as_sym(items if count < 0 else items[:count], dtype)


def np_isnan(x):
    if isinstance(x, SymArray):
        return SymArray([np_isnan(v) for v in x.vals()], bool)
    v = scal(x)[0]
    if isinstance(v, SymFloat):
        return sbool(z3.fpIsNaN(v.f))
    return bool(np.isnan(v))


def np_isfinite(x):
    if isinstance(x, SymArray):
        return SymArray([np_isfinite(v) for v in x.vals()], bool)
    v = scal(x)[0]
    if isinstance(v, SymFloat):
        return sbool(z3.Not(z3.Or(z3.fpIsNaN(v.f), z3.fpIsInf(v.f))))
    return bool(np.isfinite(v)) if not is_sym(v) else True


def handlers():
    h = {
        np.zeros: ctor("zeros"), np.ones: ctor("ones"), np.empty: ctor("empty"),
        np.full: ctor("full"), np.array: ctor("array"), np.asarray: ctor("asarray"),
        np.ascontiguousarray: ctor("asarray"), np.asanyarray: ctor("asarray"),
        np.frombuffer: frombuffer, np.fromiter: np_fromiter, np.arange: np_arange,
    }
    sym = {
        np.concatenate: np_concatenate, np.append: np_append, np.hstack: np_concatenate,
        np.array_equal: np_array_equal,
        np.add: np_ufunc2("add"), np.subtract: np_ufunc2("sub"), np.multiply: np_ufunc2("mul"),
        np.bitwise_and: np_ufunc2("and"), np.bitwise_or: np_ufunc2("or"),
        np.bitwise_xor: np_ufunc2("xor"), np.left_shift: np_ufunc2("lshift"),
        np.right_shift: np_ufunc2("rshift"), np.floor_divide: np_ufunc2("floordiv"),
        np.mod: np_ufunc2("mod"), np.remainder: np_ufunc2("mod"),
        np.true_divide: np_ufunc2("truediv"), np.divide: np_ufunc2("truediv"),
        np.equal: np_cmp("eq"), np.less: np_cmp("lt"), np.less_equal: np_cmp("le"),
        np.greater: np_cmp("gt"), np.greater_equal: np_cmp("ge"), np.not_equal: np_cmp("ne"),
        np.abs: np_abs, np.absolute: np_abs, np.max: np_max, np.min: np_min, np.amax: np_max,
        np.amin: np_min, np.diff: np_diff, np.where: np_where, np.clip: np_clip,
        np.shape: np_shape, np.size: lambda a, *r: len(a) if isinstance(a, SymArray) else 1,
        np.ndim: lambda a: len(np_shape(a)),
        np.any: lambda a, *r, **k: as_sym(a).any(), np.all: lambda a, *r, **k: as_sym(a).all(),
        np.sum: lambda a, *r, **k: as_sym(a).sum(*r, **k),
        np.cumsum: lambda a, *r, **k: as_sym(a).cumsum(*r, **k),
        np.copy: lambda a, *r, **k: a.copy(),
        np.negative: lambda a: -a, np.invert: lambda a: ~a,
        np.logical_and: lambda a, b: s_and(a, b) if not isinstance(a, SymArray) else
        SymArray([s_and(tf(x), tf(y)) for x, y in zip(a.vals(), as_sym(b).vals())], bool),
        np.logical_or: lambda a, b: s_or(a, b) if not isinstance(a, SymArray) else
        SymArray([s_or(tf(x), tf(y)) for x, y in zip(a.vals(), as_sym(b).vals())], bool),
        np.logical_not: lambda a: ~a if isinstance(a, SymArray) else s_not(a),
        np.isnan: np_isnan, np.isfinite: np_isfinite,
        np.minimum: lambda a, b: np_where([a < b], [a], [b])[0] if not isinstance(
            a, SymArray) and not isinstance(b, SymArray) else np_where(a < b, a, b),
        np.maximum: lambda a, b: np_where([a > b], [a], [b])[0] if not isinstance(
            a, SymArray) and not isinstance(b, SymArray) else np_where(a > b, a, b),
        np.can_cast: lambda a, b, casting="safe": np.can_cast(
            a.dtype if isinstance(a, (SymArray, SymNp)) else a, b, casting),
        np.result_type: lambda *a: np.result_type(
            *[x.dtype if isinstance(x, (SymArray, SymNp)) else x for x in a]),
        np.isscalar: lambda a: not isinstance(a, SymArray),
        np.zeros_like: lambda a, dtype=None, **k: SymArray(
            [0.0 if np.dtype(dtype or a.dtype).kind == "f" else 0] * len(a), dtype or a.dtype),
        np.empty_like: lambda a, dtype=None, **k: SymArray(
            [0.0 if np.dtype(dtype or a.dtype).kind == "f" else 0] * len(a), dtype or a.dtype),
        np.dtype: lambda a, *r: np.dtype(a, *r),
    }
    return h, sym
