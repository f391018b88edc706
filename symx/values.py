"""Symbolic stand-ins for Python's scalar values.

SymInt   exact Python int: signed bit-vector wide enough for its interval
SymBool  bool
SymFloat IEEE-754 double (or single)
"""
import numpy as np
import z3
from .core import eng, PathUnknown

NPT = (np.generic, np.ndarray)

RNE = z3.RNE()
F64 = z3.Float64()
F32 = z3.Float32()
MAXW = 640


def width(lo, hi):
    a = (lo if lo >= 0 else ~lo).bit_length()
    b = (hi if hi >= 0 else ~hi).bit_length()
    return max(a, b) + 1


def bvval(v, w):
    return z3.BitVecVal(v & ((1 << w) - 1), w)


def fit(e, w):
    """Signed resize of the bit-vector e to width w (value known to fit)."""
    ew = e.size()
    if ew == w:
        return e
    if ew < w:
        if z3.is_app_of(e, z3.Z3_OP_SIGN_EXT):
            return z3.SignExt(w - e.arg(0).size(), e.arg(0))
        if z3.is_app_of(e, z3.Z3_OP_ZERO_EXT):
            return z3.ZeroExt(w - e.arg(0).size(), e.arg(0))
        return z3.SignExt(w - ew, e)
    return extract(w - 1, 0, e)


OPAQUE = set()     # ids of checksum terms, which are not worth looking into


def extract(hi, lo, e):
    w = e.size()
    if lo == 0 and hi == w - 1:
        return e
    if z3.is_bv_value(e):
        return z3.BitVecVal((e.as_long() >> lo) & ((1 << (hi - lo + 1)) - 1), hi - lo + 1)
    d = e.decl().kind()
    if d == z3.Z3_OP_EXTRACT:
        p = e.params()
        return extract(hi + p[1], lo + p[1], e.arg(0))
    if d == z3.Z3_OP_ZERO_EXT or d == z3.Z3_OP_SIGN_EXT:
        a = e.arg(0)
        if hi < a.size():
            return extract(hi, lo, a)
        if d == z3.Z3_OP_ZERO_EXT and lo >= a.size():
            return z3.BitVecVal(0, hi - lo + 1)
        if lo < a.size():
            n = hi - a.size() + 1
            inner = extract(a.size() - 1, lo, a)
            return z3.ZeroExt(n, inner) if d == z3.Z3_OP_ZERO_EXT else z3.SignExt(n, inner)
    elif d == z3.Z3_OP_CONCAT:
        pos = w
        parts = []
        for i in range(e.num_args()):
            a = e.arg(i)
            top = pos - 1
            bot = pos - a.size()
            pos = bot
            h = min(hi, top)
            l = max(lo, bot)
            if h >= l:
                parts.append(extract(h - bot, l - bot, a))
        return concat(parts)
    elif d in (z3.Z3_OP_BAND, z3.Z3_OP_BOR, z3.Z3_OP_BXOR) and e.num_args() == 2 and \
            e.get_id() not in OPAQUE:
        a, b = extract(hi, lo, e.arg(0)), extract(hi, lo, e.arg(1))
        if z3.is_bv_value(a) or z3.is_bv_value(b):
            if z3.is_bv_value(b):
                a, b = b, a
            av = a.as_long()
            full = (1 << a.size()) - 1
            if d == z3.Z3_OP_BAND:
                if av == 0:
                    return a
                if av == full:
                    return b
            elif d == z3.Z3_OP_BOR:
                if av == 0:
                    return b
                if av == full:
                    return a
            elif av == 0:
                return b
            return {z3.Z3_OP_BAND: a & b, z3.Z3_OP_BOR: a | b}.get(d, a ^ b)
        return z3.Extract(hi, lo, e)
    elif lo == 0 and d in ARITH:
        s = strip(e, hi + 1)
        if s is not None:
            return s
    return z3.Extract(hi, lo, e)


ARITH = {z3.Z3_OP_BADD, z3.Z3_OP_BSUB, z3.Z3_OP_BNEG, z3.Z3_OP_BMUL}


def strip(e, k):
    """Low k bits of e as an expression of width k without cutting into any atom."""
    n = e.size()
    if n == k:
        return e
    if z3.is_bv_value(e):
        return z3.BitVecVal(e.as_long() & ((1 << k) - 1), k)
    d = e.decl().kind()
    if d in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
        a = e.arg(0)
        if a.size() <= k:
            if a.size() == k:
                return a
            return (z3.SignExt if d == z3.Z3_OP_SIGN_EXT else z3.ZeroExt)(k - a.size(), a)
        return strip(a, k)
    if d in ARITH:
        xs = [strip(e.arg(i), k) for i in range(e.num_args())]
        if any(x is None for x in xs):
            return None
        if d == z3.Z3_OP_BNEG:
            return -xs[0]
        r = xs[0]
        for x in xs[1:]:
            r = r + x if d == z3.Z3_OP_BADD else (r - x if d == z3.Z3_OP_BSUB else r * x)
        return r
    return None


def concat(parts):
    """Concatenate bit-vectors (most significant first), re-joining adjacent extracts."""
    out = []
    if len(parts) > 1:
        p = parts[0]
        for kind, ext in ((z3.Z3_OP_ZERO_EXT, z3.ZeroExt), (z3.Z3_OP_SIGN_EXT, z3.SignExt)):
            if z3.is_app_of(p, kind):
                return ext(p.size() - p.arg(0).size(), concat([p.arg(0)] + list(parts[1:])))
    if any(z3.is_app_of(p, z3.Z3_OP_CONCAT) for p in parts):
        flat = []
        for p in parts:
            flat.extend(_flat(p))
        parts = flat
    for p in parts:
        if out:
            q = out[-1]
            if z3.is_bv_value(p) and z3.is_bv_value(q):
                out[-1] = z3.BitVecVal((q.as_long() << p.size()) | p.as_long(),
                                       q.size() + p.size())
                continue
            m = _adjacent(q, p)
            if m is not None:
                out[-1] = m
                continue
        out.append(p)
    if len(out) == 1:
        return out[0]
    return z3.Concat(*out)


def _flat(p):
    if z3.is_app_of(p, z3.Z3_OP_CONCAT):
        for i in range(p.num_args()):
            yield from _flat(p.arg(i))
    else:
        yield p


def _adjacent(q, p):
    # q = x[h:m+1], p = x[m:l]
    def view(e):
        if z3.is_app_of(e, z3.Z3_OP_EXTRACT):
            pr = e.params()
            return e.arg(0), pr[0], pr[1]
        return e, e.size() - 1, 0
    qx, qh, ql = view(q)
    px, ph, pl = view(p)
    if qx.eq(px) and ql == ph + 1:
        return extract(qh, pl, qx)
    return None


def mk(e, lo, hi):
    """SymInt (or plain int) of the signed bit-vector e with value in [lo, hi]."""
    if lo == hi:
        return lo
    w = width(lo, hi)
    if w > MAXW:
        raise PathUnknown("integer too wide")
    e = fit(e, w)
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def wide(a, b, lo, hi):
    """Width for a sum: never cut into an operand whose term is wider than its range."""
    w = width(lo, hi)
    for x in (a, b):
        w = max(w, width(x, x) if isinstance(x, int) else
                max(width(x.lo, x.hi), x.e.size() if x.e.size() <= 72 else 0))
    return w


def mkw(e, lo, hi):
    """mk that keeps a term wider than its range (so that cancellations stay visible)."""
    if lo == hi:
        return lo
    if width(lo, hi) > MAXW:
        raise PathUnknown("integer too wide")
    if z3.is_bv_value(e):
        return e.as_signed_long()
    return SymInt(e, lo, hi)


def from_bits(e, signed):
    """Integer value of a raw bit-vector."""
    w = e.size()
    if z3.is_bv_value(e):
        return e.as_signed_long() if signed else e.as_long()
    if signed:
        # tighten: sign/zero extended narrower terms keep their range
        d = e.decl().kind()
        if d == z3.Z3_OP_SIGN_EXT:
            return from_bits(e.arg(0), True)
        if d == z3.Z3_OP_ZERO_EXT:
            return from_bits(e.arg(0), False)
        if d == z3.Z3_OP_EXTRACT and e.params()[1] == 0:
            # a truncated field: when the path implies nothing was cut off, use the whole
            base = e.arg(0)
            if base.size() <= 80 and eng().entails(base == z3.SignExt(base.size() - w, e)):
                return SymInt(base, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        return mk(e, -(1 << (w - 1)), (1 << (w - 1)) - 1)
    d = e.decl().kind()
    if d == z3.Z3_OP_ZERO_EXT:
        return from_bits(e.arg(0), False)
    return SymInt(z3.ZeroExt(1, e), 0, (1 << w) - 1)


def is_sym(x):
    return isinstance(x, Sym)


class Sym:
    __array_ufunc__ = None
    __slots__ = ()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self


def as_bool_term(x):
    """z3 Bool of a truth value (SymBool/bool/SymInt...)."""
    if isinstance(x, bool):
        return z3.BoolVal(x)
    if isinstance(x, SymBool):
        return x.e
    if isinstance(x, SymInt):
        return x.e != 0
    return z3.BoolVal(bool(x))


def sbool(e):
    if isinstance(e, bool):
        return e
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SymBool(e)


class SymBool(Sym):
    __slots__ = ("e", "_np")

    def __init__(self, e, np=False):
        self.e = e
        self._np = np

    def __bool__(self):
        return eng().branch(self.e)

    def _i(self):
        return SymInt(z3.If(self.e, bvval(1, 2), bvval(0, 2)), 0, 1)

    def __and__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ("bool", "bool_"):
            return s_and(self, o if isinstance(o, SymBool) else bool(o))
        return self._i() & o
    __rand__ = __and__

    def __or__(self, o):
        if isinstance(o, (bool, SymBool)) or type(o).__name__ in ("bool", "bool_"):
            return s_or(self, o if isinstance(o, SymBool) else bool(o))
        return self._i() | o
    __ror__ = __or__

    def __xor__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sbool(z3.Xor(self.e, as_bool_term(o)))
        return self._i() ^ o
    __rxor__ = __xor__

    def __invert__(self):
        if self._np:
            return s_not(self)
        return ~self._i()

    def __eq__(self, o):
        if isinstance(o, (bool, SymBool)):
            return sbool(self.e == as_bool_term(o))
        return self._i() == o

    def __ne__(self, o):
        return s_not(self == o)

    def __hash__(self):
        return hash(bool(self))

    def __index__(self):
        return 1 if bool(self) else 0

    def __int__(self):
        return 1 if bool(self) else 0

    def __repr__(self):
        return "<SymBool>"

    def all(self):
        return self

    def any(self):
        return self

    def item(self):
        return self

    def __format__(self, spec):
        return "<SymBool>"


def _fwd(name):
    def f(self, *a):
        return getattr(self._i(), name)(*a)
    f.__name__ = name
    return f


for _n in ("add radd sub rsub mul rmul floordiv rfloordiv mod rmod lshift rlshift "
           "rshift rrshift truediv rtruediv pow rpow lt le gt ge neg pos abs float").split():
    setattr(SymBool, f"__{_n}__", _fwd(f"__{_n}__"))


def s_not(x):
    if isinstance(x, SymBool):
        return sbool(z3.Not(x.e) if not z3.is_not(x.e) else x.e.arg(0))
    return not x


def s_and(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.e)
        elif isinstance(x, SymInt):
            ts.append(x.e != 0)
        elif not x:
            return False
    if not ts:
        return True
    return sbool(ts[0] if len(ts) == 1 else z3.And(*ts))


def s_or(*xs):
    ts = []
    for x in xs:
        if isinstance(x, SymBool):
            ts.append(x.e)
        elif isinstance(x, SymInt):
            ts.append(x.e != 0)
        elif x:
            return True
    if not ts:
        return False
    return sbool(ts[0] if len(ts) == 1 else z3.Or(*ts))


def num(x):
    """Plain numeric view: SymInt/int for int-likes, None otherwise."""
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, (int, SymInt)):
        return x
    if isinstance(x, SymBool):
        return x._i()
    return None


def parts(x):
    if isinstance(x, int):
        return None, x, x
    return x.e, x.lo, x.hi


def term(x, w):
    if isinstance(x, int):
        return bvval(x, w)
    return fit(x.e, w)


class SymInt(Sym):
    __slots__ = ("e", "lo", "hi", "src", "uni")

    def __init__(self, e, lo, hi):
        self.e = e
        self.lo = lo
        self.hi = hi
        self.src = None
        self.uni = None      # (SymInt n, plain function): the value is fn(n)

    # ---- arithmetic
    def _bin(self, o, op, rev=False):
        n = num(o)
        if n is None:
            if isinstance(o, NPT):
                from . import npmodel
                return npmodel.binop(op, o, self) if rev else npmodel.binop(op, self, o)
            if isinstance(o, float):
                f = SymFloat.of(self)
                return getattr(f, ("__r" if rev else "__") + op + "__")(o)
            if op == "mul" and isinstance(o, (list, tuple, str, bytes)):
                return o * int_of(self)
            if op == "mul" and type(o).__name__ == "timedelta":
                from . import dtmodel
                return dtmodel.td_times(o, self)
            return NotImplemented
        return OPS[op](n, self) if rev else OPS[op](self, n)

    def __neg__(self):
        return i_sub(0, self)

    def __pos__(self):
        return self

    def __abs__(self):
        if self.lo >= 0:
            return self
        if self.hi <= 0:
            return -self
        m = max(-self.lo, self.hi)
        w = width(-m, m)
        t = fit(self.e, w)
        return mk(z3.If(t < 0, -t, t), 0, m)

    def __invert__(self):
        return mk(~self.e, ~self.hi, ~self.lo)

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self

    def __pow__(self, o, mod=None):
        if mod is not None:
            return pow(int_of(self), int_of(o), int_of(mod))
        n = num(o)
        if isinstance(n, int) and 0 <= n <= 8:
            r = 1
            for _ in range(n):
                r = r * self
            return r
        return int_of(self) ** int_of(o)

    def __rpow__(self, o):
        n = num(o)
        if n == 2 and self.lo >= 0 and self.hi <= 400:
            return i_shl(1, self)
        return o ** int_of(self)

    def __truediv__(self, o):
        n = num(o)
        if n is None:
            if isinstance(o, NPT):
                from . import npmodel
                return npmodel.binop("truediv", self, o)
            if isinstance(o, float):
                return SymFloat.of(self) / o
            return NotImplemented
        return i_truediv(self, n)

    def __rtruediv__(self, o):
        n = num(o)
        if n is None:
            if isinstance(o, NPT):
                from . import npmodel
                return npmodel.binop("truediv", o, self)
            if isinstance(o, float):
                return o / SymFloat.of(self)
            return NotImplemented
        return i_truediv(n, self)

    # ---- comparison
    def _cmp(self, o, op):
        n = num(o)
        if n is None:
            if isinstance(o, NPT):
                from . import npmodel
                return npmodel.cmpop(op, self, o)
            if isinstance(o, float):
                r = cmp_int_float(self, o, op)
                return r
            return NotImplemented
        return i_cmp(self, n, op)

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        r = self._cmp(o, "eq")
        return r

    def __ne__(self, o):
        r = self._cmp(o, "eq")
        return r if r is NotImplemented else s_not(r)

    # ---- conversions
    def __bool__(self):
        if self.lo > 0 or self.hi < 0:
            return True
        return eng().branch(self.e != 0)

    def __index__(self):
        v = eng().concretise(self.e)
        return v.as_signed_long()

    def __int__(self):
        return self.__index__()

    def __hash__(self):
        return hash(self.__index__())

    def __float__(self):
        return float(self.__index__())

    def __round__(self, nd=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def __repr__(self):
        return "<SymInt>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<SymInt>"

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return 0

    @property
    def numerator(self):
        return self

    @property
    def denominator(self):
        return 1

    def conjugate(self):
        return self

    def is_integer(self):
        return True

    def bit_length(self):
        a = abs(self)
        if isinstance(a, int):
            return a.bit_length()
        n = a.hi.bit_length()
        w = width(0, n)
        r = bvval(0, w)
        for k in range(1, n + 1):
            r = z3.If(z3.UGE(a.e, bvval(1 << (k - 1), a.e.size())), bvval(k, w), r)
        return mk(r, 0, n)

    def to_bytes(self, length=1, byteorder="big", *, signed=False):
        from .seqs import SymBytes
        length = int_of(length)
        lo = -(1 << (8 * length - 1)) if signed else 0
        hi = (1 << (8 * length - 1)) - 1 if signed else (1 << (8 * length)) - 1
        if not s_and(self >= lo, self <= hi):
            raise OverflowError("int too big to convert")
        bs = int_bytes(self, length)
        return SymBytes(bs if byteorder == "little" else bs[::-1])


def int_of(x):
    """Concrete int (forking over values when symbolic)."""
    if isinstance(x, SymInt):
        return x.__index__()
    return x


def int_bytes(x, n):
    """Little-endian byte elements of integer x (two's complement, n bytes)."""
    if isinstance(x, int):
        return [(x >> (8 * i)) & 255 for i in range(n)]
    w = 8 * n
    e = x.e
    ew = e.size()
    if ew < w:
        if x.lo >= 0 and z3.is_app_of(e, z3.Z3_OP_ZERO_EXT):
            e = z3.ZeroExt(w - e.arg(0).size(), e.arg(0))
        else:
            e = fit(e, w)
    out = []
    for i in range(n):
        b = extract(8 * i + 7, 8 * i, e)
        out.append(b.as_long() if z3.is_bv_value(b) else b)
    return out


# ---- exact integer operations -------------------------------------------
def _rewrap(x, c, lo, hi):
    """x + c where c only moves a multiple of 2^k: the low k bits of x, read again."""
    k = (c & -c).bit_length() - 1
    if k < 8 or k > x.e.size():
        return None
    e = x.e
    while e.num_args() == 1 and e.decl().kind() in (z3.Z3_OP_ZERO_EXT, z3.Z3_OP_SIGN_EXT):
        e = e.arg(0)
    if e.decl().kind() not in (z3.Z3_OP_CONCAT, z3.Z3_OP_EXTRACT, z3.Z3_OP_BOR, z3.Z3_OP_BAND):
        return None
    if 0 <= lo and hi < 1 << k:
        return from_bits(extract(k - 1, 0, x.e), False)
    if -(1 << (k - 1)) <= lo and hi < 1 << (k - 1):
        return from_bits(extract(k - 1, 0, x.e), True)
    return None


def i_add(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a + b
    if isinstance(b, int) and b == 0:
        return a
    if isinstance(a, int) and a == 0:
        return b
    _, al, ah = parts(a)
    _, bl, bh = parts(b)
    lo, hi = al + bl, ah + bh
    for x, c in ((a, b), (b, a)):
        if isinstance(c, int):
            r = _rewrap(x, c, lo, hi)
            if r is not None:
                return r
    w = wide(a, b, lo, hi)
    return src(mkw(term(a, w) + term(b, w), lo, hi), 1, a, 1, b)


def i_sub(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a - b
    if isinstance(b, int) and b == 0:
        return a
    _, al, ah = parts(a)
    _, bl, bh = parts(b)
    if a is b or (isinstance(a, SymInt) and isinstance(b, SymInt) and a.e.eq(b.e)):
        return 0
    lo, hi = al - bh, ah - bl
    if isinstance(b, int):
        r = _rewrap(a, -b, lo, hi)
        if r is not None:
            return r
    w = wide(a, b, lo, hi)
    return src(mkw(term(a, w) - term(b, w), lo, hi), 1, a, -1, b)


def minus(a):
    """-a for a negative a, taken together when a is itself a negation."""
    m = i_mul(a, -1)
    r = lin_build(*linear(m))
    return r if isinstance(r, SymInt) and r.lo > 0 else m


def i_mul(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a * b
    for x, y in ((a, b), (b, a)):
        if isinstance(x, int):
            if x == 0:
                return 0
            if x == 1:
                return y
            if x > 0 and x & (x - 1) == 0:
                return i_shl(y, x.bit_length() - 1)
    if isinstance(a, SymInt) and isinstance(b, SymInt):
        # one order and no negative factors, however it is written
        na, nb = a.hi < 0, b.hi < 0
        if na or nb:
            r = i_mul(minus(a) if na else a, minus(b) if nb else b)
            return r if na and nb else i_mul(r, -1)
        if a.e.get_id() > b.e.get_id():
            a, b = b, a
    _, al, ah = parts(a)
    _, bl, bh = parts(b)
    c = (al * bl, al * bh, ah * bl, ah * bh)
    lo, hi = min(c), max(c)
    w = max(width(lo, hi), width(al, ah), width(bl, bh))
    if w > MAXW:
        raise PathUnknown("integer too wide")
    r = mk(term(a, w) * term(b, w), lo, hi)
    if isinstance(a, int):
        return src(r, a, b, 0, 0)
    if isinstance(b, int):
        return src(r, b, a, 0, 0)
    return r


def src(r, ka, a, kb, b):
    """Remember that r = ka*a + kb*b (used to divide sums of known parts exactly)."""
    if isinstance(r, SymInt):
        r.src = (ka, a, kb, b)
    return r


def linear(x, cap=16):
    """(constant, [(coefficient, SymInt)]) of an integer, exact."""
    const = 0
    acc = {}
    todo = [(1, x)]
    steps = 0
    while todo:
        k, v = todo.pop()
        if isinstance(v, int):
            const += k * v
            continue
        steps += 1
        if v.src is not None and steps < 60 and len(acc) < cap:
            ka, a, kb, b = v.src
            if ka:
                todo.append((k * ka, a))
            if kb:
                todo.append((k * kb, b))
            continue
        i = v.e.get_id()
        old = acc.get(i)
        acc[i] = (k + (old[0] if old else 0), v)
    return const, [t for t in acc.values() if t[0]]


def uni_of(x):
    """(SymInt n, plain function) such that x is fn(n), or None."""
    if x.uni is not None:
        return x.uni
    c, ts = linear(x)
    base = None
    fns = []
    for k, v in ts:
        u = v.uni or ((v, None) if v.hi - v.lo < UNI_MAX else None)
        if u is None or base is not None and not base.e.eq(u[0].e):
            return None
        base = u[0]
        fns.append((k, u[1]))
    if base is None:
        return None
    return base, lambda m: sum(k * (m if f is None else f(m)) for k, f in fns) + c


def lin_build(const, ts):
    r = 0
    for k, v in ts:
        r = i_add(r, i_mul(v, k))
    return i_add(r, const)


def lin_range(const, ts):
    lo = hi = const
    for k, v in ts:
        lo += k * (v.lo if k > 0 else v.hi)
        hi += k * (v.hi if k > 0 else v.lo)
    return lo, hi


def lin_divmod(a, b):
    """divmod(a, b) for a positive constant b when the parts of a make it easy, else None."""
    r = lin_divmod0(a, b)
    if r is None:
        return None
    return clip(r[0], a.lo // b, a.hi // b), clip(r[1], 0, b - 1)


SMALLQ = 3


def lin_divmod0(a, b):
    if a.src is None:
        if a.hi // b - a.lo // b <= SMALLQ:
            return small_divmod(a, b)
        return None
    const, ts = linear(a)
    whole = [(k, v) for k, v in ts if k % b == 0]
    rest = [(k, v) for k, v in ts if k % b]
    lo, hi = lin_range(const, rest)
    cw = lo // b
    lo, hi = lo - cw * b, hi - cw * b
    q = lin_build(cw, [(k // b, v) for k, v in whole])
    if hi - lo >= SMALLQ * b:
        if not whole:
            return None
        r = lin_build(const - cw * b, rest)
        if isinstance(r, SymInt):
            r = mk(r.e, max(r.lo, lo), min(r.hi, hi))
        return i_add(q, i_floordiv(r, b)), i_mod(r, b)
    r = lin_build(const - cw * b, rest)
    if isinstance(r, int):
        return i_add(q, r // b), r % b
    keep = r.src
    r = mk(r.e, max(r.lo, lo), min(r.hi, hi)) if (r.lo < lo or r.hi > hi) else r
    if isinstance(r, int):
        return i_add(q, r // b), r % b
    if r.src is None:
        r.src = keep
    q2, r2 = small_divmod(r, b)
    return i_add(q, q2), r2


def small_divmod(r, b):
    q = r.lo // b
    top = r.hi // b
    out = q
    for i in range(q + 1, top + 1):
        c = i_cmp(r, i * b, "ge")
        out = i_add(out, c._i() if isinstance(c, SymBool) else int(c))
    return clip(out, q, top), clip(i_sub(r, i_mul(out, b)), 0, b - 1)


def clip(m, lo, hi):
    """m, known to lie in [lo, hi]."""
    if isinstance(m, SymInt) and (m.lo < lo or m.hi > hi):
        k = m.src
        m = mk(m.e, max(m.lo, lo), min(m.hi, hi))
        if isinstance(m, SymInt):
            m.src = k
    return m


def i_mod(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a % b
    if isinstance(b, SymInt):
        if b.lo <= 0 <= b.hi and eng().branch(b.e == 0):
            raise ZeroDivisionError("integer modulo by zero")
    elif b == 0:
        raise ZeroDivisionError("integer modulo by zero")
    _, al, ah = parts(a)
    _, bl, bh = parts(b)
    if isinstance(b, int) and b > 0:
        if al >= 0 and ah < b:
            return a
        if b & (b - 1) == 0:
            k = b.bit_length() - 1
            if k == 0:
                return 0
            w = max(width(al, ah), k)
            return from_bits(extract(k - 1, 0, term(a, w)), False)
        dm = lin_divmod(a, b)
        if dm is not None:
            return dm[1]
    lo = min(0, bl + 1) if bl < 0 else 0
    hi = max(0, bh - 1) if bh > 0 else 0
    w = max(width(al, ah), width(bl, bh))
    A, B = term(a, w), term(b, w)
    if al >= 0 and bl > 0:
        r = z3.URem(A, B)
        return mk(r, 0, min(hi, ah))
    return mk(A % B, lo, hi)


def i_floordiv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a // b
    if isinstance(b, SymInt):
        if b.lo <= 0 <= b.hi and eng().branch(b.e == 0):
            raise ZeroDivisionError("integer division or modulo by zero")
    elif b == 0:
        raise ZeroDivisionError("integer division or modulo by zero")
    _, al, ah = parts(a)
    _, bl, bh = parts(b)
    if isinstance(b, int) and b > 0:
        if b == 1:
            return a
        if b & (b - 1) == 0:
            return i_shr(a, b.bit_length() - 1)
        dm = lin_divmod(a, b)
        if dm is not None:
            return dm[0]
        lo, hi = al // b, ah // b
        w = max(width(al, ah), width(b, b))
        A, B = term(a, w), bvval(b, w)
        if al >= 0:
            return mk(z3.UDiv(A, B), lo, hi)
        return mk((A - A % B) / B, lo, hi) if al - b >= -(1 << (w - 1)) else \
            mk((fit(A, w + 1) - fit(A, w + 1) % bvval(b, w + 1)) / bvval(b, w + 1), lo, hi)
    m = max(abs(al), abs(ah)) + 1
    if bl > 0:
        c = [al // bl, al // bh, ah // bl, ah // bh]
        lo, hi = min(c), max(c)
    else:
        lo, hi = -m, m
    w = max(width(al, ah), width(bl, bh)) + 2
    A, B = term(a, w), term(b, w)
    if al >= 0 and bl > 0:
        return mk(z3.UDiv(A, B), lo, hi)
    return mk((A - A % B) / B, lo, hi)


NOLIN = []
CANON = {}


def lin_canon(a, b):
    """(weighted sum in a fixed order, c) with a - b = sum + c; None for plain sums."""
    ca, ta = linear(a)
    cb, tb = linear(b)
    if not any(abs(k) > 2 and not (k & (k - 1) == 0) for k, _ in ta + tb):
        return None
    acc = {}
    for k, v in ta:
        acc[v.e.get_id()] = (k, v)
    for k, v in tb:
        i = v.e.get_id()
        old = acc.get(i)
        acc[i] = ((old[0] if old else 0) - k, v)
    ts = [(i, k, v) for i, (k, v) in sorted(acc.items()) if k]
    if not ts:
        return 0, ca - cb       # equal parts cancel
    sign = 1 if ts[0][1] > 0 else -1
    g = math_.gcd(*[k for _, k, _ in ts])
    ts = [(i, k // g, v) for i, k, v in ts]
    key = tuple((i, k * sign, v.lo, v.hi) for i, k, v in ts)
    if key not in CANON:
        if len(CANON) > 20000:
            CANON.clear()
        CANON[key] = (lin_build(0, [(k * sign, v) for _, k, v in ts]), ts)
    s = CANON[key][0]
    return (s, g * sign), ca - cb


def lin_cmp(s, c, op):
    """s[0] * s[1] + c <op> 0."""
    if isinstance(s, int):
        return i_cmp(s + c, 0, op)
    s, g = s
    if g < 0:
        # -g*s + c <op> 0  <=>  g*s <flipped op> c
        op = {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq"}[op]
        g, c = -g, -c
    # g*s <op> -c
    k = -c
    if op == "eq":
        if k % g:
            return False
        k = k // g
    elif op in ("lt", "ge"):
        k = -((-k) // g)
    else:
        k = k // g
    c = -k
    NOLIN.append(1)
    try:
        return i_cmp(s, -c, op)
    finally:
        NOLIN.pop()


def lin_diff(a, b):
    """a - b with common parts cancelled."""
    ca, ta = linear(a)
    cb, tb = linear(b)
    acc = {}
    for k, v in ta:
        acc[v.e.get_id()] = (k, v)
    for k, v in tb:
        i = v.e.get_id()
        old = acc.get(i)
        acc[i] = ((old[0] if old else 0) - k, v)
    return lin_build(ca - cb, [t for t in acc.values() if t[0]])


def pin(x):
    """x, as a plain int when the path leaves it only one value."""
    if isinstance(x, SymInt):
        v = eng().pinned(x.e)
        if v is not None:
            return v.as_signed_long()
    return x


def i_shl(a, b):
    b = pin(b)
    if isinstance(a, int) and isinstance(b, int):
        return a << b
    if isinstance(b, SymInt):
        if b.lo < 0:
            if b < 0:
                raise ValueError("negative shift count")
        if b.hi > 200:
            return a << int_of(b)
        _, al, ah = parts(a)
        bl, bh = max(b.lo, 0), b.hi
        lo = min(al << bh, al << bl)
        hi = max(ah << bh, ah << bl)
        w = max(width(lo, hi), width(al, ah), width(bl, bh) + 1)
        return mk(term(a, w) << term(b, w), lo, hi)
    if b < 0:
        raise ValueError("negative shift count")
    if b == 0:
        return a
    return src(mk(concat([a.e, z3.BitVecVal(0, b)]), a.lo << b, a.hi << b), 1 << b, a, 0, 0)


def i_shr(a, b):
    b = pin(b)
    if isinstance(a, int) and isinstance(b, int):
        return a >> b
    if isinstance(b, SymInt):
        if b.lo < 0 and b < 0:
            raise ValueError("negative shift count")
        _, al, ah = parts(a)
        bl, bh = max(b.lo, 0), b.hi
        c = (al >> bl, al >> bh, ah >> bl, ah >> bh)
        w = max(width(al, ah), width(b.lo, b.hi) + 1)
        return mk(term(a, w) >> term(b, w), min(c), max(c))
    if b < 0:
        raise ValueError("negative shift count")
    if b == 0:
        return a
    lo, hi = a.lo >> b, a.hi >> b
    if lo == hi:
        return lo
    e = a.e
    if z3.is_app_of(e, z3.Z3_OP_ZERO_EXT):
        inner = e.arg(0)
        if b >= inner.size():
            return 0
        return mk(z3.ZeroExt(1, extract(inner.size() - 1, b, inner)), lo, hi)
    b = min(b, e.size() - 1)
    r = fit(extract(e.size() - 1, b, e), width(lo, hi))
    if z3.is_app_of(r, z3.Z3_OP_EXTRACT):
        return from_bits(r, True)
    return mk(r, lo, hi)


def i_and(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a & b
    if isinstance(a, int):
        a, b = b, a
    _, al, ah = parts(a)
    _, bl, bh = parts(b)
    if isinstance(b, int) and b >= 0:
        if b == 0:
            return 0
        if b & (b + 1) == 0:  # low mask
            if al >= 0 and ah <= b:
                return a
            k = b.bit_length()
            w = max(a.e.size(), k)
            return from_bits(extract(k - 1, 0, fit(a.e, w)), False)
        # single contiguous field?
        k = b.bit_length()
        w = max(a.e.size(), k)
        low = (b & -b).bit_length() - 1
        if (b >> low) & ((b >> low) + 1) == 0:
            f = extract(k - 1, low, fit(a.e, w))
            return i_shl(from_bits(f, False), low)
        e = extract(k - 1, 0, fit(a.e, w)) & bvval(b, k)
        return mk(z3.ZeroExt(1, e), 0, b if al < 0 else min(b, ah))
    if al >= 0 or bl >= 0:
        hi = min(x for x, l in ((ah, al), (bh, bl)) if l >= 0)
        w = max(width(al, ah), width(bl, bh))
        return mk(term(a, w) & term(b, w), 0, hi)
    w = max(width(al, ah), width(bl, bh))
    m = 1 << (w - 1)
    return mk(term(a, w) & term(b, w), -m, max(ah, bh))


def i_or(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a | b
    if isinstance(a, int):
        a, b = b, a
    if isinstance(b, int) and b == 0:
        return a
    _, al, ah = parts(a)
    _, bl, bh = parts(b)
    w = max(width(al, ah), width(bl, bh))
    A, B = term(a, w), term(b, w)
    if al >= 0 and bl >= 0:
        j = _disjoint_or(a, b)
        hi = (1 << max(ah.bit_length(), bh.bit_length())) - 1
        lo = max(al, bl)
        if j is not None:
            return mk(fit(j, w) if j.size() != w else j, lo, hi)
        return mk(A | B, lo, hi)
    j = _disjoint_or(a, b, True)
    if j is not None:
        return from_bits(j, True)
    return mk(A | B, -(1 << (w - 1)), (1 << (w - 1)) - 1)


def _lowzeros(e):
    """(e >> k) and k when e is syntactically concat(x, 0..0)."""
    z = 0
    while z3.is_app_of(e, z3.Z3_OP_SIGN_EXT) or z3.is_app_of(e, z3.Z3_OP_ZERO_EXT):
        e = e.arg(0)
    while z3.is_app_of(e, z3.Z3_OP_CONCAT):
        last = e.arg(e.num_args() - 1)
        if z3.is_bv_value(last) and last.as_long() == 0:
            return last.size()
        return z
    return z


def _disjoint_or(a, b, neg=False):
    """Bit concat when b fits below a's trailing zeros (both non-negative)."""
    for x, y in ((a, b), (b, a)):
        if isinstance(x, SymInt):
            z = _lowzeros(x.e)
            _, yl, yh = parts(y)
            if z and yl >= 0 and yh < (1 << z):
                top = extract(x.e.size() - 1, z, x.e)
                ylow = term(y, max(width(yl, yh), z))
                ylow = extract(z - 1, 0, ylow)
                return concat([top, ylow])
    return None


def i_xor(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a ^ b
    _, al, ah = parts(a)
    _, bl, bh = parts(b)
    w = max(width(al, ah), width(bl, bh))
    A, B = term(a, w), term(b, w)
    if al >= 0 and bl >= 0:
        return mk(A ^ B, 0, (1 << max(ah.bit_length(), bh.bit_length())) - 1)
    return mk(A ^ B, -(1 << (w - 1)), (1 << (w - 1)) - 1)


def i_cmp(a, b, op):
    if isinstance(a, int) and isinstance(b, int):
        return {"lt": a < b, "le": a <= b, "gt": a > b, "ge": a >= b, "eq": a == b}[op]
    _, al, ah = parts(a)
    _, bl, bh = parts(b)
    if op == "lt":
        if ah < bl:
            return True
        if al >= bh:
            return False
    elif op == "le":
        if ah <= bl:
            return True
        if al > bh:
            return False
    elif op == "gt":
        if al > bh:
            return True
        if ah <= bl:
            return False
    elif op == "ge":
        if al >= bh:
            return True
        if ah < bl:
            return False
    else:
        if ah < bl or al > bh:
            return False
    if (isinstance(a, SymInt) and a.src is not None or
            isinstance(b, SymInt) and b.src is not None) and not NOLIN:
        d = lin_canon(a, b)
        if d is not None:
            return lin_cmp(d[0], d[1], op)
    w = max(width(al, ah), width(bl, bh))
    A, B = term(a, w), term(b, w)
    if A.eq(B):
        return op in ("le", "ge", "eq")
    if op == "lt":
        e = A < B
    elif op == "le":
        e = A <= B
    elif op == "gt":
        e = A > B
    elif op == "ge":
        e = A >= B
    else:
        from .crcmodel import REG, affine_eq
        e = affine_eq(A, B) if REG else None
        if e is None:
            e = eq_bits(A, B)
        return sbool(e)
    return SymBool(e)


def eq_bits(A, B):
    """Equality with peeling of common extensions."""
    for x, y in ((A, B), (B, A)):
        if z3.is_app_of(x, z3.Z3_OP_ZERO_EXT):
            a = x.arg(0)
            if z3.is_bv_value(y):
                v = y.as_long()
                if v >> a.size():
                    return z3.BoolVal(False)
                return a == z3.BitVecVal(v, a.size())
            if z3.is_app_of(y, z3.Z3_OP_ZERO_EXT) and y.arg(0).size() == a.size():
                if a.eq(y.arg(0)):
                    return z3.BoolVal(True)
                return a == y.arg(0)
            break
    return A == B


OPS = {
    "add": i_add, "sub": i_sub, "mul": i_mul, "floordiv": i_floordiv, "mod": i_mod,
    "lshift": i_shl, "rshift": i_shr, "and": i_and, "or": i_or, "xor": i_xor,
}


def _mkop(op, rev):
    def f(self, o):
        return self._bin(o, op, rev)
    return f


for _op in OPS:
    setattr(SymInt, f"__{_op}__", _mkop(_op, False))
    setattr(SymInt, f"__r{_op}__", _mkop(_op, True))


def i_truediv(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return a / b
    if isinstance(b, SymInt):
        if b.lo <= 0 <= b.hi and eng().branch(b.e == 0):
            raise ZeroDivisionError("division by zero")
    elif b == 0:
        raise ZeroDivisionError("division by zero")
    if isinstance(b, int) and isinstance(a, SymInt) and max(abs(a.lo), abs(a.hi)) <= 1 << 53 \
            and 0 < abs(b) <= 1 << 53:
        return SymQuot(a, b)
    for x in (a, b):
        _, l, h = parts(x)
        if max(abs(l), abs(h)) > 1 << 53:
            raise PathUnknown("true division of wide integers")
    return SymFloat.of(a) / SymFloat.of(b)


def sint(name, bits, signed=True):
    """Fresh symbolic integer of the given machine width."""
    return from_bits(z3.BitVec(name, bits), signed)


# ---- floats ----------------------------------------------------------------
def fp_const(v):
    return z3.FPVal(v, F64)


def add_(a, b):
    return z3.fpAdd(RNE, a, b)


def sub_(a, b):
    return z3.fpSub(RNE, a, b)


def mul_(a, b):
    return z3.fpMul(RNE, a, b)


def div_(a, b):
    return z3.fpDiv(RNE, a, b)


UNI_MAX = 1 << 17
import math as math_        # noqa: E402
import operator as op_      # noqa: E402


def fconst(x):
    """The plain float a SymFloat is, or None."""
    if type(x) is SymFloat and x._f is not None and z3.is_fp_value(x._f):
        b = z3.simplify(z3.fpToIEEEBV(x._f))
        if z3.is_bv_value(b):
            return bits_to_float(b.as_long())
    return None


class LazyFP(object):
    pass


def uni_op(a, b, pyop, zop):
    """Arithmetic on floats; remembers when the result is a plain function of one integer."""
    u = uni = None
    if b is None:
        u = a.uni
        if u is not None:
            g = u[1]
            uni = (u[0], lambda m: pyop(g(m)))
        r = fl(zop(a.f))
    else:
        ua, ub = a.uni, b.uni
        if ua is not None and ub is None:
            c = fconst(b)
            if c is not None:
                uni = (ua[0], lambda m: pyop(ua[1](m), c))
        elif ub is not None and ua is None:
            c = fconst(a)
            if c is not None:
                uni = (ub[0], lambda m: pyop(c, ub[1](m)))
        elif ua is not None and ub is not None and ua[0].e.eq(ub[0].e):
            uni = (ua[0], lambda m: pyop(ua[1](m), ub[1](m)))
        r = fl(zop(a.f, b.f))
    if isinstance(r, SymFloat):
        r.rng = rng_op(pyop, a, b)
    if isinstance(r, SymFloat) and uni is not None and uni[0].hi - uni[0].lo < UNI_MAX:
        r.uni = uni
    if isinstance(r, SymFloat):
        r.mono = mono_op(pyop, a, b)
    return r


def mono_of(x):
    """(kind, variable, function): the value is a function of one integer or one double that is
    monotone on each side of zero and keeps to one side of zero there."""
    if x.mono is not None:
        return x.mono
    if isinstance(x, SymFromInt):
        return ("i", x.n, float)
    if isinstance(x, SymQuot):
        return ("i", x.n, lambda m: m / x.d)
    if x.bits is not None:
        return ("f", x.bits, float)
    return None


def mono_op(pyop, a, b):
    if b is None:
        m = mono_of(a)
        return (m[0], m[1], lambda v: -m[2](v)) if m is not None and pyop is op_.neg else None
    if pyop not in (op_.mul, op_.truediv):
        return None
    ca, cb = fconst(a), fconst(b)
    if (ca is None) == (cb is None):
        return None
    c, m = (cb, mono_of(a)) if ca is None else (ca, mono_of(b))
    if m is None or c == 0 or c != c or c in (float("inf"), -float("inf")):
        return None
    g = m[2]
    if pyop is op_.mul:
        return (m[0], m[1], lambda v: g(v) * c)
    if ca is None:
        return (m[0], m[1], lambda v: g(v) / c)

    def over(v):
        d = g(v)
        if d == 0:
            # a zero denominator raises before; this keeps to the limit
            return math_.copysign(1, d) * math_.copysign(1, c) * float("inf")
        return c / d
    return (m[0], m[1], over)


def mono_cmp(x, k, op):
    """x op k for a plain k, by bisection on the variable of x."""
    m = mono_of(x)
    if m is None or k != k:
        return False if k != k else None
    kind, var, fn = m
    if kind == "i":
        halves = [(max(var.lo, 1), var.hi), (0, 0), (var.lo, min(var.hi, -1))]
        halves = [h for h in halves if h[0] <= h[1] and h[0] >= var.lo and h[1] <= var.hi]
        at = fn
    else:
        inf = 0x7ff << 52
        halves = [(0, inf), (1 << 63, (1 << 63) + inf)]

        def at(b):
            return fn(bits_to_float(b))
    out = []
    for lo, hi in halves:
        up = at(lo) <= at(hi)

        def first(pred):
            l, h = lo, hi + 1
            while l < h:
                mid = (l + h) // 2
                if pred(at(mid)):
                    h = mid
                else:
                    l = mid + 1
            return l
        # [f, l] is where the comparison holds
        if op in ("gt", "ge"):
            t = (lambda y: y > k) if op == "gt" else (lambda y: y >= k)
            f, l = (first(t), hi) if up else (lo, first(lambda y: not t(y)) - 1)
        elif op in ("lt", "le"):
            t = (lambda y: y < k) if op == "lt" else (lambda y: y <= k)
            f, l = (lo, first(lambda y: not t(y)) - 1) if up else (first(t), hi)
        elif up:
            f, l = first(lambda y: y >= k), first(lambda y: y > k) - 1
        else:
            f, l = first(lambda y: y <= k), first(lambda y: y < k) - 1
        if f > l:
            continue
        if kind == "i":
            out.append(s_and(i_cmp(var, f, "ge"), i_cmp(var, l, "le")))
        else:
            out.append(sbool(z3.And(z3.UGE(var, z3.BitVecVal(f, 64)), z3.ULE(var, z3.BitVecVal(l, 64)))))
    return s_or(*out) if out else False


def quotient(a, b):
    """a / b, with the signs of whole numbers taken out: rounding is symmetric."""
    neg = False
    def minus(x):
        return whole(-x.n)

    def whole(n):
        return SymFloat.of(lin_build(*linear(n)))
    a = whole(a.n) if isinstance(a, SymFromInt) else a
    b = whole(b.n) if isinstance(b, SymFromInt) else b
    if isinstance(a, SymFromInt) and a.n.hi < 0:
        a, neg = minus(a), not neg
    elif fconst(a) is not None and fconst(a) < 0:
        a, neg = SymFloat(fp_const(-fconst(a))), not neg
    if isinstance(b, SymFromInt) and b.n.hi < 0:
        b, neg = minus(b), not neg
    elif fconst(b) is not None and fconst(b) < 0:
        b, neg = SymFloat(fp_const(-fconst(b))), not neg
    r = uni_op(a, b, op_.truediv, div_)
    return -r if neg else r


def rng_of(x):
    """(least, greatest) value of a float that is known to be finite, or None."""
    if x.rng is not None:
        return x.rng
    c = fconst(x)
    return (c, c) if c is not None and abs(c) < 1e300 else None


def rng_op(pyop, a, b):
    """Rounding is monotone, so the corners bound the result."""
    ra = rng_of(a)
    if ra is None:
        return None
    if b is None:
        v = [pyop(x) for x in ra] + ([0.0] if pyop is abs and ra[0] < 0 < ra[1] else [])
    else:
        rb = rng_of(b)
        if rb is None or pyop is op_.truediv and rb[0] <= 0 <= rb[1]:
            return None
        v = [pyop(x, y) for x in ra for y in rb]
    lo, hi = min(v), max(v)
    return (lo, hi) if -1e300 < lo and hi < 1e300 else None


def uni_table(u):
    n, fn = u
    if n.hi - n.lo >= UNI_MAX:
        return None
    try:
        return [fn(m) for m in range(n.lo, n.hi + 1)]
    except ArithmeticError:
        return None


def runs_of(tab, base):
    """[(first, last, value)] of equal neighbours."""
    out = []
    for i, v in enumerate(tab):
        if out and out[-1][2] == v:
            out[-1][1] = base + i
        else:
            out.append([base + i, base + i, v])
    return out


def int_of_table(n, tab):
    """The integer tab[n - n.lo] as a term: a line plus a few exceptions; None if irregular."""
    import collections
    lo, hi = n.lo, n.hi
    best = None
    slopes = collections.Counter(tab[i + 1] - tab[i] for i in range(len(tab) - 1))
    cand = [s for s, _ in slopes.most_common(2)] + [0]
    if hi > lo:
        cand.append((tab[-1] - tab[0]) // (hi - lo))
    for a in cand:
        r = runs_of([v - a * (lo + i) for i, v in enumerate(tab)], lo)
        if best is None or len(r) < len(best[1]):
            best = (a, r)
    a, r = best
    if len(r) > 400:
        return periodic(n, tab)
    common = collections.Counter()
    for f, l, v in r:
        common[v] += l - f + 1
    base = common.most_common(1)[0][0]
    out = i_add(i_mul(n, a), base)
    groups = collections.defaultdict(list)
    for f, l, v in r:
        if v != base:
            groups[v - base].append((f, l))
    for dv, iv in groups.items():
        c = s_or(*[s_and(i_cmp(n, f, "ge"), i_cmp(n, l, "le")) for f, l in iv])
        c = c if isinstance(c, SymBool) else sbool(z3.BoolVal(bool(c)))
        out = i_add(out, i_mul(c._i() if isinstance(c, SymBool) else int(c), dv))
    l, h = min(tab), max(tab)
    if isinstance(out, SymInt):
        k = out.src
        out = mk(out.e, max(out.lo, l), min(out.hi, h))
        if isinstance(out, SymInt):
            if len(r) == 1:
                out.src = k
            else:
                out.uni = (n, lambda m: tab[m - lo])
    return out


def periodic(n, tab):
    """Tables that repeat with a fixed increment, such as those of n // 2."""
    lo = n.lo
    for d in range(2, 129):
        p = tab[d] - tab[0]
        if all(tab[i + d] - tab[i] == p for i in range(len(tab) - d)):
            break
    else:
        return None
    k = i_sub(n, lo)
    out = i_mul(i_floordiv(k, d), p)
    rest = i_mod(k, d)
    for f, l, v in runs_of(tab[:d], 0):
        c = s_and(i_cmp(rest, f, "ge"), i_cmp(rest, l, "le"))
        out = i_add(out, i_mul(c._i() if isinstance(c, SymBool) else int(c), v))
    if isinstance(out, SymInt):
        out = mk(out.e, max(out.lo, min(tab)), min(out.hi, max(tab)))
        if isinstance(out, SymInt):
            out.uni = (n, lambda m: tab[m - lo])
    return out


def uni_int(x, fn):
    """fn(x) for an integer valued fn, when x is a function of one integer."""
    if x.uni is None:
        return None
    n, g = x.uni
    try:
        tab = uni_table((n, lambda m: fn(g(m))))
    except (ValueError, OverflowError):
        return None
    if tab is None:
        return None
    return int_of_table(n, tab)


def uni_cmp(a, b, op):
    ua, ub = a.uni, b.uni
    fn = {"lt": op_.lt, "le": op_.le, "gt": op_.gt, "ge": op_.ge, "eq": op_.eq}[op]
    if ua is not None and ub is None:
        c = fconst(b)
        if c is None:
            return None
        n, g = ua[0], lambda m: fn(ua[1](m), c)
    elif ub is not None and ua is None:
        c = fconst(a)
        if c is None:
            return None
        n, g = ub[0], lambda m: fn(c, ub[1](m))
    elif ua is not None and ub is not None and ua[0].e.eq(ub[0].e):
        n, g = ua[0], lambda m: fn(ua[1](m), ub[1](m))
    else:
        return None
    tab = uni_table((n, g))
    if tab is None:
        return None
    r = [x for x in runs_of(tab, n.lo) if x[2]]
    if len(r) > 60:
        return None
    if not r:
        return False
    return s_or(*[s_and(i_cmp(n, f, "ge"), i_cmp(n, l, "le")) for f, l, _ in r])


class SymFloat(Sym):
    """IEEE double.  `bits` (BV64) is kept when known; `f` is built on demand.
    bits32 is set when the value is exactly a widened single."""
    __slots__ = ("_f", "bits", "bits32", "uni", "rng", "mono")

    def __init__(self, f=None, bits=None, bits32=None):
        self.mono = None
        self.uni = None      # (SymInt n, plain function): the value is fn(n)
        self.rng = None      # (least, greatest) value, then it is finite
        self._f = f
        self.bits = bits
        self.bits32 = bits32

    @property
    def f(self):
        if self._f is None:
            if self.bits32 is not None:
                self._f = z3.fpFPToFP(RNE, z3.fpBVToFP(self.bits32, F32), F64)
            elif self.bits is not None:
                self._f = z3.fpBVToFP(self.bits, F64)
            else:
                self._f = self._build()
        return self._f

    def _build(self):
        raise NotImplementedError

    @staticmethod
    def of(x):
        if isinstance(x, SymFloat):
            return x
        if isinstance(x, SymInt):
            if max(abs(x.lo), abs(x.hi)) > 1 << 53:
                # correctly rounded conversion, as CPython does
                return SymFloat(z3.fpSignedToFP(RNE, x.e, F64))
            return SymFromInt(x)
        if isinstance(x, SymBool):
            return SymFromInt(x._i())
        if isinstance(x, (int, float)):
            return SymFloat(fp_const(float(x)))
        if hasattr(x, "dtype") and not is_sym(x):
            return SymFloat(fp_const(float(x)))
        return None

    def _arith(self, o, fn, rev=False):
        if isinstance(o, NPT) or hasattr(o, "dtype"):
            from . import npmodel
            op = {"a": "add", "s": "sub", "m": "mul"}[fn.__name__[0]]
            return npmodel.binop(op, o, self) if rev else npmodel.binop(op, self, o)
        f = SymFloat.of(o)
        if f is None:
            if fn.__name__[0] == "m" and type(o).__name__ == "timedelta":
                from . import dtmodel
                return dtmodel.td_times(o, self)
            return NotImplemented
        a, b = (f, self) if rev else (self, f)
        return uni_op(a, b, {"a": op_.add, "s": op_.sub, "m": op_.mul}[fn.__name__[0]], fn)

    def __add__(self, o):
        return self._arith(o, add_)

    def __radd__(self, o):
        return self._arith(o, add_, True)

    def __sub__(self, o):
        return self._arith(o, sub_)

    def __rsub__(self, o):
        return self._arith(o, sub_, True)

    def __mul__(self, o):
        if isinstance(o, int) and not isinstance(o, bool):
            if o == 1:
                return self
            if o == -1:
                return -self
        return self._arith(o, mul_)

    def __rmul__(self, o):
        return self.__mul__(o)

    def __truediv__(self, o):
        f = SymFloat.of(o)
        if f is None:
            return NotImplemented
        self._zero_check(f)
        return quotient(self, f)

    def __rtruediv__(self, o):
        f = SymFloat.of(o)
        if f is None:
            return NotImplemented
        self._zero_check(self)
        return quotient(f, self)

    @staticmethod
    def _zero_check(d):
        z = d == 0
        if z is True or (isinstance(z, SymBool) and bool(z)):
            raise ZeroDivisionError("float division by zero")

    def __neg__(self):
        if self.bits32 is not None:
            return SymFloat(bits32=self.bits32 ^ z3.BitVecVal(1 << 31, 32))
        if self.bits is not None:
            return SymFloat(bits=self.bits ^ z3.BitVecVal(1 << 63, 64))
        if self.uni is not None:
            return uni_op(self, None, op_.neg, z3.fpNeg)
        r = fl(z3.fpNeg(self.f))
        if self.rng is not None and isinstance(r, SymFloat):
            r.rng = (-self.rng[1], -self.rng[0])
        if isinstance(r, SymFloat):
            r.mono = mono_op(op_.neg, self, None)
        return r

    def __pos__(self):
        return self

    def __abs__(self):
        if self.uni is not None:
            return uni_op(self, None, abs, z3.fpAbs)
        if self.bits is not None:
            return SymFloat(bits=self.bits & z3.BitVecVal((1 << 63) - 1, 64))
        return fl(z3.fpAbs(self.f))

    def _cmp(self, o, op):
        if isinstance(o, float) or isinstance(o, int):
            if isinstance(o, int) and abs(o) > 1 << 53:
                raise PathUnknown("float/int comparison beyond 2**53")
            if self.bits is not None and float(o) == 0.0:
                return self._cmp0(op)
        if isinstance(o, SymInt) and max(abs(o.lo), abs(o.hi)) > 1 << 53:
            raise PathUnknown("float/int comparison beyond 2**53")
        f = SymFloat.of(o)
        if f is None:
            return NotImplemented
        ra, rb = rng_of(self), rng_of(f)
        if ra is not None and rb is not None:
            if op in ("lt", "le", "eq") and ra[1] < rb[0]:
                return op != "eq"
            if op in ("gt", "ge", "eq") and ra[0] > rb[1]:
                return op != "eq"
            if op in ("gt", "ge") and (ra[1] < rb[0] or op == "gt" and ra[1] <= rb[0]):
                return False
            if op in ("lt", "le") and (ra[0] > rb[1] or op == "lt" and ra[0] >= rb[1]):
                return False
            if op == "le" and ra[1] <= rb[0] or op == "ge" and ra[0] >= rb[1]:
                return True
            if self.f.eq(f.f):
                return op not in ("lt", "gt")
        t = uni_cmp(self, f, op)
        if t is not None:
            return t
        k = fconst(f)
        if k is not None:
            t = mono_cmp(self, k, op)
            if t is not None:
                return t
        k = fconst(self)
        if k is not None:
            t = mono_cmp(f, k, {"lt": "gt", "le": "ge", "gt": "lt", "ge": "le", "eq": "eq"}[op])
            if t is not None:
                return t
        if op == "eq" and f.bits is not None and self.bits is not None:
            a, b = self.bits, f.bits
            if a.eq(b):
                return sbool(z3.Not(nan_bits(a)))
            m = z3.BitVecVal((1 << 63) - 1, 64)
            return sbool(z3.Or(z3.And(a == b, z3.Not(nan_bits(a))),
                               z3.And((a & m) == 0, (b & m) == 0)))
        a, b = self.f, f.f
        fn = {"lt": z3.fpLT, "le": z3.fpLEQ, "gt": z3.fpGT, "ge": z3.fpGEQ, "eq": z3.fpEQ}[op]
        return sbool(z3.simplify(fn(a, b)) if z3.is_fp_value(a) and z3.is_fp_value(b) else fn(a, b))

    def _cmp0(self, op):
        b = self.bits
        mag = extract(62, 0, b)
        neg = extract(63, 63, b) == 1
        zero = mag == 0
        nan = nan_bits(b)
        if op == "eq":
            return sbool(zero)
        if op == "lt":
            return sbool(z3.And(neg, z3.Not(zero), z3.Not(nan)))
        if op == "le":
            return sbool(z3.And(z3.Or(neg, zero), z3.Not(nan)))
        if op == "gt":
            return sbool(z3.And(z3.Not(neg), z3.Not(zero), z3.Not(nan)))
        return sbool(z3.And(z3.Or(z3.Not(neg), zero), z3.Not(nan)))

    def __lt__(self, o):
        return self._cmp(o, "lt")

    def __le__(self, o):
        return self._cmp(o, "le")

    def __gt__(self, o):
        return self._cmp(o, "gt")

    def __ge__(self, o):
        return self._cmp(o, "ge")

    def __eq__(self, o):
        return self._cmp(o, "eq")

    def __ne__(self, o):
        r = self._cmp(o, "eq")
        return r if r is NotImplemented else s_not(r)

    def __bool__(self):
        return bool(s_not(self == 0))

    def __hash__(self):
        return hash(self.__float__())

    def __float__(self):
        v = eng().concretise(self.to_bits())
        return bits_to_float(v.as_long())

    def to_bits(self):
        """IEEE bits (NaN payload left to z3)."""
        if self.bits is None:
            if self._f is not None or self.bits32 is None:
                e = eng()
                f = self.f
                if z3.is_fp_value(f):
                    self.bits = z3.simplify(z3.fpToIEEEBV(f))
                else:
                    self.bits = z3.fpToIEEEBV(f)
            else:
                self.bits = z3.fpToIEEEBV(self.f)
        return self.bits

    def bits_single(self):
        """BV32 of the value rounded to single precision."""
        if self.bits32 is not None:
            return self.bits32
        return z3.fpToIEEEBV(z3.fpFPToFP(RNE, self.f, F32))

    def trunc(self, w=80):
        t = uni_int(self, int)
        if t is not None:
            return t
        f = self.f
        bad = z3.Or(z3.fpIsNaN(f), z3.fpIsInf(f))
        if eng().branch(bad):
            if eng().branch(z3.fpIsNaN(f)):
                raise ValueError("cannot convert float NaN to integer")
            raise OverflowError("cannot convert float infinity to integer")
        lim = 2.0 ** 70
        ok = z3.And(z3.fpLT(f, fp_const(lim)), z3.fpGT(f, fp_const(-lim)))
        if not eng().branch(ok):
            raise PathUnknown("huge float to int")
        return mk(z3.fpToSBV(z3.RTZ(), f, z3.BitVecSort(w)), -(1 << 70), 1 << 70)

    def round_half_even(self, w=80):
        t = uni_int(self, round)
        if t is not None:
            return t
        g = SymFloat(z3.fpRoundToIntegral(RNE, self.f))
        return g.trunc(w)

    def __round__(self, nd=None):
        if nd is None:
            return self.round_half_even()
        nd = int_of(nd)
        if self.uni is not None and 0 <= nd <= 12:
            # the nearest decimal of nd digits, as the quotient it is
            import fractions
            n, g = self.uni
            def scaled(m):
                q = fractions.Fraction(round(g(m), nd)) * 10 ** nd
                return round(q)
            try:
                tab = uni_table((n, scaled))
            except (ValueError, OverflowError):
                tab = None
            if tab is not None and max(abs(tab[0]), abs(tab[-1]), max(tab), -min(tab)) < 1 << 52:
                k = int_of_table(n, tab)
                if k is not None:
                    return SymQuot(k, 10 ** nd) if isinstance(k, SymInt) else k / 10 ** nd
        return round(float(self), nd)

    def __trunc__(self):
        return self.trunc()

    def __int__(self):
        return int_of(self.trunc())

    def __floor__(self):
        t = uni_int(self, math_.floor)
        if t is not None:
            return t
        return SymFloat(z3.fpRoundToIntegral(z3.RTN(), self.f)).trunc()

    def __ceil__(self):
        t = uni_int(self, math_.ceil)
        if t is not None:
            return t
        return SymFloat(z3.fpRoundToIntegral(z3.RTP(), self.f)).trunc()

    def __floordiv__(self, o):
        return float(self) // float(o)

    def __rfloordiv__(self, o):
        return float(o) // float(self)

    def __mod__(self, o):
        return float(self) % float(o)

    def __rmod__(self, o):
        return float(o) % float(self)

    def __pow__(self, o):
        return float(self) ** float(o)

    def __rpow__(self, o):
        return float(o) ** float(self)

    def is_integer(self):
        f = self.f
        return sbool(z3.And(z3.Not(z3.fpIsInf(f)), z3.Not(z3.fpIsNaN(f)),
                            z3.fpEQ(z3.fpRoundToIntegral(z3.RTZ(), f), f)))

    def hex(self):
        return float(self).hex()

    def as_integer_ratio(self):
        return float(self).as_integer_ratio()

    @property
    def real(self):
        return self

    def __repr__(self):
        return "<SymFloat>"

    __str__ = __repr__

    def __format__(self, spec):
        return "<SymFloat>"


def nan_bits(b):
    return z3.And(extract(62, 52, b) == z3.BitVecVal(0x7FF, 11),
                  extract(51, 0, b) != z3.BitVecVal(0, 52))


def nan_bits32(b):
    return z3.And(extract(30, 23, b) == z3.BitVecVal(0xFF, 8),
                  extract(22, 0, b) != z3.BitVecVal(0, 23))


def bits_to_float(v):
    import struct
    return struct.unpack("<d", struct.pack("<Q", v))[0]


def float_to_bits(v):
    import struct
    return struct.unpack("<Q", struct.pack("<d", v))[0]


def fl(f):
    f2 = f
    if all(z3.is_fp_value(c) for c in f.children()[1:]) and f.num_args():
        f2 = z3.simplify(f)
    if z3.is_fp_value(f2):
        b = z3.simplify(z3.fpToIEEEBV(f2))
        if z3.is_bv_value(b):
            return bits_to_float(b.as_long())
    return SymFloat(f2)


class SymFromInt(SymFloat):
    """float(n) with |n| <= 2**53: exact."""
    __slots__ = ("n",)

    def __init__(self, n):
        super().__init__()
        self.n = n
        self.uni = (n, float)
        self.rng = (float(n.lo), float(n.hi))
        u = uni_of(n)
        if u is not None:
            self.uni = (u[0], lambda m: float(u[1](m)))

    def _build(self):
        return z3.fpSignedToFP(RNE, self.n.e, F64)

    def _cmp(self, o, op):
        if isinstance(o, SymFromInt):
            return i_cmp(self.n, o.n, op)
        if isinstance(o, float):
            return cmp_int_float(self.n, o, op)
        n = num(o)
        if n is not None:
            return i_cmp(self.n, n, op)
        return super()._cmp(o, op)

    def trunc(self, w=80):
        return self.n

    def __neg__(self):
        # -0.0 for n == 0 compares equal to 0.0; only the sign bit differs
        if self.n.lo > 0 or self.n.hi < 0:
            return SymFromInt(-self.n)
        return fl(z3.fpNeg(self.f))

    def _exact(self, o, op):
        m = None
        if isinstance(o, SymFromInt):
            m = o.n
        elif isinstance(o, float) and o == o and abs(o) < 1 << 53 and o == int(o) \
                and float_to_bits(o) != 1 << 63:
            m = int(o)
        else:
            m = num(o)
        if m is None:
            return None
        r = OPS[op](self.n, m)
        _, l, h = parts(r)
        if max(abs(l), abs(h)) <= 1 << 53 and not (
                op == "mul" and l <= 0 <= h and not (isinstance(m, int) and m > 0)):
            return SymFromInt(r) if isinstance(r, SymInt) else float(r)
        return None

    def __add__(self, o):
        r = self._exact(o, "add")
        return r if r is not None else super().__add__(o)

    __radd__ = __add__

    def __mul__(self, o):
        r = self._exact(o, "mul")
        return r if r is not None else super().__mul__(o)

    __rmul__ = __mul__

    def __truediv__(self, o):
        m = num(o)
        if m is None and isinstance(o, float) and o == o and 0 < abs(o) <= 1 << 53 and o == int(o):
            m = int(o)
        if isinstance(m, int) and m != 0:
            return SymQuot(self.n, m)
        return super().__truediv__(o)

    def is_integer(self):
        return True


class SymQuot(SymFloat):
    """n / d correctly rounded, d a concrete non-zero int, |n| <= 2**53."""
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        super().__init__()
        self.n = n
        self.d = d
        self.uni = (n, lambda m: m / d)
        u = uni_of(n)
        if u is not None:
            self.uni = (u[0], lambda m: u[1](m) / d)
        self.rng = tuple(sorted((n.lo / d, n.hi / d)))

    def _build(self):
        return z3.fpDiv(RNE, z3.fpSignedToFP(RNE, self.n.e, F64), fp_const(float(self.d)))

    def trunc(self, w=80):
        # exact when the quotient is small enough that rounding cannot
        # reach the next integer: |n| < 2**52
        if max(abs(self.n.lo), abs(self.n.hi)) < 1 << 52:
            n, d = self.n, self.d
            if d < 0:
                n, d = -n, -d
            if n.lo >= 0:
                return n // d
            q = abs(n) // d
            _, ql, qh = parts(q)
            W = width(-qh, qh)
            t = term(q, W)
            return mk(z3.If(n.e < 0, -t, t), -qh, qh)
        return super().trunc(w)

    def __floor__(self):
        if max(abs(self.n.lo), abs(self.n.hi)) < 1 << 52:
            return self.n // self.d
        return super().__floor__()

    def _cmp(self, o, op):
        if isinstance(o, (int, float)) and not isinstance(o, bool) and o == o:
            # monotone in n: find thresholds concretely
            n, d = self.n, self.d
            sgn = 1 if d > 0 else -1
            c = o

            def first(pred):
                # smallest m in [lo, hi+1] (in sgn*n order) with pred(m) true; pred monotone
                lo, hi = (n.lo, n.hi) if sgn > 0 else (-n.hi, -n.lo)
                lo0, hi0 = lo, hi + 1
                while lo0 < hi0:
                    mid = (lo0 + hi0) // 2
                    if pred((mid * sgn) / d):
                        hi0 = mid
                    else:
                        lo0 = mid + 1
                return lo0
            m = n if sgn > 0 else -n
            ge = first(lambda q: q >= c)
            gt = first(lambda q: q > c)
            if op == "lt":
                return m < ge
            if op == "le":
                return m < gt
            if op == "gt":
                return m >= gt
            if op == "ge":
                return m >= ge
            return s_and(m >= ge, m < gt)
        return super()._cmp(o, op)


class SymIte(SymFloat):
    """One of two floats: comparisons are those of the two."""
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        super().__init__()
        self.c, self.a, self.b = c, a, b
        ra, rb = rng_of(a), rng_of(b)
        if ra is not None and rb is not None:
            self.rng = (min(ra[0], rb[0]), max(ra[1], rb[1]))

    def _build(self):
        return z3.If(self.c, self.a.f, self.b.f)

    def _cmp(self, o, op):
        if isinstance(o, (int, float)) and abs(o) <= 1 << 53 or isinstance(o, SymFloat) and fconst(o) is not None:
            A, B = self.a._cmp(o, op), self.b._cmp(o, op)
            return merge_values(self.c, A, B)
        return super()._cmp(o, op)


def cmp_int_float(n, c, op):
    """Exact comparison of a SymInt with a concrete float."""
    import math
    if c != c:
        return False
    if c in (math.inf, -math.inf):
        if op == "eq":
            return False
        return (op in ("lt", "le")) == (c > 0)
    fc = math.floor(c)
    whole = fc == c
    if op == "eq":
        return i_cmp(n, fc, "eq") if whole else False
    if op == "lt":
        return i_cmp(n, fc, "lt" if whole else "le")
    if op == "le":
        return i_cmp(n, fc, "le")
    if op == "gt":
        return i_cmp(n, fc, "gt")
    return i_cmp(n, fc, "ge" if whole else "gt")


# ---- merging -------------------------------------------------------------
def merge_key(v):
    """Values with equal keys can be joined by an ite."""
    if isinstance(v, (bool, SymBool)):
        return "bool"
    if isinstance(v, (int, SymInt)):
        return "int"
    if isinstance(v, (float, SymFloat)):
        return "float"
    k = getattr(v, "_sx_merge_key", None)
    if k is not None and not isinstance(v, type):
        kk = k()
        if kk is not None:
            return kk
    if isinstance(v, tuple):
        return ("tuple",) + tuple(merge_key(x) for x in v)
    if isinstance(v, (str, bytes, type(None))):
        return ("const", v)
    if type(v).__module__ == "numpy" and hasattr(v, "dtype") and v.shape == ():
        return ("np", str(v.dtype))
    return ("id", id(v))


def ite_int(c, a, b):
    if isinstance(a, int) and isinstance(b, int) and a == b:
        return a
    _, al, ah = parts(a)
    _, bl, bh = parts(b)
    lo, hi = min(al, bl), max(ah, bh)
    s = _signed_view(c, a, b)
    if s is None:
        s = _signed_view(z3.Not(c), b, a)
    if s is not None:
        return s
    w = width(lo, hi)
    A, B = term(a, w), term(b, w)
    if A.eq(B):
        return a
    return mk(z3.If(c, A, B), lo, hi)


_SV = {}


def _signed_view(c, a, b):
    """v - 2^w if v >= 2^(w-1) else v  is the two's complement reading of v's w bits."""
    if not (isinstance(a, SymInt) and isinstance(b, SymInt) and b.lo >= 0):
        return None
    w = b.hi.bit_length()
    if w < 2 or a.lo != b.lo - (1 << w) or a.e.num_args() != 2 \
            or not z3.is_app_of(a.e, z3.Z3_OP_BSUB) and not z3.is_app_of(a.e, z3.Z3_OP_BADD):
        return None
    aw = a.e.size()
    if not a.e.arg(0).eq(fit(b.e, aw)) or not z3.is_bv_value(a.e.arg(1)):
        return None
    inner = b.e.arg(0) if z3.is_app_of(b.e, z3.Z3_OP_ZERO_EXT) else None
    if inner is None or inner.size() != w:
        return None
    v = z3.BitVec("!sv", w)
    cc = z3.substitute(c, (inner, v))
    k = (cc.get_id(), w)
    if k not in _SV:
        q = z3.Solver()
        q.set("timeout", 500)
        q.add(cc != (z3.Extract(w - 1, w - 1, v) == 1))
        _SV[k] = (cc, q.check() == z3.unsat)
    if not _SV[k][1] and not _top_bit(c, extract(w - 1, w - 1, inner)):
        return None
    return from_bits(inner, True)


def _top_bit(c, t):
    """c says that the one bit term t is set."""
    u = z3.BitVec("!sb", 1)
    cc = z3.substitute(c, (t, u))
    k = (cc.get_id(), 1)
    if k not in _SV:
        q = z3.Solver()
        q.set("timeout", 500)
        q.add(cc != (u == 1))
        _SV[k] = (cc, q.check() == z3.unsat)
    return _SV[k][1]


def merge_values(c, a, b):
    """ite(c, a, b) for values of equal merge_key."""
    if a is b:
        return a
    if isinstance(a, (bool, SymBool)):
        if isinstance(a, bool) and isinstance(b, bool) and a == b:
            return a
        A, B = as_bool_term(a), as_bool_term(b)
        if A.eq(B):
            return a
        if isinstance(a, bool):
            return sbool(z3.Or(c, B) if a else z3.And(z3.Not(c), B))
        if isinstance(b, bool):
            return sbool(z3.Or(z3.Not(c), A) if b else z3.And(c, A))
        return sbool(z3.If(c, A, B))
    if isinstance(a, (int, SymInt)):
        return ite_int(c, a, b)
    if isinstance(a, (float, SymFloat)):
        if isinstance(a, float) and isinstance(b, float) and float_to_bits(a) == float_to_bits(b):
            return a
        A, B = SymFloat.of(a), SymFloat.of(b)
        if A.bits is not None and B.bits is not None:
            return SymFloat(bits=z3.If(c, A.bits, B.bits))
        if mono_of(A) is not None or mono_of(B) is not None:
            return SymIte(c, A, B)
        return SymFloat(z3.If(c, A.f, B.f))
    m = getattr(a, "_sx_merge", None)
    if m is None:
        m2 = getattr(b, "_sx_merge", None)
        if m2 is not None:
            return m2(z3.Not(c), a)
    else:
        return m(c, b)
    if isinstance(a, tuple):
        return tuple(merge_values(c, x, y) for x, y in zip(a, b))
    if isinstance(a, (str, bytes, type(None))):
        return a
    if type(a).__module__ == "numpy":
        from .npmodel import np_scalar
        import numpy as np
        return np_scalar(merge_values(c, a.item(), b.item()), a.dtype)
    return a
