"""datetime / timedelta with symbolic components (proleptic Gregorian, exact)."""
import datetime as _dt
import re
import z3

from .core import eng, PathUnknown
from .values import (Sym, SymInt, SymBool, SymFloat, is_sym, num, s_and, s_or, s_not, ite_int,
                     int_of, i_cmp, sbool, as_bool_term, lin_diff, mk, term, width)
from .seqs import SymStr, chars_of, mkstr, in_ranges, conc, digits, narrow

US_DAY = 86400 * 10 ** 6
MAXORD = _dt.date.max.toordinal()
RealDT, RealTD, RealTZ = _dt.datetime, _dt.timedelta, _dt.timezone
CUM = [0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334]


def b_term(x):
    return as_bool_term(x)


def ite(c, a, b):
    if isinstance(c, bool):
        return a if c else b
    return ite_int(c.e, a, b)


def leap(y):
    if isinstance(y, int):
        return y % 4 == 0 and (y % 100 != 0 or y % 400 == 0)
    return s_and((y % 4) == 0, s_or((y % 100) != 0, (y % 400) == 0))


def ylen(y):
    return ite(leap(y), 366, 365)


def days_before(y):
    p = y - 1
    return p * 365 + p // 4 - p // 100 + p // 400


def as_i(x, what="integer"):
    if isinstance(x, bool):
        return int(x)
    if isinstance(x, SymBool):
        return x._i()
    if isinstance(x, (int, SymInt)):
        return x
    if hasattr(x, "as_int") and not hasattr(x, "as_float_only"):
        return x.as_int()
    if hasattr(x, "__index__"):
        return x.__index__()
    if isinstance(x, (float, SymFloat)):
        raise TypeError("'float' object cannot be interpreted as an integer")
    raise TypeError(f"an integer is required")


def rng(x, lo, hi, msg):
    if isinstance(x, int):
        ok = lo <= x <= hi
    else:
        ok = s_and(x >= lo, x <= hi)
    if not ok:
        raise ValueError(msg)
    return narrow(x, lo, hi) if isinstance(x, SymInt) else x


class SymTimedelta(Sym):
    _sx_type = RealTD
    __slots__ = ("us",)

    def __init__(self, us):
        self.us = us

    @property
    def days(self):
        return self.us // US_DAY

    @property
    def seconds(self):
        return (self.us % US_DAY) // 10 ** 6

    @property
    def microseconds(self):
        return self.us % 10 ** 6

    def total_seconds(self):
        return self.us / 10 ** 6

    def __add__(self, o):
        if isinstance(o, (RealTD, SymTimedelta)):
            return mktd(self.us + td_us(o))
        if isinstance(o, (RealDT, SymDatetime)):
            return dt_add(o, self)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (RealTD, SymTimedelta)):
            return mktd(self.us - td_us(o))
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, RealTD):
            return mktd(td_us(o) - self.us)
        if isinstance(o, RealDT):
            return dt_add(o, -self)
        return NotImplemented

    def __neg__(self):
        return mktd(-self.us)

    def __pos__(self):
        return self

    def __abs__(self):
        return mktd(abs(self.us))

    def __mul__(self, o):
        n = num(o)
        if n is None and hasattr(o, "as_int") and hasattr(o, "dtype"):
            n = o.as_int()
        if n is None:
            if isinstance(o, (float, SymFloat)):
                return td_times(self, o)
            return NotImplemented
        return mktd(self.us * n)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        if isinstance(o, (RealTD, SymTimedelta)):
            return self.us // td_us(o)
        return mktd(self.us // o)

    def __truediv__(self, o):
        if isinstance(o, (RealTD, SymTimedelta)):
            return self.us / td_us(o)
        if isinstance(o, int) and not isinstance(o, bool) and o:
            return mktd(half_even(self.us, o))
        raise PathUnknown("timedelta / number")

    def __rtruediv__(self, o):
        if isinstance(o, RealTD):
            return td_us(o) / self.us
        return NotImplemented

    def __rfloordiv__(self, o):
        if isinstance(o, RealTD):
            return td_us(o) // self.us
        return NotImplemented

    def __mod__(self, o):
        return mktd(self.us % td_us(o))

    def _c(self, o, op):
        if not isinstance(o, (RealTD, SymTimedelta)):
            if op in ("eq", "ne"):
                return NotImplemented
            raise TypeError("cannot compare timedelta")
        return i_cmp(self.us, td_us(o), op)

    def __lt__(self, o):
        return self._c(o, "lt")

    def __le__(self, o):
        return self._c(o, "le")

    def __gt__(self, o):
        return self._c(o, "gt")

    def __ge__(self, o):
        return self._c(o, "ge")

    def __eq__(self, o):
        return self._c(o, "eq")

    def __ne__(self, o):
        r = self._c(o, "eq")
        return r if r is NotImplemented else s_not(r)

    def __bool__(self):
        return bool(self.us != 0)

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        return RealTD(microseconds=int_of(self.us))

    def _sx_merge_key(self):
        return "timedelta"

    def _sx_merge(self, c, o):
        return SymTimedelta(ite_int(c, self.us, td_us(o)))

    def _sx_format(self, spec):
        return format(self.concrete(), spec)


def half_even(a, b):
    """a / b rounded to an integer, ties to even; b a plain integer."""
    if b < 0:
        a, b = -a, -b
    q, r = a // b, a % b
    up = s_or(2 * r > b, s_and(2 * r == b, q % 2 == 1))
    return q + (up._i() if hasattr(up, "_i") else int(up))


def td_times(t, x):
    """A duration times a number."""
    if isinstance(x, SymInt):
        return mktd(td_us(t) * x)
    if isinstance(x, SymFloat) and type(x).__name__ == "SymFromInt":
        return mktd(td_us(t) * x.n)
    us = td_us(t)
    if isinstance(x, float):
        n, d = x.as_integer_ratio()
        if d < 1 << 30:
            return mktd(half_even(us * n, d))
    elif isinstance(us, int) and x.uni is not None:
        from .values import uni_int
        import fractions
        r = uni_int(x, lambda v: round(fractions.Fraction(v) * us))
        if r is not None:
            return mktd(r)
    raise PathUnknown("timedelta * float")


def mktd(us):
    if isinstance(us, int):
        return RealTD(microseconds=us)
    lim = 999999999 * US_DAY + US_DAY - 1
    if us.lo < -999999999 * US_DAY or us.hi > lim:
        if s_or(us < -999999999 * US_DAY, us > lim):
            raise OverflowError("days; must have magnitude <= 999999999")
    return SymTimedelta(us)


class LazyTimedelta(SymTimedelta):
    """A duration that is worked out when it is looked at."""
    __slots__ = ("_make", "_us")

    def __init__(self, make):
        self._make = make
        self._us = None

    @property
    def us(self):
        if self._us is None:
            self._us = td_us(self._make())
        return self._us


def td_us(t):
    if isinstance(t, SymTimedelta):
        return t.us
    return (t.days * 86400 + t.seconds) * 10 ** 6 + t.microseconds


UNIT = dict(days=US_DAY, seconds=10 ** 6, microseconds=1, milliseconds=1000, minutes=60 * 10 ** 6,
            hours=3600 * 10 ** 6, weeks=7 * US_DAY)


def h_timedelta(*a, **k):
    from .values import rng_of
    if not a and len(k) == 1:
        (unit, v), = k.items()
        r = rng_of(v) if isinstance(v, SymFloat) else None
        if r is not None and max(abs(r[0]), abs(r[1])) * UNIT[unit] < 1e19:
            return LazyTimedelta(lambda: make_timedelta(**k))
    return make_timedelta(*a, **k)


def make_timedelta(days=0, seconds=0, microseconds=0, milliseconds=0, minutes=0, hours=0, weeks=0):
    total = 0
    left = 0.0
    args = dict(days=days, seconds=seconds, microseconds=microseconds, milliseconds=milliseconds,
                minutes=minutes, hours=hours, weeks=weeks)
    fl_ = [k for k, v in args.items() if isinstance(v, SymFloat)]
    rest = [k for k, v in args.items() if k not in fl_ and not (isinstance(v, int) and v == 0)]
    if len(fl_) == 1 and not rest:
        t = td_table(fl_[0], args[fl_[0]])
        if t is not None:
            return mktd(t)
    for v, f in ((microseconds, 1), (milliseconds, 1000), (seconds, 10 ** 6),
                 (minutes, 60 * 10 ** 6), (hours, 3600 * 10 ** 6), (days, US_DAY),
                 (weeks, 7 * US_DAY)):
        if hasattr(v, "dtype"):
            if is_sym(v):
                v = v.as_float() if v.dtype.kind == "f" else v.as_int()
            elif isinstance(v, float):
                v = float(v)
        if isinstance(v, (int, SymInt, SymBool)):
            total = total + as_i(v) * f
        elif isinstance(v, float):
            import math
            if v != v or v in (math.inf, -math.inf):
                RealTD(seconds=v)
            fr, ip = math.modf(v)
            total = total + int(ip) * f
            if fr:
                fr2, ip2 = math.modf(float(f) * fr)
                total = total + int(ip2)
                left = left + fr2
        elif isinstance(v, SymFloat):
            exact = td_exact(v, f)
            if exact is not None:
                w, l = exact
                total = total + w
                if l is not None:
                    left = left + l
                continue
            ip = v.trunc()
            total = total + ip * f
            fr = v - SymFloat.of(ip)
            if bool(fr == 0.0):
                continue
            d = fr * float(f)
            ip2 = d.trunc()
            total = total + ip2
            left = left + (d - SymFloat.of(ip2))
        else:
            raise TypeError("unsupported type for timedelta component")
    if isinstance(left, SymFloat) or left:
        # round half to even on the sum total + left, |left| < a few
        if isinstance(left, float):
            whole = round_half_away(left)
            if abs(whole - left) == 0.5:
                odd = total % 2
                # round half even relative to the parity of total
                if isinstance(odd, int):
                    whole = int(2.0 * round_half_away((left + odd) * 0.5) - odd)
                else:
                    a = int(2.0 * round_half_away((left + 0) * 0.5))
                    b = int(2.0 * round_half_away((left + 1) * 0.5) - 1)
                    whole = ite(odd == 0, a, b)
            total = total + whole
        else:
            w = SymFloat(z3.fpRoundToIntegral(z3.RNA(), left.f))
            wi = w.trunc()
            if bool(abs(w - left) == 0.5):
                odd = total % 2
                oddf = SymFloat.of(odd)
                g = (left + oddf) * 0.5
                g = SymFloat(z3.fpRoundToIntegral(z3.RNA(), g.f))
                wi = g.trunc() * 2 - odd
            total = total + wi
    return mktd(total)


def td_table(unit, x):
    """Exact microseconds of timedelta(unit=x) when x is a function of one integer."""
    from .values import uni_int, SymFromInt
    if isinstance(x, SymFromInt) or x.uni is None:
        return None
    us1 = RealTD(microseconds=1)
    return uni_int(x, lambda v: RealTD(**{unit: v}) // us1)


def td_exact(v, f):
    """(whole microseconds, leftover) of an exactly known quotient, or None."""
    from .values import SymFromInt, SymQuot
    if isinstance(v, SymFromInt):
        return v.n * f, None
    return None


def round_half_away(x):
    import math
    return int(math.floor(abs(x) + 0.5)) * (1 if x >= 0 else -1)


class TimeTuple(Sym):
    def __init__(self, **k):
        self.__dict__.update(k)


class SymDatetime(Sym):
    """year, 0-based day of year (may be un-normalised), microsecond of day."""
    _sx_type = RealDT

    def __init__(self, y, doy, us, tz, normal):
        self._y, self._d, self._us, self.tzinfo = y, doy, us, tz
        self._normal = normal
        self._ord = None
        # a year and the exact microseconds from its start (not normalised)
        self._base = (y, doy * US_DAY + us)
        self.fold = 0

    # -- canonical components
    def _norm(self):
        if self._normal:
            return
        y, d = self._y, self._d
        for i in range(420):
            n = ylen(y)
            if isinstance(d, int) and d < 0 or isinstance(d, SymInt) and d.lo < 0 and bool(d < 0):
                y = y - 1
                d = d + ylen(y)
                continue
            c = d < n
            if c if isinstance(c, bool) else bool(c):
                break
            d = d - n
            y = y + 1
        else:
            raise PathUnknown("date normalisation limit")
        self._y = narrow(y, 1, 9999) if isinstance(y, SymInt) else y
        self._d = narrow(d, 0, 365) if isinstance(d, SymInt) else d
        self._normal = True

    @property
    def ordinal(self):
        if self._ord is None:
            self._ord = days_before(self._y) + self._d + 1
        return self._ord

    @property
    def year(self):
        self._norm()
        return self._y

    @property
    def _doy(self):
        self._norm()
        return self._d

    def _md(self):
        self._norm()
        lp = leap(self._y)
        l = ite(lp, 1, 0)
        m, start = 1, 0
        for i in range(1, 12):
            c0 = CUM[i] + (l if i >= 2 else 0)
            c = self._d >= c0
            m = ite(c, i + 1, m) if not isinstance(c, bool) else (i + 1 if c else m)
            start = ite(c, c0, start) if not isinstance(c, bool) else (c0 if c else start)
        d = self._d - start + 1
        return m, narrow(d, 1, 31) if isinstance(d, SymInt) else d

    @property
    def month(self):
        return self._md()[0]

    @property
    def day(self):
        return self._md()[1]

    @property
    def hour(self):
        return self._us // (3600 * 10 ** 6)

    @property
    def minute(self):
        return (self._us // (60 * 10 ** 6)) % 60

    @property
    def second(self):
        return (self._us // 10 ** 6) % 60

    @property
    def microsecond(self):
        return self._us % 10 ** 6

    def timetuple(self):
        m, d = self._md()
        return TimeTuple(tm_year=self.year, tm_mon=m, tm_mday=d, tm_hour=self.hour,
                         tm_min=self.minute, tm_sec=self.second, tm_yday=self._doy + 1,
                         tm_wday=(self.ordinal + 6) % 7, tm_isdst=-1)

    def utctimetuple(self):
        return self.astimezone(RealTZ.utc).timetuple()

    def toordinal(self):
        return self.ordinal

    def weekday(self):
        return (self.ordinal + 6) % 7

    def utcoffset(self):
        return self.tzinfo.utcoffset(None) if self.tzinfo else None

    def tzname(self):
        return self.tzinfo.tzname(None) if self.tzinfo else None

    def _abs_us(self):
        off = td_us(self.tzinfo.utcoffset(None)) if self.tzinfo else 0
        return self.ordinal * US_DAY + self._us - off

    def timestamp(self):
        if self.tzinfo is None:
            raise PathUnknown("naive timestamp")
        return (self._abs_us() - RealDT(1970, 1, 1).toordinal() * US_DAY) / 10 ** 6

    def replace(self, year=None, month=None, day=None, hour=None, minute=None, second=None,
                microsecond=None, tzinfo=True, *, fold=None):
        tz = self.tzinfo if tzinfo is True else tzinfo
        if year is None and month is None and day is None:
            us = self._us
            if not (hour is None and minute is None and second is None and microsecond is None):
                h = self.hour if hour is None else rng(as_i(hour), 0, 23, "hour must be in 0..23")
                mi = self.minute if minute is None else rng(as_i(minute), 0, 59, "minute must be in 0..59")
                s = self.second if second is None else rng(as_i(second), 0, 59, "second must be in 0..59")
                u = self.microsecond if microsecond is None else rng(
                    as_i(microsecond), 0, 999999, "microsecond must be in 0..999999")
                us = ((h * 60 + mi) * 60 + s) * 10 ** 6 + u
            r = SymDatetime(self._y, self._d, us, tz, self._normal)
            r._ord = self._ord
            if us is self._us:
                r._base = self._base
            return r
        return h_datetime(*[a if a is not None else b for a, b in (
            (year, self.year), (month, self.month), (day, self.day), (hour, self.hour),
            (minute, self.minute), (second, self.second), (microsecond, self.microsecond))],
            tzinfo=tz)

    def astimezone(self, tz=None):
        if tz is None or self.tzinfo is None:
            raise PathUnknown("local time zone")
        a = td_us(self.tzinfo.utcoffset(None))
        b = td_us(tz.utcoffset(None))
        if a == b:
            return self.replace(tzinfo=tz)
        return dt_add(self, RealTD(microseconds=b - a)).replace(tzinfo=tz)

    def isoformat(self, sep="T", timespec="auto"):
        if timespec == "auto":
            return SymStr(parts=[(self, None, "\0iso" + sep)])
        return conc(self).isoformat(sep, timespec)

    def _iso(self, sep):
        m, d = self._md()

        def two(v, n=2):
            return digits(v, 10, n)
        out = two(self.year, 4) + [45] + two(m) + [45] + two(d) + [ord(sep)] + two(self.hour) + \
            [58] + two(self.minute) + [58] + two(self.second)
        u = self.microsecond
        if u != 0:
            out += [46] + two(u, 6)
        if self.tzinfo is not None:
            off = self.tzinfo.utcoffset(None)
            out += [ord(c) for c in RealDT(2000, 1, 1, tzinfo=self.tzinfo).isoformat()[19:]]
        return mkstr(out)

    def _sx_format(self, spec):
        if spec.startswith("\0iso"):
            return self._iso(spec[4:])
        if spec == "":
            return self._iso(" ")
        return self.strftime(spec)

    def _sx_str(self):
        return self.isoformat(" ")

    def strftime(self, fmt):
        out = []
        i = 0
        m, d = self._md()
        while i < len(fmt):
            if fmt[i] != "%":
                out.append(ord(fmt[i]))
                i += 1
                continue
            c = fmt[i + 1]
            i += 2
            if c == "Y":
                out += digits(self.year, 10, 0)
            elif c == "j":
                out += digits(self._doy + 1, 10, 3)
            elif c == "f":
                out += digits(self.microsecond, 10, 6)
            elif c == "%":
                out.append(37)
            elif c in "mdHMS":
                out += digits({"m": m, "d": d, "H": self.hour, "M": self.minute,
                               "S": self.second}[c], 10, 2)
            else:
                return self.concrete().strftime(fmt)
        return mkstr(out)

    def date(self):
        return self.concrete().date()

    def __add__(self, o):
        if isinstance(o, (RealTD, SymTimedelta)):
            return dt_add(self, o)
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, (RealTD, SymTimedelta)):
            return dt_add(self, -o)
        if isinstance(o, (RealDT, SymDatetime)):
            return dt_sub(self, o)
        return NotImplemented

    def __rsub__(self, o):
        if isinstance(o, RealDT):
            return dt_sub(o, self)
        return NotImplemented

    def _c(self, o, op):
        if not isinstance(o, (RealDT, SymDatetime)):
            if op == "eq":
                return False
            raise TypeError("can't compare datetime to " + type(o).__name__)
        o = lift(o)
        if (self.tzinfo is None) != (o.tzinfo is None):
            if op == "eq":
                return False
            raise TypeError("can't compare offset-naive and offset-aware datetimes")
        za = self.utcoffset() or RealTD(0)
        zb = o.utcoffset() or RealTD(0)
        r = related(self, o)
        if r is not None:
            return i_cmp(r, 0, op)
        if za == zb:
            self._norm()
            o._norm()
            d = lin_diff(self._d * US_DAY + self._us, o._d * US_DAY + o._us)
            if same(self._y, o._y):
                return i_cmp(d, 0, op)
            if op == "eq":
                return s_and(self._y == o._y, self._d == o._d, self._us == o._us)
            return s_or(i_cmp(self._y, o._y, op[0] + "t"),
                        s_and(self._y == o._y, i_cmp(d, 0, op)))
        return i_cmp(lin_diff(self._abs_us(), o._abs_us()), 0, op)

    def __lt__(self, o):
        return self._c(o, "lt")

    def __le__(self, o):
        return self._c(o, "le")

    def __gt__(self, o):
        return self._c(o, "gt")

    def __ge__(self, o):
        return self._c(o, "ge")

    def __eq__(self, o):
        return self._c(o, "eq")

    def __ne__(self, o):
        return s_not(self._c(o, "eq"))

    def __hash__(self):
        return hash(self.concrete())

    def concrete(self):
        self._norm()
        y, d, us = int_of(self._y), int_of(self._d), int_of(self._us)
        return RealDT(y, 1, 1, tzinfo=self.tzinfo) + RealTD(days=d, microseconds=us)

    def __repr__(self):
        return "<SymDatetime>"


SymDatetime.__name__ = "datetime"
SymTimedelta.__name__ = "timedelta"


def same(a, b):
    if isinstance(a, int) or isinstance(b, int):
        return isinstance(a, int) and isinstance(b, int) and a == b
    if a.e.eq(b.e):
        return True
    d = lin_diff(a, b)
    return isinstance(d, int) and d == 0


def lift(d):
    if isinstance(d, SymDatetime):
        return d
    us = ((d.hour * 60 + d.minute) * 60 + d.second) * 10 ** 6 + d.microsecond
    return SymDatetime(d.year, d.timetuple().tm_yday - 1, us, d.tzinfo, True)


def lower(r):
    """Plain datetime when nothing symbolic is left."""
    if all(isinstance(x, int) for x in (r._y, r._d, r._us)):
        return RealDT(r._y, 1, 1, tzinfo=r.tzinfo) + RealTD(days=r._d, microseconds=r._us)
    return r


def dt_add(d, t):
    d = lift(d)
    us = d._us + td_us(t)
    carry = us // US_DAY
    us = us % US_DAY
    if isinstance(us, SymInt):
        us = narrow(us, 0, US_DAY - 1)
    doy = d._d + carry
    normal = d._normal and isinstance(carry, int) and carry == 0
    r = SymDatetime(d._y, doy, us, d.tzinfo, normal)
    r._base = (d._base[0], d._base[1] + td_us(t))
    if not normal:
        _, dl, dh = bounds(doy)
        _, yl, yh = bounds(d._y)
        if yl * 365 - 366 + dl < 1 or yh * 366 + dh > MAXORD - 400:
            o = r.ordinal
            if s_or(o < 1, o > MAXORD):
                raise OverflowError("date value out of range")
    return lower(r)


def bounds(x):
    return (x, x, x) if isinstance(x, int) else (x, x.lo, x.hi)


def dt_sub(a, b):
    a, b = lift(a), lift(b)
    if (a.tzinfo is None) != (b.tzinfo is None):
        raise TypeError("can't subtract offset-naive and offset-aware datetimes")
    za = a.utcoffset() or RealTD(0)
    zb = b.utcoffset() or RealTD(0)
    r = related(a, b)
    if r is not None:
        return mktd(r)
    if za == zb:
        a._norm()
        b._norm()
    if za == zb and same(a._y, b._y):
        return mktd(lin_diff(a._d * US_DAY + a._us, b._d * US_DAY + b._us))
    return mktd(lin_diff(a._abs_us(), b._abs_us()))


def related(a, b):
    """a - b in microseconds when both were computed from the same year."""
    if a.tzinfo is not b.tzinfo:
        return None
    (ya, ta), (yb, tb) = a._base, b._base
    if isinstance(ya, int) and isinstance(yb, int):
        return lin_diff(ta, tb) + (days_before(ya) - days_before(yb)) * US_DAY
    if same(ya, yb):
        return lin_diff(ta, tb)
    return None


def h_datetime(year, month=None, day=None, hour=0, minute=0, second=0, microsecond=0,
               tzinfo=None, *, fold=0):
    if month is None or day is None:
        raise TypeError("function missing required argument")
    y, m, d = as_i(year), as_i(month), as_i(day)
    h, mi, s, u = as_i(hour), as_i(minute), as_i(second), as_i(microsecond)
    y = rng(y, 1, 9999, "year is out of range")
    m = rng(m, 1, 12, "month must be in 1..12")
    lp = None
    if isinstance(m, int) and isinstance(d, int) and m == 1:
        doy = d - 1
        rng(d, 1, 31, "day is out of range for month")
    else:
        l = ite(leap(y), 1, 0)
        start, nd = 0, 31
        days = [31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31]
        for i in range(1, 12):
            c = (m == i + 1)
            start = ite(c, CUM[i] + (l if i >= 2 else 0), start)
            nd = ite(c, days[i] + (l if i == 1 else 0), nd)
        ok = s_and(d >= 1, d <= nd)
        if not ok:
            raise ValueError("day is out of range for month")
        if isinstance(d, SymInt):
            d = narrow(d, 1, 31)
        doy = start + d - 1
        if isinstance(doy, SymInt):
            doy = narrow(doy, 0, 365)
    h = rng(h, 0, 23, "hour must be in 0..23")
    mi = rng(mi, 0, 59, "minute must be in 0..59")
    s = rng(s, 0, 59, "second must be in 0..59")
    u = rng(u, 0, 999999, "microsecond must be in 0..999999")
    us = ((h * 60 + mi) * 60 + s) * 10 ** 6 + u
    return lower(SymDatetime(y, doy, us, tzinfo, True))


ISO = re.compile(r"^DDDD-DD-DD(?:(.)DD:DD(?::DD(?:[.,](D+))?)?(Z|[+-]\d\d:?\d\d)?)?$")


def h_fromisoformat(s):
    if not is_sym(s):
        return RealDT.fromisoformat(s)
    cs = chars_of(s)
    sep_ok = all(isinstance(c, int) or
                 bool(in_ranges(c, ((48, 57),))) for c in cs)
    if not sep_ok:
        return RealDT.fromisoformat(conc(s))
    # the tail (zone) must be concrete; the digits may be symbolic
    cut = len(cs)
    for i in range(len(cs)):
        if i > 10 and isinstance(cs[i], int) and cs[i] in (43, 45, 90):
            cut = i
            break
    tail = cs[cut:]
    if any(not isinstance(c, int) for c in tail):
        return RealDT.fromisoformat(conc(s))
    shape = "".join("D" if (not isinstance(c, int) or 48 <= c <= 57) else chr(c)
                    for c in cs[:cut]) + "".join(map(chr, tail))
    m = ISO.match(shape)
    if not m:
        return RealDT.fromisoformat(conc(s))

    def val(i, n):
        v = 0
        for c in cs[i:i + n]:
            v = v * 10 + ((narrow(c, 48, 57) if isinstance(c, SymInt) else c) - 48)
        return v
    y, mo, d = val(0, 4), val(5, 2), val(8, 2)
    h = mi = se = us = 0
    body = cs[:cut]
    if len(body) > 10:
        h, mi = val(11, 2), val(14, 2)
        if len(body) > 16:
            se = val(17, 2)
        if m.group(2):
            n = min(6, len(m.group(2)))
            us = val(20, n) * 10 ** (6 - n)
    tz = None
    if tail:
        tz = RealDT.fromisoformat("2000-01-01T00:00:00" + "".join(map(chr, tail))).tzinfo
    return h_datetime(y, mo, d, h, mi, se, us, tz)


FIXED_NOW = RealDT(2024, 2, 3, 4, 5, 6, 789000)


def install(H, S, C, M):
    S[RealDT] = h_datetime
    S[RealTD] = h_timedelta
    C[(RealDT, "fromisoformat")] = h_fromisoformat
    C[(RealDT, "utcnow")] = lambda: FIXED_NOW
    C[(RealDT, "now")] = lambda tz=None: FIXED_NOW.replace(tzinfo=tz)
