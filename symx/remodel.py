"""Regular expressions over text with symbolic characters."""
import re
import re._parser as sp
import re._constants as sc

from .core import eng
from .values import Sym, SymInt, is_sym, s_and, s_or, s_not, i_cmp, sbool
from .seqs import (SymStr, SymBytes, chars_of, mkstr, in_ranges, char_ranges, conc, elem_val,
                   elems_of, c_eq)


class Unsupported(Exception):
    pass


ASCII_CAT = {
    "digit": ((48, 57),), "space": ((9, 13), (32, 32)),
    "word": ((48, 57), (65, 90), (95, 95), (97, 122)),
}


def cat_ranges(name, ascii_):
    if ascii_:
        return ASCII_CAT[name]
    return char_ranges({"digit": "decimal", "space": "space", "word": "word"}[name])


CATS = {
    sc.CATEGORY_DIGIT: ("digit", False), sc.CATEGORY_NOT_DIGIT: ("digit", True),
    sc.CATEGORY_SPACE: ("space", False), sc.CATEGORY_NOT_SPACE: ("space", True),
    sc.CATEGORY_WORD: ("word", False), sc.CATEGORY_NOT_WORD: ("word", True),
}


class Matcher:
    def __init__(self, pattern):
        if pattern.flags & (re.IGNORECASE | re.LOCALE | re.DEBUG):
            raise Unsupported()
        self.pattern = pattern
        self.ascii = bool(pattern.flags & re.ASCII) or isinstance(pattern.pattern, bytes)
        self.dotall = bool(pattern.flags & re.DOTALL)
        self.multi = bool(pattern.flags & re.MULTILINE)
        self.tree = list(sp.parse(pattern.pattern, pattern.flags & ~re.UNICODE
                                  if isinstance(pattern.pattern, bytes) else pattern.flags))

    def test(self, c, op, av):
        """Condition that character c matches a one-character item."""
        if op is sc.LITERAL:
            return c_eq(c, av)
        if op is sc.NOT_LITERAL:
            return s_not(c_eq(c, av))
        if op is sc.ANY:
            return True if self.dotall else s_not(c_eq(c, 10))
        if op is sc.IN:
            neg = False
            rs = []
            extra = []
            for o, a in av:
                if o is sc.NEGATE:
                    neg = True
                elif o is sc.LITERAL:
                    rs.append((a, a))
                elif o is sc.RANGE:
                    rs.append(tuple(a))
                elif o is sc.CATEGORY:
                    name, n = CATS[a]
                    r = cat_ranges(name, self.ascii)
                    if n:
                        extra.append(s_not(in_ranges(c, r)))
                    else:
                        rs += list(r)
                else:
                    raise Unsupported()
            r = s_or(in_ranges(c, merge_ranges(rs)), *extra)
            return s_not(r) if neg else r
        raise Unsupported()

    def at(self, where, s, i):
        if where in (sc.AT_BEGINNING_STRING,) or where is sc.AT_BEGINNING and not self.multi:
            return i == 0
        if where is sc.AT_END_STRING:
            return i == len(s)
        if where is sc.AT_END and not self.multi:
            if i == len(s):
                return True
            return c_eq(s[i], 10) if i == len(s) - 1 else False
        raise Unsupported()

    # ---- set-of-ends formulation (truth of a match only) --------------------
    def ends(self, items, starts, s):
        for op, av in items:
            starts = self.step(op, av, starts, s)
            if not starts:
                return {}
        return starts

    def step(self, op, av, starts, s):
        out = {}

        def add(p, c):
            if c is False:
                return
            out[p] = s_or(out[p], c) if p in out else c
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            for p, c in starts.items():
                if p < len(s):
                    add(p + 1, s_and(c, self.test(s[p], op, av)))
            return out
        if op is sc.SUBPATTERN:
            _, af, df, sub = av
            if af or df:
                raise Unsupported()
            return self.ends(list(sub), starts, s)
        if op is sc.BRANCH:
            for sub in av[1]:
                for p, c in self.ends(list(sub), starts, s).items():
                    add(p, c)
            return out
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)
            cur = starts
            n = 0
            while True:
                if n >= lo:
                    for p, c in cur.items():
                        add(p, c)
                if n == hi or not cur or n > len(s) + lo + 1:
                    return out
                cur = self.ends(sub, cur, s)
                n += 1
        if op is sc.AT:
            for p, c in starts.items():
                add(p, s_and(c, self.at(av, s, p)))
            return out
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            if av[0] < 0:
                raise Unsupported()
            for p, c in starts.items():
                e = s_or(*self.ends(list(av[1]), {p: True}, s).values())
                add(p, s_and(c, e if op is sc.ASSERT else s_not(e)))
            return out
        raise Unsupported()

    # ---- backtracking formulation (which match) -----------------------------
    def run(self, items, i, s, g, k):
        """Try to match items at i then continuation k(i, g)."""
        if not items:
            return k(i, g)
        (op, av), rest = items[0], items[1:]
        if op in (sc.LITERAL, sc.NOT_LITERAL, sc.ANY, sc.IN):
            if i < len(s) and self.test(s[i], op, av):
                return self.run(rest, i + 1, s, g, k)
            return None
        if op is sc.AT:
            if self.at(av, s, i):
                return self.run(rest, i, s, g, k)
            return None
        if op is sc.SUBPATTERN:
            gid, af, df, sub = av
            if af or df:
                raise Unsupported()

            def after(j, g2):
                if gid is not None:
                    g2 = {**g2, gid: (i, j)}
                return self.run(rest, j, s, g2, k)
            return self.run(list(sub), i, s, g, after)
        if op is sc.BRANCH:
            for sub in av[1]:
                r = self.run(list(sub) + rest, i, s, g, k)
                if r is not None:
                    return r
            return None
        if op in (sc.ASSERT, sc.ASSERT_NOT):
            if av[0] < 0:
                raise Unsupported()
            r = self.run(list(av[1]), i, s, g, lambda j, g2: (j, g2))
            if (r is not None) == (op is sc.ASSERT):
                return self.run(rest, i, s, r[1] if r else g, k)
            return None
        if op in (sc.MAX_REPEAT, sc.MIN_REPEAT):
            lo, hi, sub = av
            sub = list(sub)

            def rep(n, i, g, prev):
                def more():
                    if n >= hi or (prev == i and n >= lo):
                        return None
                    return self.run(sub, i, s, g, lambda j, g2: rep(n + 1, j, g2, i))

                def stop():
                    return self.run(rest, i, s, g, k) if n >= lo else None
                for f in ((more, stop) if op is sc.MAX_REPEAT else (stop, more)):
                    r = f()
                    if r is not None:
                        return r
                return None
            return rep(0, i, g, -1)
        raise Unsupported()


def merge_ranges(rs):
    out = []
    for a, b in sorted(rs):
        if out and a <= out[-1][1] + 1:
            out[-1] = (out[-1][0], max(out[-1][1], b))
        else:
            out.append((a, b))
    return out


class SymMatch(Sym):
    def __init__(self, m, s, mode, start, endpos):
        self.re = m.pattern
        self._m = m
        self.string = s
        self._mode = mode
        self._start = start
        self._res = None

    def __bool__(self):
        return True

    @property
    def _groups(self):
        if self._res is None:
            s = _chars(self.string)
            k = (lambda j, g: (j, g) if j == len(s) else None) if self._mode == "fullmatch" \
                else (lambda j, g: (j, g))
            rng = range(self._start, len(s) + 1) if self._mode == "search" else [self._start]
            for i in rng:
                r = self._m.run(self._m.tree, i, s, {}, k)
                if r is not None:
                    self._res = {**r[1], 0: (i, r[0])}
                    break
            else:
                eng().abort()
        return self._res

    def _gid(self, g):
        if isinstance(g, str):
            return self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        return self._groups.get(self._gid(g), (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _one(self, g, default=None):
        sp_ = self._groups.get(self._gid(g))
        return default if sp_ is None else self.string[sp_[0]:sp_[1]]

    def group(self, *gs):
        if not gs:
            return self._one(0)
        if len(gs) == 1:
            return self._one(gs[0])
        return tuple(self._one(g) for g in gs)

    def __getitem__(self, g):
        return self._one(g)

    def groups(self, default=None):
        return tuple(self._one(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self.re.groupindex.items()}

    @property
    def lastindex(self):
        ks = [k for k in self._groups if k]
        return max(ks) if ks else None

    def _sx_merge_key(self):
        return ("id", id(self))


def _chars(s):
    if isinstance(s, SymBytes):
        return [elem_val(b) for b in s.b]
    return chars_of(s)


_CACHE = {}


def matcher(p):
    if p not in _CACHE:
        try:
            _CACHE[p] = Matcher(p)
        except Unsupported:
            _CACHE[p] = None
    return _CACHE[p]


def pattern_call(p, name, a, k):
    m = matcher(p)
    if m is not None and name in ("match", "fullmatch", "search") and not k and a and \
            isinstance(a[0], (SymStr, SymBytes)):
        try:
            return do_match(m, name, a[0], *a[1:])
        except Unsupported:
            pass
    if m is not None and name in ("finditer", "findall", "sub", "split") and \
            isinstance(a[-1] if name == "sub" else a[0], SymStr) and not k and \
            len(a) == (2 if name == "sub" else 1):
        try:
            return many(m, name, a)
        except Unsupported:
            pass
    e = eng()
    e.guard_speculation()
    e.stats["fallback"] += 1
    from .handlers import conc as _c
    return getattr(p, name)(*_c(list(a)), **_c(k))


def do_match(m, name, s, pos=0, endpos=None):
    cs = _chars(s)
    if endpos is not None:
        raise Unsupported()
    pos = min(max(0, int(pos)), len(cs))
    starts = {pos: True} if name != "search" else {i: True for i in range(pos, len(cs) + 1)}
    ends = m.ends(m.tree, starts, cs)
    if name == "fullmatch":
        ok = ends.get(len(cs), False)
    else:
        ok = s_or(*ends.values()) if ends else False
    if not bool(ok):
        return None
    return SymMatch(m, s, name, pos, None)


def many(m, name, a):
    s = a[-1] if name == "sub" else a[0]
    cs = chars_of(s)
    res = []
    pos = 0
    prev_end = -1
    while pos <= len(cs):
        r = None
        for i in range(pos, len(cs) + 1):
            r = m.run(m.tree, i, cs, {}, lambda j, g, i=i: None if (j == i and j == prev_end)
                      else (j, g))
            if r is not None:
                break
        if r is None:
            break
        mt = SymMatch(m, s, "at", i, None)
        mt._res = {**r[1], 0: (i, r[0])}
        res.append(mt)
        # after an empty match the next one must be non-empty or start later
        prev_end = r[0] if r[0] == i else -1
        pos = r[0]
    if name == "finditer":
        return iter(res)
    if name == "findall":
        return [x.group(0) if m.pattern.groups == 0 else
                (x.group(1) if m.pattern.groups == 1 else x.groups("")) for x in res]
    out = []
    last = 0
    if name == "sub":
        rep = a[0]
        if isinstance(rep, str) and "\\" in rep:
            raise Unsupported()
        for x in res:
            out += cs[last:x.start()]
            out += chars_of(rep(x) if callable(rep) else rep)
            last = x.end()
        return mkstr(out + cs[last:])
    lst = []
    for x in res:
        lst.append(mkstr(cs[last:x.start()]))
        lst += list(x.groups())
        last = x.end()
    lst.append(mkstr(cs[last:]))
    return lst


def install(H, S):
    from .handlers import SYM_HANDLERS_F

    def modfn(name):
        def f(pattern, *a, **k):
            flags = k.pop("flags", 0)
            if name == "sub":
                if len(a) > 3 or k:
                    raise NotImplementedError
                p = pattern if isinstance(pattern, re.Pattern) else re.compile(conc(pattern), flags)
                if is_sym(a[0]) or is_sym(a[1]):
                    return pattern_call(p, "sub", a, {})
                return p.sub(*a)
            if len(a) > 1:
                flags = a[1]
                a = a[:1]
            p = pattern if isinstance(pattern, re.Pattern) else re.compile(conc(pattern), flags)
            if is_sym(a[0]):
                return pattern_call(p, name, a, {})
            return getattr(p, name)(*a)
        return f
    for n in ("match", "fullmatch", "search", "findall", "finditer", "split", "sub"):
        SYM_HANDLERS_F[getattr(re, n)] = modfn(n)
    SYM_HANDLERS_F[re.compile] = lambda p, flags=0: re.compile(
        p if isinstance(p, re.Pattern) else conc(p), flags)
