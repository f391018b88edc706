"""CRC-32C of symbolic bytes as an affine function over GF(2).

The term is built from the linear contribution of every unknown byte; the
affine rows are remembered, so that comparing two checksums cancels every
common contribution before the solver sees the equation.
"""
import z3
from .values import SymInt, from_bits, extract, concat, num, is_sym, sbool, bvval, OPAQUE
from .seqs import elems_of, concrete_elems, SymBytes

POLY = 0x82F63B78
_TABLE = []
for _i in range(256):
    _c = _i
    for _ in range(8):
        _c = (_c >> 1) ^ (POLY if _c & 1 else 0)
    _TABLE.append(_c)


def crc_concrete(data, value=0):
    c = value ^ 0xFFFFFFFF
    for b in data:
        c = _TABLE[(c ^ b) & 255] ^ (c >> 8)
    return c ^ 0xFFFFFFFF


def _advance(c):
    """state update by one zero byte (linear)"""
    return _TABLE[c & 255] ^ (c >> 8)


_impulse_cache = {}


def impulses(n):
    """masks[i][j]: effect on the final state of bit j of byte i in an n-byte message."""
    if n in _impulse_cache:
        return _impulse_cache[n]
    out = [None] * n
    cur = [_TABLE[1 << j] for j in range(8)]
    for i in range(n - 1, -1, -1):
        out[i] = list(cur)
        cur = [_advance(c) for c in cur]
    _impulse_cache[n] = out
    return out


REG = {}      # ast id of the 32-bit term -> (term, const, {(atom id, bit): mask}, atoms)


def xor_parts(e):
    """(const, [atoms]) of an 8-bit element."""
    if isinstance(e, int):
        return e, []
    if z3.is_bv_value(e):
        return e.as_long(), []
    if e.decl().kind() == z3.Z3_OP_BXOR:
        c, at = 0, []
        for i in range(e.num_args()):
            a, b = xor_parts(e.arg(i))
            c ^= a
            at += b
        return c, at
    return 0, [e]


def bits_of(e, i):
    """Affine form of bit i of term e: (const, (atom id, bit)...), recording atoms."""
    return affine(e)[i]


_CACHE = {}


def affine(e):
    """Every bit of e as (const, frozenset of (atom id, bit)) over GF(2)."""
    k = e.get_id()
    hit = _CACHE.get(k)
    if hit is not None and hit[0].eq(e):
        return hit[1]
    r = _affine(e)
    _CACHE[k] = (e, r)
    return r


_NONE = frozenset()


def _affine(e):
    d = e.decl().kind()
    n = e.size()
    if z3.is_bv_value(e):
        v = e.as_long()
        return [((v >> i) & 1, _NONE) for i in range(n)]
    if e.get_id() in REG and REG[e.get_id()][0].eq(e):
        _, const, rows, _ = REG[e.get_id()]
        return [((const >> i) & 1, frozenset(k for k, m in rows.items() if (m >> i) & 1))
                for i in range(n)]
    if d == z3.Z3_OP_EXTRACT:
        hi, lo = e.params()[0], e.params()[1]
        return affine(e.arg(0))[lo:hi + 1]
    if d == z3.Z3_OP_CONCAT:
        out = []
        for k in range(e.num_args() - 1, -1, -1):
            out += affine(e.arg(k))
        return out
    if d == z3.Z3_OP_ZERO_EXT:
        a = affine(e.arg(0))
        return a + [(0, _NONE)] * (n - len(a))
    if d == z3.Z3_OP_SIGN_EXT:
        a = affine(e.arg(0))
        return a + [a[-1]] * (n - len(a))
    if d == z3.Z3_OP_BNOT:
        return [(c ^ 1, s) for c, s in affine(e.arg(0))]
    if d == z3.Z3_OP_BXOR:
        out = [(0, _NONE)] * n
        for k in range(e.num_args()):
            out = [(c ^ c2, s ^ s2) for (c, s), (c2, s2) in zip(out, affine(e.arg(k)))]
        return out
    if d == z3.Z3_OP_BAND and e.num_args() == 2:
        for x, y in ((e.arg(0), e.arg(1)), (e.arg(1), e.arg(0))):
            if z3.is_bv_value(y):
                v = y.as_long()
                return [t if (v >> i) & 1 else (0, _NONE) for i, t in enumerate(affine(x))]
    if d == z3.Z3_OP_ITE:
        c = _cond(e.arg(0))
        if c is not None:
            out = []
            for x, y in zip(affine(e.arg(1)), affine(e.arg(2))):
                if not c[1]:
                    out.append(x if c[0] else y)
                elif x[1] == y[1]:
                    out.append(y if x[0] == y[0] else (y[0] ^ c[0], y[1] ^ c[1]))
                else:
                    out = None
                    break
            if out is not None:
                return out
    ATOMS[e.get_id()] = e
    return [(0, frozenset([(e.get_id(), i)])) for i in range(n)]


def _cond(c):
    """A condition that is one bit, as an affine form."""
    if z3.is_not(c):
        r = _cond(c.arg(0))
        return None if r is None else (r[0] ^ 1, r[1])
    if z3.is_true(c) or z3.is_false(c):
        return (1 if z3.is_true(c) else 0), _NONE
    if z3.is_distinct(c) and c.num_args() == 2:
        r = _cond(c.arg(0) == c.arg(1))
        return None if r is None else (r[0] ^ 1, r[1])
    if z3.is_eq(c) and z3.is_bv(c.arg(0)):
        x, y = c.arg(0), c.arg(1)
        left = None
        for p, q in zip(affine(x), affine(y)):
            t = (p[0] ^ q[0], p[1] ^ q[1])
            if not t[1]:
                if t[0]:
                    return 0, _NONE
                continue
            if left is not None and left != t:
                return None
            left = t
        if left is None:
            return 1, _NONE
        return left[0] ^ 1, left[1]
    return None


ATOMS = {}


def crc32c(data, value=0, gpu=None, **kw):
    es = elems_of(data)
    if concrete_elems(es) and not is_sym(value):
        import crc32c as real
        return real.crc32c(bytes(es), value)
    n = len(es)
    key = (tuple(e if isinstance(e, int) else ("t", e.get_id()) for e in es),
           ("t", value.e.get_id()) if isinstance(value, SymInt) else num(value))
    hit = _DONE.get(key)
    if hit is not None:
        return hit[2]
    r = _crc(es, n, value)
    _DONE[key] = (es, value, r)     # keeps the terms, and so their ids, alive
    return r


_DONE = {}


def _crc(es, n, value):
    imp = impulses(n)
    rows = {}
    const = 0
    if is_sym(value):
        init = None
        vt = value.e if isinstance(value, SymInt) else None
        v32 = extract(31, 0, z3.ZeroExt(1, vt)) if vt.size() < 32 else extract(31, 0, vt)
        # linear effect of the initial state
        cur = [1 << k for k in range(32)]
        for _ in range(n):
            cur = [_advance(c) for c in cur]
        c0 = 0xFFFFFFFF
        for _ in range(n):
            c0 = _advance(c0)
        const ^= c0
        for k in range(32):
            c, s = bits_of(v32, k)
            if c:
                const ^= cur[k]
            for key in s:
                rows[key] = rows.get(key, 0) ^ cur[k]
    else:
        c = (num(value) ^ 0xFFFFFFFF) & 0xFFFFFFFF
        for _ in range(n):
            c = _advance(c)
        const ^= c
    for i, e in enumerate(es):
        m = imp[i]
        if isinstance(e, int):
            for j in range(8):
                if e >> j & 1:
                    const ^= m[j]
            continue
        for j in range(8):
            c, s = bits_of(e, j)
            if c:
                const ^= m[j]
            for key in s:
                rows[key] = rows.get(key, 0) ^ m[j]
    const ^= 0xFFFFFFFF
    rows = {k: v for k, v in rows.items() if v}
    return from_bits(term_of(const, rows), False)


def term_of(const, rows):
    t = z3.BitVecVal(const, 32)
    zero = z3.BitVecVal(0, 32)
    for (aid, bit), m in sorted(rows.items()):
        a = ATOMS[aid]
        t = t ^ z3.If(extract(bit, bit, a) == z3.BitVecVal(1, 1), z3.BitVecVal(m, 32), zero)
    if rows:
        REG[t.get_id()] = (t, const, rows, None)
        OPAQUE.add(t.get_id())
    return t


def has_crc(e, depth=6):
    if e.get_id() in REG and REG[e.get_id()][0].eq(e):
        return True
    if depth and e.decl().kind() in (z3.Z3_OP_EXTRACT, z3.Z3_OP_CONCAT, z3.Z3_OP_ZERO_EXT,
                                     z3.Z3_OP_BXOR, z3.Z3_OP_SIGN_EXT):
        return any(has_crc(e.arg(i), depth - 1) for i in range(e.num_args()))
    return False


def affine_eq(A, B):
    """z3 Bool for A == B, with the linear system over GF(2) solved as far as it goes."""
    if not REG or not (has_crc(A) or has_crc(B)):
        return None
    # one integer per equation: bit k is variable k, the top bit the constant
    var, order, eqs = {}, [], []
    for (ca, sa), (cb, sb) in zip(affine(A), affine(B)):
        row = 0
        for key in sa ^ sb:
            if key not in var:
                var[key] = len(order)
                order.append(key)
            row |= 1 << var[key]
        eqs.append((row, ca ^ cb))
    pivots = {}
    for row, c in eqs:
        for p, (r2, c2) in pivots.items():
            if row >> p & 1:
                row ^= r2
                c ^= c2
        if row == 0:
            if c:
                return z3.BoolVal(False)
            continue
        p = row.bit_length() - 1
        for q, (r2, c2) in list(pivots.items()):
            if r2 >> p & 1:
                pivots[q] = (r2 ^ row, c2 ^ c)
        pivots[p] = (row, c)
    conds = []
    for p, (row, c) in sorted(pivots.items()):
        t = z3.BitVecVal(c, 1)
        for k in range(row.bit_length()):
            if row >> k & 1:
                aid, bit = order[k]
                t = t ^ extract(bit, bit, ATOMS[aid])
        conds.append(t == z3.BitVecVal(0, 1))
    if not conds:
        return z3.BoolVal(True)
    return z3.And(*conds)


def reset():
    _DONE.clear()
    OPAQUE.clear()
    _CACHE.clear()
    REG.clear()
    ATOMS.clear()
