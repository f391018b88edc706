"""struct with symbolic values."""
import struct
import z3
from .core import eng, PathUnknown
from .values import (
    Sym, SymInt, SymBool, SymFloat, num, is_sym, int_of, s_and, s_or, s_not, from_bits, concat,
    extract, int_bytes, F32, RNE, sbool,
)
from .seqs import (
    SymBytes, SymByteArray, SymStr, elems_of, elem_val, bytes_like, conc, concrete_elems,
)

SIZES = {"x": 1, "c": 1, "b": 1, "B": 1, "?": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4,
         "q": 8, "Q": 8, "f": 4, "d": 8, "e": 2, "s": 1, "p": 1}


def fmtstr(fmt):
    fmt = conc(fmt)
    if isinstance(fmt, (bytes, bytearray)):
        fmt = bytes(fmt).decode("ascii")
    return fmt


def layout(fmt):
    """(items, size, big): items are (code, offset, size)."""
    size = struct.calcsize(fmt)
    order = "@"
    body = fmt
    if fmt and fmt[0] in "@=<>!":
        order, body = fmt[0], fmt[1:]
    big = order in ">!"
    items = []
    n = None
    prefix = order
    for ch in body:
        if ch.isspace():
            continue
        if ch.isdigit():
            n = (n or 0) * 10 + int(ch)
            continue
        cnt = 1 if n is None else n
        n_given, n = n, None
        one = struct.calcsize(order + ch) if ch not in "sp" else 1
        if ch in "sp":
            start = struct.calcsize(prefix)
            items.append((ch, start, cnt))
            prefix += f"{cnt}{ch}"
        elif ch == "x":
            prefix += f"{cnt}x"
        else:
            for _ in range(cnt):
                end = struct.calcsize(prefix + ch)
                items.append((ch, end - one, one))
                prefix += ch
            if cnt == 0:
                prefix += f"0{ch}"
    return items, size, big


# little-endian bytes of packed integers -> the integer they are the bytes of
ORIGIN = {}
FLOATS = {}      # the same for doubles that are plain functions of one integer


def byte_key(b):
    return tuple(x if isinstance(x, int) else ("t", x.get_id()) for x in b)


def original(le, ch, n):
    hit = ORIGIN.get(byte_key(le))
    if hit is None:
        return None
    v = hit[0]
    lo, hi = (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if ch.islower() else \
        (0, (1 << (8 * n)) - 1)
    return v if v.lo >= lo and v.hi <= hi else None


def unpack_elems(fmt, es):
    items, size, big = layout(fmt)
    if len(es) != size:
        raise struct.error(f"unpack requires a buffer of {size} bytes")
    if concrete_elems(es):
        return struct.unpack(fmt, bytes(es))
    out = []
    for ch, off, n in items:
        b = es[off:off + n]
        if ch == "c" or ch == "s":
            out.append(bytes(b) if concrete_elems(b) else SymBytes(b))
            continue
        if ch == "p":
            k = int_of(elem_val(b[0])) if b else 0
            out.append(SymBytes(b[1:1 + min(k, n - 1)]))
            continue
        if ch == "?":
            v = elem_val(b[0])
            out.append(v != 0)
            continue
        le = b[::-1] if big else b
        if concrete_elems(b):
            out.append(struct.unpack("<" + ch if ch not in "nNP" else ch, bytes(le))[0]
                       if n == SIZES.get(ch) else int.from_bytes(bytes(le), "little",
                                                                 signed=ch.islower()))
            continue
        bits = concat([z3.BitVecVal(x, 8) if isinstance(x, int) else x for x in le[::-1]])
        if ch == "d":
            hit = FLOATS.get(byte_key(le))
            out.append(hit[0] if hit is not None else SymFloat(bits=bits))
        elif ch == "f":
            out.append(SymFloat(bits32=bits))
        elif ch in "bhilqnBHILQNP" and original(le, ch, n) is not None:
            out.append(original(le, ch, n))
        elif ch in "bhilqn":
            out.append(from_bits(bits, True))
        elif ch in "BHILQNP":
            out.append(from_bits(bits, False))
        else:
            raise PathUnknown(f"struct code {ch}")
    return tuple(out)


def unpack(fmt, buf):
    fmt = fmtstr(fmt)
    return unpack_elems(fmt, elems_of(buf))


def unpack_from(fmt, buffer, offset=0):
    fmt = fmtstr(fmt)
    es = elems_of(buffer)
    offset = int_of(num(offset))
    size = struct.calcsize(fmt)
    if offset < 0:
        if offset + len(es) < 0:
            raise struct.error(f"offset {offset} out of range for {len(es)}-byte buffer")
        offset += len(es)
    if offset + size > len(es):
        raise struct.error(f"unpack_from requires a buffer of at least {offset + size} bytes for "
                           f"unpacking {size} bytes at offset {offset} "
                           f"(actual buffer size is {len(es)})")
    return unpack_elems(fmt, es[offset:offset + size])


def iter_unpack(fmt, buf):
    fmt = fmtstr(fmt)
    es = elems_of(buf)
    size = struct.calcsize(fmt)
    if size == 0 or len(es) % size:
        raise struct.error(f"iterative unpacking requires a buffer of a multiple of {size} bytes")
    return iter([unpack_elems(fmt, es[i:i + size]) for i in range(0, len(es), size)])


def int_arg(v):
    if isinstance(v, (int, SymInt, SymBool)):
        return num(v)
    if is_sym(v) and hasattr(v, "dtype") and hasattr(v, "as_int") and v.dtype.kind in "iub":
        return v.as_int()
    if hasattr(v, "__index__") and not is_sym(v):
        try:
            return v.__index__()
        except TypeError:
            pass
    raise struct.error("required argument is not an integer")


def float_arg(v):
    if isinstance(v, SymFloat):
        return v
    if is_sym(v) and hasattr(v, "as_float"):
        f = v.as_float()
        return f
    n = num(v)
    if n is not None:
        return SymFloat.of(n) if isinstance(n, SymInt) else float(n)
    if isinstance(v, float):
        return float(v)
    if hasattr(v, "__float__") and not is_sym(v):
        return float(v)
    raise struct.error("required argument is not a float")


def pack(fmt, *args):
    fmt = fmtstr(fmt)
    if not any(is_sym(a) for a in args):
        return struct.pack(fmt, *args)
    items, size, big = layout(fmt)
    if len(items) != len(args):
        raise struct.error(f"pack expected {len(items)} items for packing (got {len(args)})")
    out = [0] * size
    for (ch, off, n), v in zip(items, args):
        if ch in "cs":
            if not bytes_like(v):
                raise struct.error("char format requires a bytes object of length 1" if ch == "c"
                                   else "argument for 's' must be a bytes object")
            b = elems_of(v)
            if ch == "c" and len(b) != 1:
                raise struct.error("char format requires a bytes object of length 1")
            b = (b + [0] * n)[:n]
            out[off:off + n] = b
            continue
        if ch == "p":
            raise PathUnknown("struct code p")
        if ch == "?":
            t = v if isinstance(v, (bool, SymBool)) else (v != 0)
            out[off] = int_bytes(num(t), 1)[0]
            continue
        if ch in "fd":
            f = float_arg(v)
            if isinstance(f, float):
                b = list(struct.pack("<" + ch, f))
            elif ch == "d":
                bits = f.to_bits()
                b = [extract(8 * i + 7, 8 * i, bits) for i in range(8)]
                if f.uni is not None:
                    FLOATS[byte_key(b)] = (f, b)
            else:
                if f.bits32 is None:
                    s = z3.fpFPToFP(RNE, f.f, F32)
                    ovf = z3.And(z3.fpIsInf(s), z3.Not(z3.fpIsInf(f.f)))
                    if eng().branch(ovf):
                        raise OverflowError("float too large to pack with f format")
                bits = f.bits_single()
                b = [extract(8 * i + 7, 8 * i, bits) for i in range(4)]
            b = [x.as_long() if not isinstance(x, int) and z3.is_bv_value(x) else x for x in b]
        elif ch == "e":
            raise PathUnknown("struct code e")
        else:
            i = int_arg(v)
            if ch.islower():
                lo, hi = -(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1
            else:
                lo, hi = 0, (1 << (8 * n)) - 1
            if not s_and(i >= lo, i <= hi):
                raise struct.error(f"'{ch}' format requires {lo} <= number <= {hi}")
            whole = i if isinstance(i, SymInt) and i.lo >= lo and i.hi <= hi else None
            if isinstance(i, SymInt):
                from .seqs import narrow
                i = narrow(i, lo, hi)
            b = int_bytes(i, n)
            if whole is not None:
                ORIGIN[byte_key(b)] = (whole, b)
        out[off:off + n] = b[::-1] if big else b
    return SymBytes(out)


def pack_into(fmt, buffer, offset, *args):
    fmt = fmtstr(fmt)
    size = struct.calcsize(fmt)
    offset = int_of(num(offset))
    if not is_sym(buffer) and not any(is_sym(a) for a in args):
        return struct.pack_into(fmt, buffer, offset, *args)
    n = len(buffer)
    if isinstance(buffer, SymBytes) and not buffer.mutable:
        raise TypeError("argument must be read-write bytes-like object, not bytes")
    if offset < 0:
        if offset + n < 0:
            raise struct.error(f"offset {offset} out of range for {n}-byte buffer")
        if offset + size > 0:
            raise struct.error(f"no space to pack {size} bytes at offset {offset}")
        offset += n
    if offset + size > n:
        raise struct.error(f"pack_into requires a buffer of at least {offset + size} bytes for "
                           f"packing {size} bytes at offset {offset} (actual buffer size is {n})")
    es = elems_of(pack(fmt, *args))
    # pad bytes ('x') are written as zeros by struct as well
    buffer[offset:offset + size] = SymBytes(es)


class StructModel:
    def __init__(self, fmt):
        self.format = fmtstr(fmt)
        self.size = struct.calcsize(self.format)

    def pack(self, *a):
        return pack(self.format, *a)

    def unpack(self, b):
        return unpack(self.format, b)

    def unpack_from(self, buffer, offset=0):
        return unpack_from(self.format, buffer, offset)

    def pack_into(self, buf, off, *a):
        return pack_into(self.format, buf, off, *a)

    def iter_unpack(self, b):
        return iter_unpack(self.format, b)
