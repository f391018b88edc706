"""Canonical, JSON-able form of observed values (shared by both executions)."""
import array
import datetime
import struct

import numpy as np


def fbits(v):
    if v != v:
        return "nan"
    return "f:%016x" % struct.unpack("<Q", struct.pack("<d", v))[0]


def canon(v):
    if v is None or isinstance(v, (bool, str)):
        return v
    if isinstance(v, np.bool_):
        return bool(v)
    if isinstance(v, int):
        return ["i", str(int(v))]
    if isinstance(v, float):
        return fbits(float(v))
    if isinstance(v, np.generic):
        if v.dtype.kind == "f":
            return [v.dtype.name, fbits(float(v))]
        return [v.dtype.name, str(int(v))]
    if isinstance(v, (bytes, bytearray, memoryview)):
        return ["bytes", bytes(v).hex()]
    if isinstance(v, np.ndarray):
        dt = v.dtype.newbyteorder("=").name
        if v.dtype.kind == "f":
            return ["nd", dt, [fbits(float(x)) for x in v.tolist()]]
        return ["nd", dt, [str(int(x)) for x in v.tolist()]]
    if isinstance(v, array.array):
        return ["arr", v.typecode, [canon(x) for x in v.tolist()]]
    if isinstance(v, datetime.datetime):
        o = v.utcoffset()
        return ["dt", v.replace(tzinfo=None).isoformat(), None if o is None else o.total_seconds()]
    if isinstance(v, datetime.timedelta):
        return ["td", (v.days * 86400 + v.seconds) * 10 ** 6 + v.microseconds]
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {"d": [[canon(k), canon(x)] for k, x in v.items()]}
    if isinstance(v, BaseException):
        return ["exc", type(v).__name__]
    return ["obj", type(v).__name__]
