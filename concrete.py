"""Runs harness cases on the real, uninstrumented code with concrete inputs.

  concrete.py REPLAY.json           replay one recorded counterexample
  concrete.py --batch PROP < jobs   replay many (used by the symbolic runner)
"""
import importlib
import io
import json
import os
import struct
import sys
import traceback

sys.dont_write_bytecode = True
VERIF = os.environ.get("VERIF_DIR") or os.path.dirname(os.path.abspath(__file__))
SRC = os.environ.get("VERIF_SRC", "/repo/src")
sys.path.insert(0, VERIF)
sys.path.insert(0, SRC)

import numpy as np  # noqa: E402
from symx.canon import canon  # noqa: E402
for _m in ("crc32c", "jsonpointer", "importlib.resources", "importlib_resources", "argparse", "dataclasses"):
    try:
        importlib.import_module(_m)
    except ImportError:
        pass
# the library itself is always compiled from its source, never read from a (possibly stale) cache
sys.pycache_prefix = "/nonexistent/pycache"


class CheckFailed(Exception):
    pass


class Excluded(Exception):
    """The inputs do not satisfy an assumption."""


class Outcome:
    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    @property
    def exname(self):
        return type(self.exc).__name__ if self.exc is not None else ""


class ConcCtx:
    symbolic = False

    def __init__(self, inputs, known=()):
        self.inp = inputs
        self.obs = []
        self.cleanup = []
        self.labels = set()
        self.active_known = set(known)

    def _get(self, name):
        return self.inp[name][1]

    def int(self, name, lo, hi):
        v = int(self._get(name))
        if not lo <= v <= hi:
            raise Excluded(name)
        return v

    def bits(self, name, n, signed=False):
        return int(self._get(name))

    def bool(self, name):
        return bool(self._get(name))

    def choice(self, name, seq):
        return list(seq)[int(self._get(name))]

    def bytes(self, name, n):
        return bytes.fromhex(self._get(name))

    def str(self, name, n, ranges=None):
        return "".join(chr(c) for c in self._get(name))

    def f64(self, name):
        return struct.unpack("<d", struct.pack("<Q", int(self._get(name))))[0]

    def f32(self, name):
        return struct.unpack("<f", struct.pack("<I", int(self._get(name))))[0]

    def array(self, name, dtype, n, lo=None, hi=None):
        dt = np.dtype(dtype)
        vals = [int(x) for x in self._get(name)]
        if dt.kind in "iu":
            return np.array(vals, dtype=dt)
        raw = np.array(vals, dtype="u%d" % dt.itemsize)
        return raw.view("f%d" % dt.itemsize).astype(dt)

    def assume(self, c):
        if not c:
            raise Excluded("assumption")

    def check(self, c, msg, known=None):
        if known is not None and known[0] in self.active_known and known[1]:
            return
        if not c:
            raise CheckFailed(msg)

    def fail(self, msg):
        raise CheckFailed(msg)

    def call(self, f, *a, **k):
        try:
            return Outcome(f(*a, **k))
        except Exception as ex:
            return Outcome(exc=ex)

    def observe(self, name, v):
        if len(self.obs) < 400:
            self.obs.append((name, canon(v)))

    def reach(self, label):
        self.labels.add(label)

    def file(self, data=b""):
        return io.BytesIO(bytes(data))

    def fs(self, files=None, crash=None):
        from symx.realfs import RealFS
        fs = RealFS(files or {}, crash)
        self.cleanup.append(fs.cleanup)
        return fs

    def argv(self, args):
        sys.argv = ["prog"] + list(args)

    def printed(self, f, *a, **k):
        old, sys.stdout = sys.stdout, io.StringIO()
        try:
            r = self.call(f, *a, **k)
            return r, sys.stdout.getvalue()
        finally:
            sys.stdout = old


def load(prop, tier):
    mod = importlib.import_module("harness." + prop.lower())
    return {c["name"]: c for c in mod.cases(tier)}


def known_ids(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k["id"] for k in json.load(f).get("findings", []) if k["property"] == prop]


def run_one(case, inputs, known=(), verbose=False):
    ctx = ConcCtx(inputs, known)
    r = {}
    out, err = sys.stdout, sys.stderr
    sys.stdout = io.StringIO()
    try:
        case["fn"](ctx, **case.get("params", {}))
    except CheckFailed as ex:
        r["failed"] = str(ex)
    except Excluded as ex:
        r["excluded"] = str(ex)
    except Exception as ex:
        r["failed"] = f"unexpected {type(ex).__name__}: {str(ex)[:300]}"
        if verbose:
            traceback.print_exc(file=err)
    finally:
        sys.stdout = out
        for f in getattr(ctx, "cleanup", []):
            f()
    r["obs"] = ctx.obs
    return r


def main():
    np.seterr(all="ignore")
    if sys.argv[1] == "--batch":
        prop = sys.argv[2]
        jobs = json.load(sys.stdin)
        known = known_ids(prop)
        caches = {}
        out = []
        for j in jobs:
            if j["tier"] not in caches:
                caches[j["tier"]] = load(prop, j["tier"])
            r = run_one(caches[j["tier"]][j["case"]], j["inputs"], known)
            obs = r.pop("obs")
            if j["kind"] == "path" and not r:
                exp = j["obs"]
                got = json.loads(json.dumps([[n, v] for n, v in obs]))
                if len(exp) != len(got):
                    r["mismatch"] = f"observations: {len(exp)} vs {len(got)}"
                for (en, ev), (gn, gv) in zip(exp, got):
                    if en != gn or (ev != "?" and ev != gv):
                        r["mismatch"] = f"{en}: model {ev} real {gn}: {gv}"
                        break
            elif j["kind"] == "path" and "excluded" in r:
                r["mismatch"] = "inputs excluded: " + r["excluded"]
            out.append(r)
        print(json.dumps(out))
        return 0
    with open(sys.argv[1]) as f:
        d = json.load(f)
    case = load(d["property"], d["tier"])[d["case"]]
    r = run_one(case, d["inputs"], known_ids(d["property"]), verbose=True)
    print("property", d["property"], "case", d["case"])
    for n, v in r["obs"]:
        print("  observed", n, "=", v)
    if "failed" in r:
        print("REPRODUCED:", r["failed"])
        return 1
    print("not reproduced", r.get("excluded", ""))
    return 0


if __name__ == "__main__":
    sys.exit(main())
