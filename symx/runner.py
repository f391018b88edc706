"""Symbolic execution of harness cases, in parallel, with replay of every path."""
import importlib
import json
import multiprocessing as mp
import os
import signal
import subprocess
import sys
import time
import traceback

import numpy as np
import z3

from . import core, loader, crcmodel
from .core import (Engine, PathAbort, PathUnknown, BudgetExceeded, Steer, set_engine, eng)
from .values import (Sym, SymInt, SymBool, SymFloat, from_bits, width, mk, sbool, as_bool_term,
                     is_sym, s_and, num, bits_to_float, parts, term)
from .seqs import (SymBytes, SymByteArray, SymStr, in_ranges, conc, narrow, mkstr, SymFile)
from .npmodel import SymArray, SymNp, SymArrayArray
from .dtmodel import SymDatetime, SymTimedelta, h_datetime
from .canon import canon

VERIF = loader.VERIF
REALPY = "/opt/venv/bin/python"


class CheckFailed(Exception):
    pass


class Violation(core.Steer):
    def __init__(self, msg, model, kind="assert"):
        super().__init__(msg)
        self.msg = msg
        self.model = model
        self.kind = kind


class Outcome:
    """Result of ctx.call: exactly one of value / exc."""
    __slots__ = ("value", "exc")

    def __init__(self, value=None, exc=None):
        self.value = value
        self.exc = exc

    @property
    def ok(self):
        return self.exc is None

    @property
    def exname(self):
        return type(self.exc).__name__ if self.exc is not None else ""


class SymCtx:
    symbolic = True

    def __init__(self, engine, known=()):
        self.e = engine
        self.inputs = {}
        self.obs = []
        self.labels = set()
        self.nchecks = 0
        self.active_known = set(known)

    # ---- inputs
    def _reg(self, name, kind, terms):
        if name in self.inputs:
            raise RuntimeError("duplicate input " + name)
        self.inputs[name] = (kind, terms)

    def int(self, name, lo, hi):
        if lo == hi:
            self._reg(name, "int", lo)
            return lo
        w = width(min(lo, 0) if lo >= 0 else lo, hi)
        e = z3.BitVec(name, w)
        full = mk(e, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        c = s_and(full >= lo, full <= hi)
        if isinstance(c, SymBool):
            self.e.assume(c.e)
        self._reg(name, "int", full)
        return mk(e, lo, hi)

    def bits(self, name, n, signed=False):
        """Full-range machine integer (no assumption needed)."""
        e = z3.BitVec(name, n)
        v = from_bits(e, signed)
        self._reg(name, "int", v)
        return v

    def bool(self, name):
        e = z3.Bool(name)
        self._reg(name, "bool", e)
        return SymBool(e)

    def choice(self, name, seq):
        seq = list(seq)
        i = self.int(name, 0, len(seq) - 1)
        return seq[i if isinstance(i, int) else i.__index__()]

    def bytes(self, name, n):
        es = [z3.BitVec(f"{name}.{i}", 8) for i in range(n)]
        self._reg(name, "bytes", es)
        return SymBytes(es) if n else b""

    def str(self, name, n, ranges=((0, 0x10FFFF),)):
        out = []
        hi = max(b for _, b in ranges)
        lo = min(a for a, _ in ranges)
        w = width(0, hi)
        for i in range(n):
            e = z3.BitVec(f"{name}.{i}", w)
            full = mk(e, -(1 << (w - 1)), (1 << (w - 1)) - 1)
            c = in_ranges(full, ranges)
            if isinstance(c, SymBool):
                self.e.assume(c.e)
            elif c is False:
                self.e.abort()
            out.append(mk(e, lo, hi))
        self._reg(name, "str", out)
        return mkstr(out)

    def f64(self, name):
        b = z3.BitVec(name, 64)
        self._reg(name, "f64", b)
        return SymFloat(bits=b)

    def f32(self, name):
        """A single-precision value, as a Python float."""
        b = z3.BitVec(name, 32)
        self._reg(name, "f32", b)
        return SymFloat(bits32=b)

    def array(self, name, dtype, n, lo=None, hi=None):
        dt = np.dtype(dtype)
        vals = []
        terms = []
        for i in range(n):
            if dt.kind in "iu":
                ii = np.iinfo(dt)
                v = self._int_noreg(f"{name}.{i}", int(ii.min) if lo is None else lo,
                                    int(ii.max) if hi is None else hi)
                vals.append(v)
                terms.append(v)
            elif dt.itemsize == 4:
                b = z3.BitVec(f"{name}.{i}", 32)
                vals.append(SymFloat(bits32=b))
                terms.append(b)
            else:
                b = z3.BitVec(f"{name}.{i}", 64)
                vals.append(SymFloat(bits=b))
                terms.append(b)
        self._reg(name, "arr:" + dt.str, terms)
        return SymArray(vals, dt)

    def _int_noreg(self, name, lo, hi):
        if lo == hi:
            return lo
        w = width(min(lo, 0), hi)
        if lo >= 0 and hi == (1 << (w - 1)) - 1:
            return from_bits(z3.BitVec(name, w - 1), False)
        e = z3.BitVec(name, w)
        full = mk(e, -(1 << (w - 1)), (1 << (w - 1)) - 1)
        c = s_and(full >= lo, full <= hi)
        if isinstance(c, SymBool):
            self.e.assume(c.e)
        return mk(e, lo, hi)

    # ---- constraints, checks
    def assume(self, c):
        if isinstance(c, (SymInt, SymNp)):
            c = c != 0
        if isinstance(c, SymBool):
            self.e.assume(c.e)
        elif not c:
            self.e.abort()

    def check(self, c, msg, known=None):
        self.nchecks += 1
        self.e.stats["checks"] += 1
        if isinstance(c, (SymInt, SymNp)):
            c = c != 0
        if known is not None and known[0] in self.active_known:
            from .values import s_or
            c = s_or(c, known[1])
        if not isinstance(c, SymBool):
            if c:
                return
            raise Violation(msg, self.e.get_model())
        r = self.e.prove(c.e)
        if r is None:
            return
        if r == "unknown":
            raise PathUnknown("solver could not decide: " + msg)
        raise Violation(msg, r)

    def fail(self, msg):
        self.check(False, msg)

    def call(self, f, *a, **k):
        from .handlers import sx_call
        try:
            return Outcome(sx_call(f, *a, **k))
        except z3.Z3Exception as ex:
            if os.environ.get("VERIF_DEBUG"):
                traceback.print_exc()
            raise PathUnknown("engine: " + safe(ex))
        except Exception as ex:
            return Outcome(exc=ex)

    def observe(self, name, v):
        if len(self.obs) < 400:
            self.obs.append((name, freeze(v)))

    def reach(self, label):
        self.labels.add(label)

    def file(self, data=b""):
        from .seqs import elems_of
        return SymFile(elems_of(data))

    def fs(self, files=None, crash=None):
        from .fsmodel import SymFS
        fs = SymFS(files or {}, crash)
        self.e.fs = fs
        return fs

    def argv(self, args):
        sys.argv = ["prog"] + list(args)

    def printed(self, f, *a, **k):
        """What f does, and the text it prints."""
        from .handlers import Stdout
        e = self.e
        old, oldout = getattr(e, "stdout", None), sys.stdout
        out = e.stdout = sys.stdout = Stdout()
        try:
            r = self.call(f, *a, **k)
        finally:
            e.stdout, sys.stdout = old, oldout
        return r, out.text()


def freeze(v):
    if isinstance(v, SymByteArray):
        return SymBytes(v.b)
    if isinstance(v, SymArray):
        return SymArray(list(v.vals()), v.dtype)
    if isinstance(v, SymFile):
        return v.getvalue()
    if isinstance(v, (list, tuple)):
        return [freeze(x) for x in v]
    if isinstance(v, dict):
        return {k: freeze(x) for k, x in v.items()}
    if isinstance(v, bytearray):
        return bytes(v)
    return v


class Evaluator:
    """Values of symbolic terms under a model."""

    def __init__(self, model):
        self.m = model

    def bv(self, e):
        return self.m.eval(e, model_completion=True)

    def int(self, v):
        if isinstance(v, int):
            return int(v)
        if isinstance(v, SymInt):
            return self.bv(v.e).as_signed_long()
        raise TypeError(type(v))

    def fl(self, v):
        if isinstance(v, float):
            return v
        if v.bits32 is not None:
            return bits32_to_float(self.bv(v.bits32).as_long())
        if v.bits is not None:
            return bits_to_float(self.bv(v.bits).as_long())
        r = self.bv(z3.fpToIEEEBV(v.f))
        r = z3.simplify(r)
        return bits_to_float(r.as_long())

    def value(self, v):
        """A concrete Python value."""
        if isinstance(v, SymInt):
            return self.int(v)
        if isinstance(v, SymBool):
            return z3.is_true(self.bv(v.e))
        if isinstance(v, SymFloat):
            return self.fl(v)
        if isinstance(v, SymNp):
            x = self.value(v.v)
            return v.dtype.type(x)
        if isinstance(v, SymBytes):
            return bytes(b if isinstance(b, int) else self.bv(b).as_long() for b in v.b)
        if isinstance(v, SymStr):
            if v._c is None:
                raise Unobservable()
            return "".join(chr(self.int(c)) for c in v._c)
        if isinstance(v, SymArray):
            return np.array([self.value(x) for x in v.vals()],
                            dtype=v.dtype.newbyteorder("="))
        if isinstance(v, SymArrayArray):
            import array
            return array.array(v.typecode, [self.value(x) for x in v.v])
        if isinstance(v, SymDatetime):
            import datetime
            y, d, us = self.int(v._y), self.int(v._d), self.int(v._us)
            return datetime.datetime(y, 1, 1, tzinfo=v.tzinfo) + datetime.timedelta(
                days=d, microseconds=us)
        if isinstance(v, SymTimedelta):
            import datetime
            return datetime.timedelta(microseconds=self.int(v.us))
        if isinstance(v, list):
            return [self.value(x) for x in v]
        if isinstance(v, tuple):
            return tuple(self.value(x) for x in v)
        if isinstance(v, dict):
            return {self.value(k): self.value(x) for k, x in v.items()}
        if is_sym(v):
            raise Unobservable()
        return v

    def inputs(self, reg):
        out = {}
        for name, (kind, t) in reg.items():
            if kind == "int":
                out[name] = ["int", str(self.int(t))]
            elif kind == "bool":
                out[name] = ["bool", z3.is_true(self.bv(t))]
            elif kind == "bytes":
                out[name] = ["bytes", bytes(self.bv(x).as_long() for x in t).hex()]
            elif kind == "str":
                out[name] = ["str", [self.int(c) for c in t]]
            elif kind in ("f64", "f32"):
                out[name] = [kind, str(self.bv(t).as_long())]
            elif kind.startswith("arr:"):
                out[name] = [kind, [str(x) if isinstance(x, int) else
                                    (str(self.int(x)) if isinstance(x, SymInt)
                                     else str(self.bv(x).as_long())) for x in t]]
            else:
                raise RuntimeError(kind)
        return out


class Unobservable(Exception):
    pass


def bits32_to_float(b):
    import struct
    return struct.unpack("<f", struct.pack("<I", b))[0]


# ---- exploring one case -----------------------------------------------------------
def explore(case, prop, deadline, qt_ms, known, max_paths=None, keep=150):
    """Explore all paths of case; returns a plain dict."""
    e = Engine(query_timeout_ms=qt_ms)
    set_engine(e)
    e.deadline = deadline
    e.fs = None
    crcmodel.reset()
    t0 = time.time()
    res = dict(case=case["name"], violations=[], unknown=[], errors=[], labels=[],
               complete=False, paths=[], forward=0)
    fn = case["fn"]
    params = case.get("params", {})
    labels = set()
    nver = 0
    try:
        while True:
            e.start_path()
            e.fs = None
            ctx = SymCtx(e, known)
            viol = None
            try:
                e.get_model()
                fn(ctx, **params)
                model = e.get_model()
                e.stats["paths"] += 1
                labels |= ctx.labels
                if len(res["paths"]) < keep or e.stats["paths"] % 17 == 0 and \
                        len(res["paths"]) < 2 * keep:
                    rec = path_record(ctx, model)
                    if rec:
                        res["paths"].append(rec)
            except PathAbort:
                e.stats["aborted"] += 1
            except PathUnknown as ex:
                note(res["unknown"], ex.why)
            except Violation as v:
                e.stats["paths"] += 1
                viol = (v.msg, v.model)
            except (BudgetExceeded, KeyboardInterrupt):
                raise
            except core.TrialFork:
                note(res["errors"], "speculation escaped")
            except core.SubGiveUp:
                note(res["errors"], "merge give-up escaped")
            except z3.Z3Exception as ex:
                if os.environ.get("VERIF_DEBUG"):
                    traceback.print_exc()
                note(res["unknown"], "engine: " + safe(ex))
            except Exception as ex:
                # an exception nobody expected: a violation if it reproduces
                tb = "".join(traceback.format_exc().splitlines(True)[-12:])
                try:
                    viol = (f"unexpected {type(ex).__name__}: {safe(ex)}", e.get_model())
                    res.setdefault("tracebacks", []).append(tb)
                except Steer:
                    pass
            if viol:
                msg, model = viol
                ev = Evaluator(model)
                res["violations"].append(dict(msg=msg, inputs=ev.inputs(ctx.inputs)))
                if len(res["violations"]) >= case.get("max_violations", 3):
                    break
            if max_paths and e.stats["paths"] >= max_paths:
                note(res["unknown"], "path limit")
                break
            if not e.backtrack():
                res["complete"] = True
                break
    except BudgetExceeded:
        note(res["unknown"], "time budget")
    except z3.Z3Exception as ex:
        note(res["unknown"], "solver error: " + str(ex)[:200])
    except MemoryError:
        note(res["unknown"], "memory limit")
    except RuntimeError as ex:
        note(res["errors"], "engine: " + str(ex)[:300])
        res.setdefault("tracebacks", []).append(traceback.format_exc()[-1500:])
    res["unknown"] += e.incomplete
    res["labels"] = sorted(labels)
    res["stats"] = e.stats
    res["wall"] = time.time() - t0
    res["functions"] = sorted(e.functions)
    return res


def safe(ex):
    try:
        return str(ex)[:200]
    except BaseException:
        return "?"


def note(lst, why):
    if why not in lst and len(lst) < 20:
        lst.append(why)


def path_record(ctx, model):
    ev = Evaluator(model)
    obs = []
    for name, v in ctx.obs:
        try:
            obs.append([name, canon(ev.value(v))])
        except Unobservable:
            obs.append([name, "?"])
        except (OverflowError, ValueError):
            obs.append([name, "?"])
    return dict(inputs=ev.inputs(ctx.inputs), obs=obs)


# ---- worker -----------------------------------------------------------------------
def load_cases(prop, tier):
    mod = importlib.import_module("harness." + prop.lower())
    return mod, mod.cases(tier)


def _alarm(sig, frame):
    raise BudgetExceeded()


def worker(args):
    prop, tier, idx, budget, qt, known = args
    import resource
    loader.install()
    resource.setrlimit(resource.RLIMIT_AS, (10 << 30, 10 << 30))
    sys.setrecursionlimit(20000)
    mod, cases = load_cases(prop, tier)
    case = cases[idx]
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(budget) + 30)
    try:
        res = explore(case, prop, time.time() + budget, qt, known,
                      max_paths=case.get("max_paths"))
    except BudgetExceeded:
        res = dict(case=case["name"], violations=[], unknown=["hard time limit"], errors=[],
                   labels=[], complete=False, paths=[], stats={}, wall=budget, functions=[])
    except BaseException as ex:
        res = dict(case=case["name"], violations=[], unknown=[], labels=[],
                   errors=[f"{type(ex).__name__}: {ex}", traceback.format_exc()[-2000:]],
                   complete=False, paths=[], stats={}, wall=0, functions=[])
    finally:
        signal.alarm(0)
    res["idx"] = idx
    # replay on the real, uninstrumented code
    jobs = [dict(case=case["name"], tier=tier, inputs=v["inputs"], kind="violation")
            for v in res["violations"]] + \
           [dict(case=case["name"], tier=tier, inputs=p["inputs"], kind="path", obs=p["obs"])
            for p in res["paths"]]
    res["npaths_replayed"] = 0
    res["mismatch"] = []
    if jobs:
        out = replay(prop, jobs)
        if out is None:
            res["errors"].append("replay process failed")
        else:
            nv = len(res["violations"])
            for v, r in zip(res["violations"], out[:nv]):
                v["replay"] = r
            for p, r in zip(res["paths"], out[nv:]):
                res["npaths_replayed"] += 1
                if r.get("failed"):
                    # the real code fails where the model did not: report it as it is concrete
                    res["violations"].append(dict(msg=r["failed"], inputs=p["inputs"], replay=r,
                                                  found_by="replay"))
                elif r.get("mismatch"):
                    res["mismatch"].append(dict(inputs=p["inputs"], diff=r["mismatch"]))
    res["paths"] = res["paths"][:1]
    return res


def replay(prop, jobs, timeout=300):
    env = {k: v for k, v in os.environ.items() if not k.startswith("PYTHON")}
    env["VERIF_DIR"] = VERIF
    env["PYTHONDONTWRITEBYTECODE"] = "1"
    env["VERIF_SRC"] = loader.SRC
    try:
        p = subprocess.run([REALPY, "-B", os.path.join(VERIF, "concrete.py"), "--batch", prop],
                           input=json.dumps(jobs).encode(), capture_output=True, timeout=timeout,
                           env=env, cwd="/")
    except subprocess.TimeoutExpired:
        return None
    try:
        return json.loads(p.stdout.decode().splitlines()[-1])
    except Exception:
        sys.stderr.write(p.stdout.decode()[-1000:] + p.stderr.decode()[-3000:])
        return None


# ---- driver -------------------------------------------------------------------------
def run_property(prop, tier, jobs=None, only=None, verbose=False):
    t0 = time.time()
    loader.install()
    mod, cases = load_cases(prop, tier)
    kf = load_known(prop)
    idxs = [i for i, c in enumerate(cases) if only is None or only in c["name"]]
    total = float(os.environ.get("VERIF_BUDGET", 700 if tier == "quick" else 3300))
    grace = float(os.environ.get("VERIF_GRACE", 60))
    qt = 30000 if tier == "quick" else 120000
    default = 240 if tier == "quick" else 1500
    args = [(prop, tier, i, cases[i].get("budget", default), qt, [k["id"] for k in kf])
            for i in sorted(idxs, key=lambda i: -cases[i].get("weight", 1))]
    n = jobs or min(8, os.cpu_count() or 8, max(1, len(args)))
    results = []
    ctxm = mp.get_context("fork")
    with ctxm.Pool(n, maxtasksperchild=1) as pool:
        pend = [pool.apply_async(worker, (a,)) for a in args]
        todo = list(zip(args, pend))
        while todo:
            left = total - (time.time() - t0)
            rest = []
            for a, r in todo:
                if r.ready():
                    x = r.get()
                    results.append(x)
                    if x["violations"] and tier == "quick":
                        # enough is known: let the others have a little longer only
                        total = min(total, time.time() - t0 + grace)
                else:
                    rest.append((a, r))
            todo = rest
            if not todo:
                break
            if left <= 0:
                for a, _ in todo:
                    results.append(dict(case=cases[a[2]]["name"], idx=a[2], violations=[],
                                        unknown=["check time budget"], errors=[], labels=[],
                                        complete=False, paths=[], stats={}, wall=0, functions=[],
                                        npaths_replayed=0, mismatch=[]))
                break
            time.sleep(0.05)
        pool.terminate()
    results.sort(key=lambda r: r["idx"])
    return mod, cases, results, kf, time.time() - t0


def load_known(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        d = json.load(f)
    return [k for k in d.get("findings", []) if k["property"] == prop]
