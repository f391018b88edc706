"""Path-exploring engine: decisions, solver scopes, merging of pure code.

Python code is executed by CPython itself; symbolic inputs are proxy objects
(see values.py) whose operations build z3 terms.  Whenever the running code
needs a concrete truth value (or index, or hash) of a symbolic term, the engine
takes a *decision*: the z3 solver says which outcomes are feasible under the
path condition, one is followed, the rest are explored by re-execution.
"""
import time
import z3


class Steer(BaseException):
    """Base of the engine's own control flow (never caught by 'except Exception')."""


class PathAbort(Steer):
    """The path is infeasible / excluded by an assumption."""


class PathUnknown(Steer):
    """The path cannot be continued soundly: recorded as not covered."""

    def __init__(self, why):
        super().__init__(why)
        self.why = why


class TrialFork(Steer):
    """A decision was needed while evaluating speculatively."""


class SubGiveUp(Steer):
    """The block cannot be merged: run it with ordinary forking."""


class BudgetExceeded(Steer):
    pass


class Entry:
    __slots__ = ("kind", "key", "val", "alt", "altmodel", "expr", "scopes")

    def __init__(self, kind, key, val, alt=None, altmodel=None, expr=None, scopes=0):
        self.kind = kind
        self.key = key
        self.val = val
        self.alt = alt
        self.altmodel = altmodel
        self.expr = expr
        self.scopes = scopes


class Sub:
    """Solver-free enumeration of the syntactic paths of a pure block."""

    def __init__(self, outer):
        self.outer = outer
        self.log = []  # [expr, value, flipped]
        self.pos = 0
        self.known = {}

    def start(self):
        self.pos = 0
        self.known = {}

    def lookup(self, eid):
        s = self
        while s is not None:
            if eid in s.known:
                return s.known[eid]
            s = s.outer
        return None

    def branch(self, e):
        if self.pos < len(self.log):
            ent = self.log[self.pos]
            if not ent[0].eq(e):
                raise RuntimeError("nondeterministic pure block")
            self.pos += 1
            self.known[e.get_id()] = ent[1]
            return ent[1]
        if len(self.log) > 200:
            raise SubGiveUp()
        self.log.append([e, True, False])
        self.pos += 1
        self.known[e.get_id()] = True
        return True

    def next(self):
        while self.log:
            ent = self.log[-1]
            if not ent[2]:
                ent[1] = not ent[1]
                ent[2] = True
                return True
            self.log.pop()
        return False

    def cond(self):
        cs = [e if v else z3.Not(e) for e, v, _ in self.log[: self.pos]]
        if not cs:
            return z3.BoolVal(True)
        return z3.And(*cs) if len(cs) > 1 else cs[0]


class Engine:
    def __init__(self, query_timeout_ms=60000, max_values=300, merge_limit=64):
        self.qt = query_timeout_ms
        self.max_values = max_values
        self.merge_limit = merge_limit
        self.stats = dict(
            queries=0, solver_s=0.0, paths=0, decisions=0, forks=0, aborted=0,
            checks=0, unknown_queries=0, concretised=0, fallback=0, merged=0,
        )
        self.incomplete = []
        self.deadline = None
        self.functions = set()
        self.reset()

    # ------------------------------------------------------------------
    def reset(self):
        self.solver = z3.Solver()
        self.solver.set("timeout", self.qt)
        self.log = []
        self.pos = 0
        self.model = None
        self.known = {}
        self.ent = {}
        self.pins = {}
        self.sub = None
        self.trial = 0
        self.mseq = 0
        self.names = {}
        self.inputs = []
        self.side = {}

    # -- solver access ---------------------------------------------------
    def check(self, *extra):
        if self.deadline is not None and time.time() > self.deadline:
            raise BudgetExceeded()
        t = time.time()
        r = self.solver.check(*extra)
        self.stats["solver_s"] += time.time() - t
        self.stats["queries"] += 1
        if r == z3.unknown:
            self.stats["unknown_queries"] += 1
        return r

    def get_model(self):
        if self.model is None:
            r = self.check()
            if r == z3.unsat:
                raise PathAbort()
            if r == z3.unknown:
                raise PathUnknown("solver unknown on path condition")
            self.model = self.solver.model()
        return self.model

    def note_incomplete(self, why):
        if why not in self.incomplete:
            self.incomplete.append(why)

    # -- path bookkeeping --------------------------------------------------
    def start_path(self):
        self.pos = 0
        self.known = {}
        self.ent = {}
        self.pins = {}
        self.sub = None
        self.trial = 0
        self.mseq = 0
        self.names = {}
        self.inputs = []

    def fresh_name(self, hint):
        self.guard_speculation()
        n = self.names.get(hint, 0)
        self.names[hint] = n + 1
        return hint if n == 0 else f"{hint}!{n}"

    def _scope(self, *conds):
        self.solver.push()
        for c in conds:
            self.solver.add(c)

    def backtrack(self):
        """Move to the next unexplored alternative; False when exhausted."""
        while self.log:
            ent = self.log[-1]
            if ent.kind == "fork":
                self.solver.pop()
                if ent.alt is not None:
                    self._scope(ent.alt)
                    ent.val = not ent.val
                    self.model = ent.altmodel
                    ent.alt = None
                    ent.altmodel = None
                    self._drop_side()
                    return True
            elif ent.kind == "assume":
                self.solver.pop()
            elif ent.kind == "val":
                self.solver.pop()
                if ent.alt is not None:
                    seen = ent.alt
                    if len(seen) >= self.max_values:
                        self.note_incomplete("value enumeration limit")
                    else:
                        self.solver.push()
                        for s in seen:
                            self.solver.add(ent.expr != s)
                        try:
                            r = self.check()
                        except BudgetExceeded:
                            self.solver.pop()
                            raise
                        if r == z3.sat:
                            m = self.solver.model()
                            self.solver.pop()
                            v = m.eval(ent.expr, model_completion=True)
                            ent.val = v
                            seen.append(v)
                            self._scope(ent.expr == v)
                            self.model = m
                            self._drop_side()
                            return True
                        self.solver.pop()
                        if r == z3.unknown:
                            self.note_incomplete("solver unknown in enumeration")
            self.log.pop()
        return False

    def _drop_side(self):
        n = len(self.log)
        for k in [k for k in self.side if k >= n]:
            del self.side[k]

    def _aside(self, kind, e, ask):
        """Answer of a solver question asked while speculating: kept per log position, so
        that re-execution sees the same answer."""
        d = self.side.setdefault(self.pos, {})
        k = (kind, e.get_id())
        if k not in d:
            if self.pos < len(self.log):
                return None
            d[k] = (e, ask(e))
        return d[k][1]

    def _ask_entails(self, e):
        m = self.get_model()
        if not z3.is_true(m.eval(e, model_completion=True)):
            return False
        self.solver.push()
        self.solver.add(z3.Not(e))
        try:
            return self.check() == z3.unsat
        finally:
            self.solver.pop()

    def _ask_pin(self, e):
        v = self.get_model().eval(e, model_completion=True)
        self.solver.push()
        self.solver.add(e != v)
        try:
            return v if self.check() == z3.unsat else None
        finally:
            self.solver.pop()

    # -- decisions -----------------------------------------------------------
    def lookup(self, e):
        eid = e.get_id()
        s = self.sub
        while s is not None:
            if eid in s.known:
                return s.known[eid]
            s = s.outer
        return self.known.get(eid)

    def branch(self, e):
        """Truth value of the z3 Bool e on this path (may fork)."""
        if isinstance(e, bool):
            return e
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        neg = False
        while z3.is_not(e):
            e = e.arg(0)
            neg = not neg
        if z3.is_true(e):
            return not neg
        if z3.is_false(e):
            return neg
        k = self.lookup(e)
        if k is not None:
            return k != neg
        self.guard_speculation(sub_ok=True)
        if self.sub is not None:
            return self.sub.branch(e) != neg
        v = self._decide(e)
        self.known[e.get_id()] = v
        return v != neg

    def guard_speculation(self, sub_ok=False):
        if self.trial:
            raise TrialFork()
        if self.sub is not None and not sub_ok:
            raise SubGiveUp()

    def _decide(self, e):
        if self.pos < len(self.log):
            ent = self.log[self.pos]
            if ent.expr is None or not ent.expr.eq(e):
                raise RuntimeError(
                    f"nondeterministic execution: expected {ent.kind} got branch")
            self.pos += 1
            return ent.val
        self.stats["decisions"] += 1
        m = self.get_model()
        b = z3.is_true(m.eval(e, model_completion=True))
        taken, other = (e, z3.Not(e)) if b else (z3.Not(e), e)
        self.solver.push()
        self.solver.add(other)
        try:
            r = self.check()
        except BaseException:
            self.solver.pop()
            raise
        m2 = self.solver.model() if r == z3.sat else None
        self.solver.pop()
        if r == z3.unsat:
            self.log.append(Entry("forced", None, b, expr=e))
        elif r == z3.sat:
            self.stats["forks"] += 1
            self._scope(taken)
            self.log.append(Entry("fork", None, b, other, m2, expr=e))
        else:
            self.note_incomplete("solver unknown at a branch")
            self._scope(taken)
            self.log.append(Entry("fork", None, b, None, None, expr=e))
        self.pos += 1
        return b

    def concretise(self, e):
        """A concrete value (z3 numeral) of term e; every feasible value is explored."""
        self.guard_speculation()
        s = z3.simplify(e)
        if z3.is_bv_value(s) or z3.is_fp_value(s) or z3.is_true(s) or z3.is_false(s):
            return s
        if self.pos < len(self.log):
            ent = self.log[self.pos]
            if ent.kind != "val" or not ent.expr.eq(e):
                raise RuntimeError("nondeterministic execution (value)")
            self.pos += 1
            return ent.val
        self.stats["concretised"] += 1
        self.stats["decisions"] += 1
        m = self.get_model()
        v = m.eval(e, model_completion=True)
        self._scope(e == v)
        self.log.append(Entry("val", None, v, [v], None, expr=e))
        self.pos += 1
        return v

    def assume(self, e):
        if isinstance(e, bool):
            if not e:
                self.abort()
            return
        if z3.is_true(e):
            return
        self.guard_speculation()
        if self.pos < len(self.log):
            ent = self.log[self.pos]
            if ent.kind != "assume" or not ent.expr.eq(e):
                raise RuntimeError("nondeterministic execution (assume)")
            self.pos += 1
            return
        self._scope(e)
        self.log.append(Entry("assume", None, True, expr=e))
        self.pos += 1
        if self.model is not None:
            if not z3.is_true(self.model.eval(e, model_completion=True)):
                self.model = None
        self.get_model()

    def abort(self):
        raise PathAbort()

    def prove(self, e):
        """None when PC => e; a model of PC & !e otherwise; 'unknown' possible."""
        if isinstance(e, bool):
            if e:
                return None
            return self.get_model()
        if z3.is_true(e):
            return None
        self.guard_speculation()
        if self.pos < len(self.log):
            ent = self.log[self.pos]
            if ent.kind != "prove" or not ent.expr.eq(e):
                raise RuntimeError("nondeterministic execution (prove)")
            self.pos += 1
            return ent.val
        # the current model may already refute it
        if z3.is_true(z3.simplify(e)):
            self.log.append(Entry("prove", None, None, expr=e))
            self.pos += 1
            return None
        m = self.get_model()
        if z3.is_false(m.eval(e, model_completion=True)):
            res = m
        else:
            self.solver.push()
            self.solver.add(z3.Not(e))
            try:
                r = self.check()
                if r == z3.sat:
                    res = self.solver.model()
                elif r == z3.unsat:
                    res = None
                else:
                    res = "unknown"
            finally:
                self.solver.pop()
        self.log.append(Entry("prove", None, res, expr=e))
        self.pos += 1
        return res

    def entails(self, e):
        """Does the path condition imply e?  (False when that is not settled.)"""
        if z3.is_true(e):
            return True
        if z3.is_false(e):
            return False
        k = self.ent.get(e.get_id())
        if k is not None:
            return k[1]
        res = bool(self._question("entail", e, self._ask_entails))
        if res:
            self.ent[e.get_id()] = (e, res)
        return res

    def pinned(self, e):
        """The one value (z3 numeral) the path condition leaves for e, or None."""
        k = self.pins.get(e.get_id())
        if k is not None:
            return k[1]
        res = self._question("pin", e, self._ask_pin)
        if res is not None:
            self.pins[e.get_id()] = (e, res)
        return res

    def _question(self, kind, e, ask):
        if self.trial or self.sub is not None:
            return self._aside(kind, e, ask)
        if self.pos < len(self.log):
            ent = self.log[self.pos]
            if ent.kind != kind or not ent.expr.eq(e):
                raise RuntimeError(f"nondeterministic execution ({kind})")
            self.pos += 1
            return ent.val
        res = ask(e)
        self.log.append(Entry(kind, None, res, expr=e))
        self.pos += 1
        return res

    # -- merging ------------------------------------------------------------
    def merge_block(self, thunk):
        """Run a side-effect-free thunk, joining its internal branches."""
        top = self.sub is None and not self.trial
        if top:
            self.mseq += 1
            seq = self.mseq
            if self.pos < len(self.log):
                ent = self.log[self.pos]
                if ent.kind == "memo" and ent.alt == seq:
                    self.pos += 1
                    if ent.key == "giveup":
                        return thunk()
                    return self._deliver(ent.val)
        from .values import merge_key, merge_values

        saved_sub, saved_trial = self.sub, self.trial
        sub = Sub(saved_sub)
        outs = []
        gave_up = False
        try:
            self.sub = sub
            self.trial = 0
            while True:
                sub.start()
                try:
                    r = ("v", thunk())
                except Exception as ex:
                    r = ("x", ex)
                if sub.pos == 0:
                    outs = [(None, r)]
                    break
                outs.append((sub.cond(), r))
                if len(outs) > self.merge_limit:
                    raise SubGiveUp()
                if not sub.next():
                    break
        except (SubGiveUp, PathUnknown):
            gave_up = True
        finally:
            self.sub, self.trial = saved_sub, saved_trial
        if gave_up:
            self.guard_speculation()
            self.log.append(Entry("memo", "giveup", None, alt=seq))
            self.pos += 1
            return thunk()
        if len(outs) == 1 and outs[0][0] is None:
            k, v = outs[0][1]
            if k == "x":
                raise v
            return v
        groups = {}
        for cond, (k, v) in outs:
            key = ("x", id(v)) if k == "x" else merge_key(v)
            groups.setdefault(key, []).append((cond, k, v))
        res = []
        for key, items in groups.items():
            cond = z3.Or(*[c for c, _, _ in items]) if len(items) > 1 else items[0][0]
            k, v = items[-1][1], items[-1][2]
            for c, _, vv in reversed(items[:-1]):
                v = merge_values(c, vv, v)
            res.append((cond, k, v))
        self.stats["merged"] += 1
        if top:
            self.log.append(Entry("memo", "ok", res, alt=seq))
            self.pos += 1
        return self._deliver(res)

    def _deliver(self, res):
        for cond, k, v in res[:-1]:
            if self.branch(cond):
                if k == "x":
                    raise v
                return v
        cond, k, v = res[-1]
        if k == "x":
            raise v
        return v

    def try_eval(self, thunk):
        """(True, value) if thunk evaluates with no decision and no exception."""
        self.trial += 1
        saved_sub = self.sub
        try:
            return True, thunk()
        except (TrialFork, SubGiveUp, PathUnknown):
            return False, None
        except Exception:
            return False, None
        finally:
            self.trial -= 1
            self.sub = saved_sub


ENGINE = Engine()


def eng():
    return ENGINE


def set_engine(e):
    global ENGINE
    ENGINE = e
