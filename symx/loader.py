"""Import hook: loads the real sources with every call, boolean operation,
format and subscript routed through the symbolic dispatchers.

The code that runs is /repo's current text; the rewriting is local and
semantics-preserving (with only concrete values it behaves as the original).
"""
import ast
import importlib.abc
import importlib.machinery
import importlib.util
import os
import sys

from . import handlers
from .core import eng

SRC = os.environ.get("VERIF_SRC", "/repo/src")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

PURE_BUILTINS = {"int", "float", "abs", "len", "min", "max", "bool", "ord", "chr", "round",
                 "isinstance", "range", "divmod", "str"}
PURE_NP = {"int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64", "float32",
           "float64", "bitwise_and", "bitwise_or", "bitwise_xor", "left_shift", "right_shift",
           "iinfo", "abs", "floor", "ceil", "trunc", "fabs", "isnan", "isinf"}
RAW_CALLS = {"super", "locals", "globals", "eval", "exec", "vars", "dir", "__sx_fn__"}
EXC_SUFFIX = ("Error", "Exception")


def has(node, *types):
    return any(isinstance(n, types) for n in ast.walk(node))


def blocked_thunk(node):
    """Must not be moved into a lambda."""
    for n in ast.walk(node):
        if isinstance(n, (ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await)):
            return True
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and \
                n.func.id in ("super", "locals", "vars", "dir", "eval", "exec"):
            return True
        if isinstance(n, ast.Name) and n.id == "__class__":
            return True
    return False


class Purity:
    def __init__(self):
        self.pure_funcs = set()   # "module:name"
        self.impure_props = set()

    def scan(self, trees):
        props = {}
        for mod, tree in trees.items():
            for n in ast.walk(tree):
                if isinstance(n, ast.FunctionDef) and any(
                        isinstance(d, ast.Name) and d.id in ("property", "cached_property")
                        for d in n.decorator_list):
                    props.setdefault(n.name, []).append(n)
        # any property whose body does more than return a pure expression is impure
        self.impure_props = set(props)
        changed = True
        while changed:
            changed = False
            for name, defs in props.items():
                if name in self.impure_props and all(self.pure_body(d, None) for d in defs):
                    self.impure_props.discard(name)
                    changed = True
        self.imports = {}
        funcs = {}
        for mod, tree in trees.items():
            imp = {}
            for n in ast.walk(tree):
                if isinstance(n, ast.ImportFrom):
                    for a in n.names:
                        m = (n.module or "").split(".")[-1]
                        imp[a.asname or a.name] = f"{m}:{a.name}"
            self.imports[mod] = imp
            for n in tree.body:
                if isinstance(n, ast.FunctionDef):
                    funcs[f"{mod}:{n.name}"] = (mod, n)
        self.pure_funcs = set(funcs)
        changed = True
        while changed:
            changed = False
            for k in list(self.pure_funcs):
                mod, n = funcs[k]
                if n.decorator_list or not self.pure_body(n, mod):
                    self.pure_funcs.discard(k)
                    changed = True

    def fname(self, mod, name):
        k = f"{mod}:{name}"
        if k in self.pure_funcs:
            return True
        return getattr(self, "imports", {}).get(mod, {}).get(name) in self.pure_funcs

    def pure_body(self, fn, mod):
        if has(fn, ast.Yield, ast.YieldFrom, ast.Await, ast.Global, ast.Nonlocal, ast.Lambda,
               ast.With, ast.Try, ast.Delete, ast.Import, ast.ImportFrom):
            return False
        return all(self.stmt(s, mod, True) for s in fn.body)

    def stmt(self, s, mod, infn):
        E = lambda x: x is None or self.expr(x, mod)
        if isinstance(s, ast.Assign):
            return all(self.target(t) for t in s.targets) and E(s.value)
        if isinstance(s, ast.AugAssign):
            return isinstance(s.target, ast.Name) and E(s.value) and \
                not isinstance(s.value, (ast.List, ast.Tuple))
        if isinstance(s, ast.AnnAssign):
            return isinstance(s.target, ast.Name) and E(s.value)
        if isinstance(s, ast.If):
            return E(s.test) and all(self.stmt(x, mod, infn) for x in s.body + s.orelse)
        if isinstance(s, ast.Pass):
            return True
        if isinstance(s, ast.Expr):
            return isinstance(s.value, ast.Constant)
        if not infn:
            return False
        if isinstance(s, ast.Return):
            return E(s.value)
        if isinstance(s, ast.Raise):
            return E(s.exc) if s.cause is None else False
        if isinstance(s, (ast.While,)):
            return E(s.test) and all(self.stmt(x, mod, infn) for x in s.body + s.orelse)
        if isinstance(s, ast.For):
            return self.target(s.target) and E(s.iter) and \
                all(self.stmt(x, mod, infn) for x in s.body + s.orelse)
        if isinstance(s, (ast.Break, ast.Continue)):
            return True
        if isinstance(s, ast.Assert):
            return E(s.test)
        return False

    def target(self, t):
        if isinstance(t, ast.Name):
            return True
        return isinstance(t, (ast.Tuple, ast.List)) and all(self.target(x) for x in t.elts)

    def expr(self, e, mod):
        R = lambda x: self.expr(x, mod)
        if isinstance(e, (ast.Constant, ast.Name)):
            return True
        if isinstance(e, ast.Attribute):
            return e.attr not in self.impure_props and R(e.value)
        if isinstance(e, ast.Subscript):
            return R(e.value) and R(e.slice)
        if isinstance(e, ast.Slice):
            return all(R(x) for x in (e.lower, e.upper, e.step) if x is not None)
        if isinstance(e, ast.BinOp):
            return R(e.left) and R(e.right)
        if isinstance(e, ast.UnaryOp):
            return R(e.operand)
        if isinstance(e, ast.BoolOp):
            return all(map(R, e.values))
        if isinstance(e, ast.Compare):
            return R(e.left) and all(map(R, e.comparators))
        if isinstance(e, ast.IfExp):
            return R(e.test) and R(e.body) and R(e.orelse)
        if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
            return all(map(R, e.elts))
        if isinstance(e, ast.JoinedStr):
            return all(R(v) for v in e.values)
        if isinstance(e, ast.FormattedValue):
            return R(e.value) and (e.format_spec is None or R(e.format_spec))
        if isinstance(e, ast.Call):
            if not all(R(a) for a in e.args) or not all(R(k.value) for k in e.keywords):
                return False
            if any(isinstance(a, ast.Starred) for a in e.args):
                return False
            f = e.func
            if isinstance(f, ast.Name):
                return f.id in PURE_BUILTINS or f.id.endswith(EXC_SUFFIX) or \
                    self.fname(mod, f.id)
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name):
                if f.value.id in ("np", "numpy"):
                    return f.attr in PURE_NP
                if f.value.id == "math":
                    return True
            return False
        return False


class Rewriter(ast.NodeTransformer):
    def __init__(self, mod, purity, merge=True):
        self.mod = mod
        self.purity = purity
        self.depth = 0         # function nesting
        self.cls = 0           # directly inside a class body
        self.qual = []
        self.n = 0
        self.merge = merge
        self.scoped = []       # names declared global / nonlocal

    # ---- scopes
    def visit_FunctionDef(self, node):
        pure = f"{self.mod}:{node.name}" in self.purity.pure_funcs and not self.qual
        self.qual.append(node.name)
        saved = self.cls
        self.cls = 0
        self.depth += 1
        decl = set()
        for n in ast.walk(node):
            if isinstance(n, (ast.Global, ast.Nonlocal)):
                decl |= set(n.names)
        self.scoped.append(decl)
        body = []
        for s in node.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.scoped.pop()
        self.depth -= 1
        self.cls = saved
        mark = ast.Expr(ast.Call(ast.Name("__sx_fn__", ast.Load()),
                                 [ast.Constant(f"{self.mod}.{'.'.join(self.qual)}")], []))
        first = 1 if body and isinstance(body[0], ast.Expr) and \
            isinstance(body[0].value, ast.Constant) else 0
        node.body = body[:first] + [mark] + body[first:]
        self.qual.pop()
        if pure:
            node.decorator_list = node.decorator_list + [ast.Name("__sx_pure_mark__", ast.Load())]
        return node

    visit_AsyncFunctionDef = visit_FunctionDef

    def visit_ClassDef(self, node):
        saved_depth, saved_cls = self.depth, self.cls
        self.depth, self.cls = 0, 1
        self.qual.append(node.name)
        node.body = [self.visit(s) for s in node.body]
        node.body = [y for x in node.body for y in (x if isinstance(x, list) else [x])]
        self.qual.pop()
        self.depth, self.cls = saved_depth, saved_cls
        return node

    def visit_Lambda(self, node):
        self.depth += 1
        node.body = self.visit(node.body)
        self.depth -= 1
        return node

    def on(self):
        return self.depth > 0

    def call(self, name, args):
        return ast.Call(ast.Name(name, ast.Load()), args, [])

    def thunk(self, e):
        return ast.Lambda(ast.arguments([], [], None, [], [], None, []), e)

    # ---- expressions
    def visit_Call(self, node):
        raw = isinstance(node.func, ast.Name) and node.func.id in RAW_CALLS
        self.generic_visit(node)
        if not self.on() or raw:
            return node
        return ast.copy_location(
            ast.Call(ast.Name("__sx_call__", ast.Load()), [node.func] + node.args,
                     node.keywords), node)

    def visit_JoinedStr(self, node):
        self.generic_visit(node)
        if not self.on():
            return node
        args = []
        for v in node.values:
            if isinstance(v, ast.Constant):
                args.append(v)
            else:
                conv = ast.Constant(None if v.conversion == -1 else chr(v.conversion))
                spec = v.format_spec
                if spec is None:
                    spec = ast.Constant("")
                elif isinstance(spec, ast.JoinedStr):
                    if all(isinstance(x, ast.Constant) for x in spec.values):
                        spec = ast.Constant("".join(x.value for x in spec.values))
                args.append(ast.Tuple([v.value, conv, spec], ast.Load()))
        return ast.copy_location(self.call("__sx_fstr__", args), node)

    def visit_BinOp(self, node):
        self.generic_visit(node)
        if self.on() and isinstance(node.op, ast.Mod):
            return ast.copy_location(self.call("__sx_mod__", [node.left, node.right]), node)
        return node

    def visit_BoolOp(self, node):
        blocked = blocked_thunk(node)
        self.generic_visit(node)
        if not self.on() or blocked:
            return node
        f = "__sx_and__" if isinstance(node.op, ast.And) else "__sx_or__"
        return ast.copy_location(self.call(f, [self.thunk(v) for v in node.values]), node)

    def visit_UnaryOp(self, node):
        self.generic_visit(node)
        if self.on() and isinstance(node.op, ast.Not):
            return ast.copy_location(self.call("__sx_not__", [node.operand]), node)
        return node

    def visit_IfExp(self, node):
        blocked = blocked_thunk(node)
        self.generic_visit(node)
        if not self.on() or blocked:
            return node
        return ast.copy_location(self.call("__sx_ifexp__", [
            node.test, self.thunk(node.body), self.thunk(node.orelse)]), node)

    OPS = {ast.Lt: "lt", ast.LtE: "le", ast.Gt: "gt", ast.GtE: "ge", ast.Eq: "eq",
           ast.NotEq: "ne", ast.Is: "is", ast.IsNot: "isnot", ast.In: "in", ast.NotIn: "notin"}

    def visit_Compare(self, node):
        blocked = blocked_thunk(node)
        self.generic_visit(node)
        if not self.on():
            return node
        if len(node.ops) == 1:
            if isinstance(node.ops[0], ast.In):
                return ast.copy_location(
                    self.call("__sx_in__", [node.left, node.comparators[0]]), node)
            if isinstance(node.ops[0], ast.NotIn):
                return ast.copy_location(self.call("__sx_not__", [
                    self.call("__sx_in__", [node.left, node.comparators[0]])]), node)
            return node
        if blocked:
            return node
        args = [node.left]
        for op, c in zip(node.ops, node.comparators):
            args += [ast.Constant(self.OPS[type(op)]), self.thunk(c)]
        return ast.copy_location(self.call("__sx_cmp__", args), node)

    def visit_Subscript(self, node):
        self.generic_visit(node)
        if not self.on() or not isinstance(node.ctx, ast.Load):
            return node
        sl = node.slice
        if isinstance(sl, ast.Slice):
            none = lambda x: x if x is not None else ast.Constant(None)
            sl = ast.Call(ast.Name("__sx_slice__", ast.Load()),
                          [none(sl.lower), none(sl.upper), none(sl.step)], [])
        elif isinstance(sl, ast.Tuple) and has(sl, ast.Slice):
            return node
        return ast.copy_location(self.call("__sx_getitem__", [node.value, sl]), node)

    # annotations stay as written
    def visit_AnnAssign(self, node):
        if node.value is not None:
            node.value = self.visit(node.value)
        node.target = self.visit(node.target)
        return node

    def visit_arguments(self, node):
        return node

    # ---- statements
    def visit_ExceptHandler(self, node):
        self.generic_visit(node)
        t = node.type
        broad = t is None or any(isinstance(n, ast.Name) and n.id == "BaseException"
                                 for n in ast.walk(t))
        if broad:
            node.body = [ast.Expr(self.call("__sx_exc__", []))] + node.body
        return node

    def visit_If(self, node):
        names = self.mergeable(node) if self.merge and self.on() else None
        self.generic_visit(node)
        if not names:
            return node
        self.n += 1
        fn = f"__sx_m{self.n}"
        names = sorted(names)
        args = ast.arguments([], [ast.arg(x) for x in names], None, [], [], None, [])
        def get(x):
            return self.call("__sx_get__", [self.thunk(ast.Name(x, ast.Load()))])

        def drop(x):
            return ast.If(ast.Compare(ast.Name(x, ast.Load()), [ast.Is()],
                                      [ast.Name("__sx_unbound__", ast.Load())]),
                          [ast.Delete([ast.Name(x, ast.Del())])], [])
        ret = ast.Return(ast.Tuple([get(x) for x in names], ast.Load()))
        d = ast.FunctionDef(fn, args, [drop(x) for x in names] + [node, ret], [], None, None)
        d.type_params = []
        call = self.call("__sx_merge__", [ast.Name(fn, ast.Load())] + [get(x) for x in names])
        asg = ast.Assign([ast.Tuple([ast.Name(x, ast.Store()) for x in names], ast.Store())], call)
        out = [d, asg] + [drop(x) for x in names]
        for s in out:
            ast.copy_location(s, node)
        return out

    def mergeable(self, node):
        """Assigned names when the whole if-statement is pure, else None."""
        if has(node, ast.NamedExpr, ast.Yield, ast.YieldFrom, ast.Await, ast.Lambda,
               ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp):
            return None
        if not self.purity.stmt(node, self.mod, False):
            return None
        names = set()
        for n in ast.walk(node):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                names.add(n.id)
            if isinstance(n, (ast.List, ast.Dict, ast.Set)) and isinstance(
                    getattr(n, "ctx", ast.Load()), ast.Load):
                return None
        if not names or any(names & s for s in self.scoped):
            return None
        if any(x.startswith("__") for x in names):
            return None
        return names


def sx_slice(a, b, c):
    return slice(a, b, c)


def pure_mark(f):
    f.__sx_pure__ = True
    return f


def sx_fn(name):
    eng().functions.add(name)


_PURITY = {}


def purity_for(root, files):
    key = root
    if key not in _PURITY:
        trees = {}
        for f in files:
            try:
                trees[os.path.splitext(os.path.basename(f))[0]] = ast.parse(open(f).read())
            except SyntaxError:
                pass
        p = Purity()
        p.scan(trees)
        _PURITY[key] = p
    return _PURITY[key]


class SymLoader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        src = self.get_data(path)
        tree = ast.parse(src, path)
        d = os.path.dirname(path)
        files = [os.path.join(d, f) for f in sorted(os.listdir(d)) if f.endswith(".py")] \
            if fullname.split(".")[0] in ("simplemseed", "harness") else [path]
        pur = purity_for(fullname.split(".")[0], files)
        mod = os.path.splitext(os.path.basename(path))[0]
        tree = Rewriter(mod, pur, merge=fullname.split(".")[0] != "jsonpointer").visit(tree)
        ast.fix_missing_locations(tree)
        return compile(tree, path, "exec", dont_inherit=True)

    def exec_module(self, module):
        module.__dict__.update(handlers.NAMES)
        module.__dict__["__sx_slice__"] = sx_slice
        module.__dict__["__sx_pure_mark__"] = pure_mark
        module.__dict__["__sx_fn__"] = sx_fn
        exec(self.get_code(module.__name__), module.__dict__)


SITE = "/opt/venv/lib/python3.12/site-packages"


class Finder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path=None, target=None):
        top = name.split(".")[0]
        if top == "simplemseed":
            base = SRC
        elif top == "harness":
            base = VERIF
        elif name == "jsonpointer":
            base = SITE
        else:
            return None
        p = os.path.join(base, *name.split("."))
        if os.path.isdir(p):
            f = os.path.join(p, "__init__.py")
            if not os.path.exists(f):
                return None
            return importlib.util.spec_from_file_location(
                name, f, loader=SymLoader(name, f), submodule_search_locations=[p])
        f = p + ".py"
        if not os.path.exists(f):
            return None
        return importlib.util.spec_from_file_location(name, f, loader=SymLoader(name, f))


_installed = False


def install():
    global _installed
    if _installed:
        return
    _installed = True
    sys.dont_write_bytecode = True
    if SITE not in sys.path:
        sys.path.append(SITE)
    handlers.install()
    sys.meta_path.insert(0, Finder())
