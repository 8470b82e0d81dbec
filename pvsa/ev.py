"""Gated value graph (gated SSA) construction for Python and Cython sources.

The builder walks the syntax tree once.  Branches are merged with gates
(`ite`), calls to resolvable project functions are expanded in place, loops
become Loop nodes whose carried variables are phi terms: a loop body is looked
at once, never iterated.  No path is enumerated and nothing is executed.

The result of a function is a Summary: return value, exceptions, final heap
and the ordered, guarded effects.
"""
import ast

from .load import AnalysisError
from .terms import (T, mk, const, TRUE, FALSE, NONE, UNDEF, not_, and_, or_, ite, walk)


class Unsupported(Exception):
    pass


class FuncRef:
    cache = {}

    def __init__(self, d, module, cls=None, env=None, owner=None):
        self.d, self.module, self.cls, self.env, self.owner = d, module, cls, env, owner

    @classmethod
    def of(cls, d, module, c=None):
        k = id(d)
        if k not in cls.cache:
            cls.cache[k] = (cls(d, module, c), d)
        return cls.cache[k][0]

    @property
    def name(self):
        return getattr(self.d, "name", "<lambda>")

    def __repr__(self):
        return self.name


class ClassRef:
    cache = {}

    def __init__(self, d):
        self.d, self.name = d, d.name

    @classmethod
    def of(cls, d):
        if id(d) not in cls.cache:
            cls.cache[id(d)] = (cls(d), d)
        return cls.cache[id(d)][0]

    def __repr__(self):
        return self.name


class ModRef:
    cache = {}

    def __init__(self, m):
        self.m = m

    @classmethod
    def of(cls, m):
        if id(m) not in cls.cache:
            cls.cache[id(m)] = (cls(m), m)
        return cls.cache[id(m)][0]


class Effect:
    def __init__(self, kind, guard, payload, loops, line, where):
        self.kind, self.guard, self.payload = kind, guard, payload
        self.loops, self.line, self.where = loops, line, where


class Loop:
    def __init__(self, outer, guard, line, where):
        self.outer, self.guard, self.line, self.where = outer, guard, line, where
        self.keys, self.init, self.nxt = [], {}, {}
        self.cond = TRUE
        self.brk, self.brkvals = FALSE, {}
        self.exits = []
        self.effects = []
        self.bound = ()       # variables the body rebinds


class Binder:
    """A lambda: parameters are phi(B, i)."""
    def __init__(self, n):
        self.n, self.outer, self.effects = n, frozenset(), []
        self.body = None


class Exit:
    def __init__(self, kind, guard, value, st, line=0):
        self.kind, self.guard, self.value, self.st, self.line = kind, guard, value, st, line


class State:
    __slots__ = ("vars", "objs", "heap", "guard")

    def __init__(self):
        self.vars, self.objs, self.heap, self.guard = {}, {}, {}, TRUE

    def copy(self):
        s = State()
        s.vars, s.objs, s.heap, s.guard = dict(self.vars), dict(self.objs), dict(self.heap), self.guard
        return s

    def set(self, o):
        self.vars, self.objs, self.heap, self.guard = o.vars, o.objs, o.heap, o.guard


class Frame:
    def __init__(self, fref, cls=None):
        self.fref, self.cls = fref, cls
        self.module = fref.module
        self.exits = []
        self.boxed = set()
        self.trys = 0
        self.is_gen = False
        self.enc = {}       # enclosing function -> its variables


class Summary:
    """What a function does."""
    def __init__(self):
        self.ret = NONE
        self.raises = []      # (guard, exception class name, line)
        self.heap = {}
        self.objs = {}
        self.effects = []
        self.returns = FALSE  # guard of a normal return
        self.fref = None


MATH = {"sqrt", "sin", "cos", "tan", "arcsin", "arccos", "arctan2", "log", "exp", "floor", "ceil", "abs"}
EXT = {}
for _n in ("sqrt", "sin", "cos", "tan", "log", "exp", "floor", "ceil"):
    for _p in ("numpy.", "math.", "libc."):
        EXT[_p + _n] = _n
for _a, _b in (("asin", "arcsin"), ("acos", "arccos"), ("atan2", "arctan2"), ("fabs", "abs")):
    EXT["math." + _a] = EXT["libc." + _a] = EXT["numpy." + _b] = _b
for _a in ("arcsin", "arccos", "arctan2"):
    EXT["numpy." + _a] = _a
for _a in ("sinh", "cosh", "tanh", "log10", "log2", "log1p", "expm1", "exp2", "cbrt", "trunc", "hypot", "fmod"):
    for _p in ("numpy.", "math.", "libc."):
        EXT[_p + _a] = _a
for _a in ("sinh", "cosh", "tanh"):
    EXT["numpy.arc" + _a] = EXT["math.a" + _a] = EXT["libc.a" + _a] = "arc" + _a
EXT["numpy.arctan"] = EXT["math.atan"] = EXT["libc.atan"] = "arctan"
EXT["numpy.rint"] = EXT["libc.rint"] = EXT["libc.nearbyint"] = "rint"
EXT["numpy.abs"] = EXT["numpy.absolute"] = EXT["numpy.fabs"] = "abs"
CONSTS = {"numpy.pi": 3.141592653589793, "numpy.inf": float("inf"), "math.pi": 3.141592653589793,
          "math.inf": float("inf"), "libc.M_PI": 3.141592653589793, "libc.INFINITY": float("inf"),
          "numpy.nan": float("nan"), "math.nan": float("nan"), "numpy.Inf": float("inf"),
          "os.linesep": "\n", "os.sep": "/", "os.path.sep": "/", "os.pathsep": ":", "os.curdir": ".", "os.pardir": "..", "os.altsep": None, "os.extsep": ".", "os.devnull": "/dev/null", "os.name": "posix", "numpy.float64": None, "math.e": 2.718281828459045}
CONSTS.pop("numpy.float64")

BUILTINS = {"len", "range", "enumerate", "zip", "map", "filter", "sorted", "list", "tuple", "set", "dict",
            "float", "int", "str", "bool", "abs", "min", "max", "sum", "any", "all", "isinstance", "getattr",
            "hasattr", "print", "open", "type", "iter", "next", "reversed", "repr", "callable", "super",
            "round", "setattr", "frozenset", "hash", "id", "input", "divmod", "issubclass", "vars", "bytes",
            "property", "object", "format", "ord", "chr", "pow", "slice", "Exception", "ValueError",
            "KeyError", "TypeError", "RuntimeError", "NotImplementedError", "IndexError", "ImportError",
            "StopIteration", "FileNotFoundError", "OSError", "IOError", "AttributeError", "AssertionError",
            "UserWarning", "DeprecationWarning", "KeyboardInterrupt", "BaseException", "ZeroDivisionError",
            "PermissionError", "UnicodeDecodeError", "ModuleNotFoundError", "SystemExit", "LookupError",
            "ArithmeticError", "GeneratorExit", "FileExistsError"}
LIBC = {"sqrt", "sin", "cos", "acos", "asin", "log", "fabs", "INFINITY", "M_PI", "exp", "floor", "ceil"}

# methods of unknown receivers whose call is an effect even when its value is used
EFFECT_METHODS = {"run_in_executor", "send_json", "put", "is_set", "empty", "get_nowait", "put_nowait", "execute", "executemany", "commit", "rollback", "fetchone",
                  "fetchall", "fetchmany", "write", "read", "close", "remove", "unlink", "start", "join_thread",
                  "terminate", "receive_json", "send_json", "receive_text", "send_text", "accept", "apply_async",
                  "write_text", "write_bytes", "read_text", "read_bytes", "mkdir", "rename", "replace_file",
                  "acquire", "release", "cancel", "set_result", "flush", "seek", "writelines", "touch"}
EFFECT_EXT = {"os.remove", "os.unlink", "os.rename", "os.replace", "os.makedirs", "time.sleep", "open",
              "input", "typer.confirm", "typer.prompt", "sqlite3.connect", "time.time", "time.perf_counter",
              "os.getpid", "uuid.uuid4", "shutil.rmtree", "numpy.random.seed", "next", "typer.echo", "asyncio.wait", "asyncio.create_task", "asyncio.gather",
              "tempfile.NamedTemporaryFile", "tempfile.mkdtemp", "tempfile.mkstemp"}
IGNORED_CALLS = ("logger.", "logging.", "warnings.")
MUTATORS = {"append", "extend", "insert", "pop", "sort", "reverse", "clear", "update", "setdefault", "add",
            "discard", "fill", "appendleft", "popleft", "remove"}
PURE_CASTS = {"numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "float", "tuple", "list", "numpy.float64",
              "numpy.asfarray", "iter", "numpy.copy", "copy.copy", "numpy.atleast_1d_"}
DISPATCH_EXEMPT = {"append", "get", "copy", "items", "keys", "values", "pop", "update", "close", "join", "start",
                   "add", "sort", "index", "count", "format", "split", "strip", "put", "read", "write", "sum",
                   "lower", "upper", "remove", "show", "extend", "insert", "send", "exists", "dot", "tolist", "reshape"}


LOCALS = {}


def locals_of(d):
    """Names a function binds by plain assignment, hence local to it."""
    if not isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return ()
    r = LOCALS.get(id(d))
    if r is not None and r[0] is d:
        return r[1]
    names, outer = set(), set()

    def scan(n):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda, ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
                continue
            if isinstance(c, (ast.Global, ast.Nonlocal)):
                outer.update(c.names)
            ts = c.targets if isinstance(c, ast.Assign) else [c.target] if isinstance(c, ast.For) else []
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store):
                        names.add(x.id)
            scan(c)
    scan(d)
    names -= outer
    LOCALS[id(d)] = (d, names)
    return names


def assigned(nodes):
    out = []

    def tgt(t):
        if isinstance(t, ast.Name):
            if t.id not in out:
                out.append(t.id)
        elif isinstance(t, (ast.Tuple, ast.List)):
            for x in t.elts:
                tgt(x)
        elif isinstance(t, ast.Starred):
            tgt(t.value)
        elif isinstance(t, ast.Subscript):
            b = t.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                tgt(b)

    def rec(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.AsyncFunctionDef)):
            if hasattr(n, "name"):
                tgt(ast.Name(n.name))
            return
        if isinstance(n, ast.Assign):
            for t in n.targets:
                tgt(t)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign, ast.NamedExpr, ast.For, ast.AsyncFor)):
            tgt(n.target)
        elif isinstance(n, ast.Delete):
            for t in n.targets:
                if isinstance(t, ast.Subscript):
                    tgt(t)
        elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS:
            b = n.func.value
            while isinstance(b, ast.Subscript):
                b = b.value
            if isinstance(b, ast.Name):
                tgt(b)
        elif isinstance(n, ast.Call) and CHANGERS:
            for b in passed(n):
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name):
                    tgt(b)
        elif isinstance(n, ast.withitem) and n.optional_vars is not None:
            tgt(n.optional_vars)
        elif isinstance(n, ast.ExceptHandler) and n.name:
            tgt(ast.Name(n.name))
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                tgt(ast.Name(a.asname or a.name.split(".")[0]))
        for c in ast.iter_child_nodes(n):
            rec(c)
    for n in nodes:
        rec(n)
    # containers whose parts are changed through another name
    views = {}
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                r = view_root(x.value)
                if r is not None:
                    views.setdefault(x.targets[0].id, set()).add(r)
            elif isinstance(x, (ast.For, ast.AsyncFor)):
                r = view_root(x.iter)
                if r is not None:
                    for y in ast.walk(x.target):
                        if isinstance(y, ast.Name):
                            views.setdefault(y.id, set()).add(r)
    if views:
        todo = [x for x in changed(nodes) if x in views]
        while todo:
            for r in sorted(views.pop(todo.pop(), ())):
                if r not in out:
                    out.append(r)
                todo.append(r)
    return out


def changed(nodes):
    """Names of containers changed in place by item stores, deletions or methods."""
    out = []
    for n in nodes:
        for x in ast.walk(n):
            bs = [None]
            if isinstance(x, ast.Subscript) and isinstance(x.ctx, (ast.Store, ast.Del)):
                bs = [x.value]
            elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in MUTATORS:
                bs = [x.func.value]
            elif isinstance(x, ast.Call):
                bs = passed(x)
            for b in bs:
                while isinstance(b, ast.Subscript):
                    b = b.value
                if isinstance(b, ast.Name) and b.id not in out:
                    out.append(b.id)
    return out


# Functions that change containers they are given: name -> positions of those parameters
CHANGERS = {}


def passed(call):
    """Arguments of a call that the function called may change in place."""
    f = call.func
    n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
    if n not in CHANGERS:
        return []
    out = []
    for d, ix in CHANGERS[n]:
        off = 1 if isinstance(f, ast.Attribute) and d.args.args and d.args.args[0].arg in ("self", "cls") else 0
        ps = [a.arg for a in d.args.args]
        for p in ix:
            i = ps.index(p) - off
            if 0 <= i < len(call.args):
                out.append(call.args[i])
            out += [k.value for k in call.keywords if k.arg == p]
    return out


def find_changers(repo):
    """Which parameters each function of the package changes in place, directly or through the functions it calls."""
    if getattr(repo, "changers_done", None) is not None:
        CHANGERS.clear()
        CHANGERS.update(repo.changers_done)
        return
    CHANGERS.clear()
    defs = [d for m in repo.py_modules() for d in ast.walk(m.tree) if isinstance(d, (ast.FunctionDef, ast.AsyncFunctionDef))]
    while True:
        new = {}
        for d in defs:
            ps = {a.arg for a in d.args.args}
            ps -= {x.id for x in ast.walk(d) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            ix = tuple(sorted(ps & set(changed([d])) - {"self", "cls"}))
            if ix:
                new.setdefault(d.name, []).append((d, ix))
        if new == CHANGERS:
            break
        CHANGERS.clear()
        CHANGERS.update(new)
    repo.changers_done = dict(CHANGERS)


def part_returned(repo, call):
    """The part of its argument (an expression) that a function called returns, where it does that on every path."""
    f = call.func
    n = f.id if isinstance(f, ast.Name) else f.attr if isinstance(f, ast.Attribute) else None
    if n is None or call.keywords:
        return None
    ds = [d for m in repo.py_modules() for d in list(m.functions.values()) + [x for c in m.classes.values() for x in c.methods.values()]
          if d.name == n]
    if len(ds) != 1 or ds[0].decorator_list:
        return None
    d = ds[0]
    rets = [x.value for x in ast.walk(d) if isinstance(x, ast.Return)]
    if not rets or None in rets or isinstance(d, ast.AsyncFunctionDef):
        return None
    out = set()
    for r in rets:
        if isinstance(r, ast.Name):
            vs = [x.value for x in ast.walk(d) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == r.id for t in x.targets)]
            r = vs[0] if len(vs) == 1 else None
        w = view_steps(r) if r is not None else None
        if w is None or not w[1] or any(kind != "attr" and not isinstance(k, ast.Constant) for kind, k in w[1]):
            return None
        out.add(ast.unparse(r))
    ps = [a.arg for a in d.args.args]
    if len(out) != 1 or w[0] not in ps:
        return None
    args = ([f.value] if isinstance(f, ast.Attribute) and ps and ps[0] == "self" else []) + call.args
    i = ps.index(w[0])
    if i >= len(args) or not isinstance(args[i], ast.Name):
        return None
    e = ast.parse(out.pop(), mode="eval").body
    for x in ast.walk(e):
        if isinstance(x, ast.Name):
            x.id = args[i].id
    return ast.fix_missing_locations(ast.copy_location(e, call))


def view_steps(e):
    """(name, steps) of an expression naming a part of the container held by a local variable."""
    steps = []
    while True:
        if isinstance(e, ast.Name):
            return e.id, steps[::-1]
        if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
            return e.value.id, [("attr", e.attr)] + steps[::-1]
        if isinstance(e, ast.Subscript) and not isinstance(e.slice, ast.Slice):
            k, kind, e = e.slice, "item", e.value
        elif isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and not e.keywords and \
                e.func.attr in ("get", "setdefault") and 1 <= len(e.args) <= 2:
            k, kind, e = e.args[0], ("get" if e.func.attr == "get" else "item"), e.func.value
        else:
            return None
        if any(isinstance(x, (ast.Call, ast.Starred, ast.Slice, ast.Tuple, ast.Await, ast.NamedExpr)) for x in ast.walk(k)):
            return None
        steps.append((kind, k))


def view_root(e):
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("values", "items") and not e.args:
        e = e.func.value
    r = view_steps(e)
    return r[0] if r is not None and not (r[1] and r[1][0][0] == "attr") else None


_ref_cache = {}


def has_ref(t):
    r = _ref_cache.get(t.id)
    if r is None:
        if t.op == "ref":
            r = True
        elif t.op in ("phi", "eta", "lval", "eff", "lam", "sym", "const", "func"):
            r = False
        else:
            r = any(_hr(x) for x in t.a)
        _ref_cache[t.id] = r
    return r


def _hr(x):
    if isinstance(x, T):
        return has_ref(x)
    if isinstance(x, tuple):
        return any(_hr(y) for y in x)
    return False


def vkey(t):
    return ("v", t)


class Ev:
    """Builds value graphs.  `opaque`: names of project functions left
    uninterpreted; `prims`: name -> handler."""

    def __init__(self, repo, opaque=(), prims=None, depth=14, overrides=None, strict_effects=True):
        self.repo = repo
        self.pending = self.last = self.gone = None
        find_changers(repo)
        self.opaque = set(opaque)
        self.symbols = frozenset()
        self.alloc, self.nalloc = False, 0
        self.prims = prims or {}
        self.maxdepth = depth
        self.helpers = {}
        self.shared = ()
        self.sharedobjs = {}
        self.overrides = overrides or {}     # name -> FuncRef used instead
        self.oid = 0
        self.stack = []
        self.limits = []
        self.ambient = TRUE
        self.sink = []
        self.loops = []
        self.functions = set()               # functions looked at
        self.sites = 0
        self.boxes = set()
        self.strict = strict_effects
        self.arrays = set()                  # objects that are arrays

    # ------------------------------------------------------------- utilities
    def where(self):
        return self.stack[-1].fref.name if self.stack else ""

    def effect(self, kind, payload, st, line, guard=None):
        g = and_(self.ambient, st.guard) if guard is None else guard
        e = Effect(kind, g, tuple(payload), frozenset(self.loops[-1:]), line,
                   (self.stack[-1].module.rel, self.where()) if self.stack else ("", ""))
        if g is not FALSE:
            self.sink.append(e)
            self.sites += 1
        return mk("eff", e)

    def newobj(self, st, state):
        self.oid += 1
        r = mk("ref", self.oid)
        st.objs[self.oid] = state
        return r

    def snap(self, t, st, seen=None):
        if not has_ref(t):
            return t
        if t.op == "ref":
            o = t.a[0]
            if o not in st.objs:
                return t
            v = st.objs[o]
            seen = seen or ()
            if o in seen:
                return mk("cycle")
            if v.op == "struct":
                fs = []
                for (b, n), x in sorted(st.heap.items(), key=lambda i: i[0][1]):
                    if b is t:
                        fs.append((n, self.snap(x, st, seen + (o,))))
                return mk("structval", tuple(fs))
            return self.snap(v, st, seen + (o,))
        return mk(t.op, *[self._snapx(x, st, seen) for x in t.a])

    def _snapx(self, x, st, seen):
        if isinstance(x, T):
            return self.snap(x, st, seen)
        if isinstance(x, tuple):
            return tuple(self._snapx(y, st, seen) for y in x)
        return x

    # ------------------------------------------------------------- merging
    def merge(self, c, a, b):
        """State that is `a` where c holds and `b` elsewhere (either may be None)."""
        if a is None:
            return b
        if b is None:
            return a
        s = State()
        for k in list(a.vars) + [k for k in b.vars if k not in a.vars]:
            s.vars[k] = ite(c, a.vars.get(k, UNDEF), b.vars.get(k, UNDEF))
        for k in list(a.objs) + [k for k in b.objs if k not in a.objs]:
            x, y = a.objs.get(k), b.objs.get(k)
            s.objs[k] = x if y is None else y if x is None else \
                mk("box", ite(c, x.a[0], y.a[0])) if x.op == "box" and y.op == "box" else ite(c, x, y)
        for k in list(a.heap) + [k for k in b.heap if k not in a.heap]:
            x = a.heap.get(k)
            y = b.heap.get(k)
            d = self.attr_default(k)
            s.heap[k] = ite(c, d if x is None else x, d if y is None else y)
        g1, g2 = a.guard, b.guard
        s.guard = self.join_guard(g1, g2)
        return s

    def attr_default(self, k):
        return mk("attr", k[0], k[1])

    @staticmethod
    def join_guard(g1, g2):
        if g1 is g2:
            return g1
        # (g and c) or (g and not c) -> g, where and-chains are left-nested
        def chain(g):
            out = []
            while g.op == "and":
                out.append(g.a[1])
                g = g.a[0]
            out.append(g)
            return [x for x in reversed(out) if x is not TRUE]
        c1, c2 = chain(g1), chain(g2)
        i = 0
        while i < len(c1) and i < len(c2) and c1[i] is c2[i]:
            i += 1
        pre = TRUE
        for x in c1[:i]:
            pre = and_(pre, x)
        r1, r2 = c1[i:], c2[i:]
        if not r1 or not r2:
            return pre
        if r1[0] is not_(r2[0]):
            if len(r1) == 1 and len(r2) == 1:
                return pre
        x1 = x2 = TRUE
        for x in r1:
            x1 = and_(x1, x)
        for x in r2:
            x2 = and_(x2, x)
        return and_(pre, or_(x1, x2))

    def merge_all(self, sts):
        """Merge states with pairwise exclusive guards."""
        sts = [s for s in sts if s is not None and s.guard is not FALSE]
        if not sts:
            return None
        r = sts[-1]
        for s in reversed(sts[:-1]):
            r = self.merge(self.disc(s.guard, r.guard), s, r)
        return r

    @staticmethod
    def disc(g1, g2):
        """A condition true under g1 and false under g2."""
        def chain(g):
            out = []
            while g.op == "and":
                out.append(g.a[1])
                g = g.a[0]
            out.append(g)
            return [x for x in reversed(out) if x is not TRUE]
        c1, c2 = chain(g1), chain(g2)
        i = 0
        while i < len(c1) and i < len(c2) and c1[i] is c2[i]:
            i += 1
        if i < len(c1) and i < len(c2) and c1[i] is not_(c2[i]):
            return c1[i]
        s2 = {x.id for x in c2}
        for x in c1:
            if not_(x).id in s2:
                return x
        r = TRUE
        for x in c1[i:]:
            r = and_(r, x)
        return r

    # ------------------------------------------------------------- functions
    def summarise(self, fref, args, kwargs=None, cls=None, pre=None):
        """Summary of calling `fref` with the given argument terms."""
        st = State()
        self.sink = []
        if pre:
            args, kwargs = pre(self, st) or (args, kwargs)
        s = Summary()
        s.fref = fref
        s.effects = self.sink
        ret, exits = self.run(fref, list(args), dict(kwargs or {}), st, cls=cls, top=True)
        s.ret = self.snap(ret, st) if st is not None and ret is not None else NONE
        s.returns = st.guard
        hs = [st] if st.guard is not FALSE else []
        for e in exits:
            s.raises.append((e.guard, e.value, e.line))
            hs.append(e.st)
        m = None
        for h, g in [(x, x.guard) for x in hs]:
            m = h if m is None else self.merge(self.disc(m.guard, g), m, h)
        if m is not None:
            for (b, n), v in m.heap.items():
                if b.op == "ref":
                    continue
                s.heap[(b, n)] = self.snap(v, m)
            s.objs = {o: self.snap(v, m) for o, v in m.objs.items() if v.op != "struct"}
            s.final = m
        return s

    def spread(self, args, names, kwargs, ndef):
        """Expands one `*value` argument over the remaining required parameters."""
        ix = [i for i, x in enumerate(args) if x.op == "star"]
        if len(ix) != 1:
            return args
        free = [n for n in names if n not in kwargs]
        n = len(free) - len(args) + 1
        if n < 0:
            return args
        i = ix[0]
        v = args[i].a[0]
        return list(args[:i]) + [self.index(v, const(j), None) for j in range(n)] + list(args[i + 1:])

    def bind(self, fref, args, kwargs, st, fr):
        d = fref.d
        a = d.args
        names = [x.arg for x in a.posonlyargs + a.args]
        vals = {}
        extra = []
        if a.vararg is None:
            args = self.spread(args, names, kwargs, len(a.defaults))
        for i, v in enumerate(args):
            if i < len(names):
                vals[names[i]] = v
            else:
                extra.append(v)
        if extra:
            if a.vararg is None:
                raise Unsupported("too many arguments for " + fref.name)
        if a.vararg is not None:
            vals[a.vararg.arg] = mk("tuple", tuple(extra))
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        for k, v in kwargs.items():
            if k in names or k in kwonly:
                vals[k] = v
            elif k == "**":
                rest["**"] = v
            else:
                rest[k] = v
        if a.kwarg is not None:
            items = tuple((const(k), v) for k, v in sorted(rest.items()) if k != "**")
            dv = mk("dict", items)
            if "**" in rest:
                dv = rest["**"] if not items else mk("dmerge", rest["**"], dv)
            vals[a.kwarg.arg] = dv
        elif rest:
            if "**" not in rest or len(rest) > 1:
                raise Unsupported("unexpected keyword for " + fref.name)
            for n in names + kwonly:
                if n not in vals:
                    vals[n] = mk("kwget", rest["**"], n)
        pos_defaults = dict(zip(names[len(names) - len(a.defaults):], a.defaults))
        kw_defaults = {n: dv for n, dv in zip(kwonly, a.kw_defaults) if dv is not None}
        for n in names + kwonly:
            if n not in vals:
                dflt = pos_defaults.get(n, kw_defaults.get(n))
                if dflt is None:
                    raise Unsupported(f"missing argument {n} of {fref.name}")
                vals[n] = self.ev(dflt, State(), fr)
        return vals

    def run(self, fref, args, kwargs, st, cls=None, top=False):
        """Expands a call.  `st` (the caller's state) is updated in place;
        returns (value, raise exits)."""
        d = fref.d
        if sum(1 for f in self.stack if f.fref.d is d) > 1 or len(self.stack) > self.maxdepth:
            raise Unsupported("recursion in " + fref.name)
        fr = Frame(fref, cls if cls is not None else fref.cls)
        self.functions.add((fref.module.rel, (fref.cls.name + "." if fref.cls is not None else "") + fref.name))
        inner = State()
        inner.objs, inner.heap = st.objs, st.heap
        inner.objs, inner.heap = dict(st.objs), dict(st.heap)
        self.stack.append(fr)
        amb = self.ambient
        self.ambient = and_(amb, st.guard)
        try:
            if fref.env is not None:
                inner.vars.update(fref.env)
                caller = self.stack[-2] if len(self.stack) > 1 else None
                if fref.owner is None:
                    pass
                elif caller is not None and caller.fref.d is fref.owner:
                    fr.enc = dict(caller.enc)
                    fr.enc[fref.owner] = dict(st.vars)
                elif caller is not None and fref.owner in caller.enc:
                    fr.enc = caller.enc
                else:
                    fr.enc = {fref.owner: fref.env}
                if fref.owner in fr.enc:
                    inner.vars.update(fr.enc[fref.owner])
            vals = self.bind(fref, args, kwargs, st, fr)
            inner.vars.update(vals)
            if isinstance(d, ast.Lambda):
                v = self.ev(d.body, inner, fr)
                fr.exits.append(Exit("return", inner.guard, v, inner, d.lineno))
            else:
                self.box_params(d, inner, fr)
                fr.is_gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(d))
                end = self.block(d.body, inner, fr)
                if end is not None and end.guard is not FALSE:
                    fr.exits.append(Exit("return", end.guard, NONE, end, getattr(d, "end_lineno", 0)))
        finally:
            self.stack.pop()
            self.ambient = amb
        rets = [e for e in fr.exits if e.kind == "return" and e.guard is not FALSE]
        raises = [e for e in fr.exits if e.kind == "raise" and e.guard is not FALSE]
        if any(e.kind in ("break", "continue") for e in fr.exits):
            raise Unsupported("stray break")
        out = []
        for e in raises:
            s = State()
            s.vars, s.objs, s.heap = dict(st.vars), e.st.objs, e.st.heap
            s.guard = and_(st.guard, e.guard)
            out.append(Exit("raise", s.guard, e.value, s, e.line))
        self.last = None
        if not rets:
            st.guard = FALSE
            return UNDEF, out
        m, v = rets[-1].st.copy(), rets[-1].value
        m.guard = rets[-1].guard
        v = self.snapframe(v, rets[-1].st)
        for e in reversed(rets[:-1]):
            es = e.st.copy()
            es.guard = e.guard
            c = self.disc(e.guard, m.guard)
            v = ite(c, e.value, v)
            m = self.merge(c, es, m)
        st.objs, st.heap = m.objs, m.heap
        if raises:
            st.guard = and_(st.guard, m.guard)
        self.last = vals, m.vars
        return v, out

    def snapframe(self, v, st):
        return v

    def box_params(self, d, st, fr):
        names = set()
        for n in ast.walk(d):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "__addr__" \
                    and isinstance(n.args[0], ast.Name):
                names.add(n.args[0].id)
        ci = getattr(d, "cinfo", None)
        if ci is None:
            return
        for n in names:
            t = ci.types.get(n)
            if t is None or t[1] != "scalar" or t[0] in self.structs(fr.module):
                continue
            fr.boxed.add(n)
            st.vars[n] = self.newobj(st, mk("box", st.vars.get(n, UNDEF)))

    @staticmethod
    def structs(m):
        return m.structs

    # ------------------------------------------------------------- statements
    def block(self, stmts, st, fr):
        for s in stmts:
            st = self.stmt(s, st, fr)
            if st is None or st.guard is FALSE:
                return None
        return st

    def stmt(self, s, st, fr):
        m = getattr(self, "s_" + type(s).__name__, None)
        if m is None:
            raise Unsupported("statement " + type(s).__name__)
        return m(s, st, fr)

    def s_Pass(self, s, st, fr):
        return st

    s_Global = s_Nonlocal = s_Pass

    def s_Expr(self, s, st, fr):
        v = s.value
        if isinstance(v, ast.Constant):
            return st
        wait = isinstance(v, ast.Await)
        if wait:
            v = v.value
        if isinstance(v, ast.Call):
            self.call(v, st, fr, stmt=True)
        else:
            self.ev(v, st, fr)
        if wait:
            self.meanwhile(st)
        return st

    def s_Assign(self, s, st, fr):
        v = self.ev(s.value, st, fr)
        if v.op not in ("ref", "const") and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) \
                and s.targets[0].id in self.substored(fr) and self.copies(s.value):
            v = self.newobj(st, v)
            self.arrays.add(v.a[0])
        for t in s.targets:
            self.assign(t, v, st, fr)
        if len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and v.op not in ("ref", "const", "func", "class"):
            self.alias(s.targets[0].id, s.value, st, fr)
        if isinstance(s.value, ast.Call) and fr.module.lang != "cy":
            for t in s.targets:
                for x in t.elts if isinstance(t, ast.Tuple) else [t]:
                    if isinstance(x, ast.Name) and x.id in self.changes(fr) and "\0" + x.id not in st.vars:
                        self.same_part(x.id, st)
        return st

    def same_part(self, name, st):
        """A call gave back what an attribute of one of our objects holds."""
        v = st.vars.get(name)
        if v is None or v.op not in ("ite", "attr", "store", "mut", "dget", "idx"):
            return
        for (o, a), x in st.heap.items():
            if x is v:
                for n, y in st.vars.items():
                    if y is o and n[0] != "\0" and n != name:
                        st.vars["\0" + name] = mk("alias", n, (("attr", const(a)),))
                        return

    # Names of parts of other containers: `part = whole[key]`.  Changing the part in place changes the whole.
    def alias(self, name, e, st, fr, last=()):
        w = view_steps(e)
        if w is None and isinstance(e, ast.Call) and name in self.changes(fr):
            e = part_returned(self.repo, e)
            w = view_steps(e) if e is not None else None
        if w is None or w[0] == name or w[0] not in st.vars or name in fr.boxed or w[0] in fr.boxed or \
                fr.module.lang == "cy" or not (self.changes(fr) & {name, w[0]}):
            return
        if w[1] and w[1][0][0] == "attr" and (st.vars[w[0]].op != "sym" or self.cls_of(st.vars[w[0]]) is None or
                                              self.repo.method(self.cls_of(st.vars[w[0]]), w[1][0][1])):
            return
        path = tuple((kind, const(k) if kind == "attr" else self.ev_index(k, st, fr)) for kind, k in w[1])
        st.vars["\0" + name] = mk("alias", w[0], path + last)

    def changes(self, fr):
        if not hasattr(fr, "_chg"):
            fr._chg = set(changed([fr.fref.d]))
            views = {}
            for x in ast.walk(fr.fref.d):
                if isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name):
                    r = view_root(x.value)
                    if r is not None:
                        views.setdefault(x.targets[0].id, set()).add(r)
                elif isinstance(x, (ast.For, ast.AsyncFor)):
                    r = view_root(x.iter)
                    if r is not None:
                        for y in ast.walk(x.target):
                            if isinstance(y, ast.Name):
                                views.setdefault(y.id, set()).add(r)
            todo = list(fr._chg)
            while todo:
                for r in views.get(todo.pop(), ()):
                    if r not in fr._chg:
                        fr._chg.add(r)
                        todo.append(r)
        return fr._chg

    def whole(self, name, st):
        """The container a variable holds (and its place if it is an object of its own)."""
        v = st.vars.get(name)
        if v is not None and v.op == "ref":
            return st.objs.get(v.a[0])
        return v

    def through(self, name, st, path=None, skip=None):
        """Variable `name` was changed in place at `path`: the container it is part of, and its parts, change too."""
        for k, a in list(st.vars.items()):
            if k[0] == "\0" and a.op == "alias" and a.a[0] == name and k[1:] != skip:
                q = a.a[1]
                if self.gone is not None and self.gone[0] == name and len(q) > self.gone[1]:
                    continue             # removing an item leaves what it was as it was
                if path is not None and all(x[1] is y[1] or x[1].op != "const" or y[1].op != "const" for x, y in zip(path, q)) or path is None:
                    v = self.whole(name, st)
                    for kind, key in q:
                        v = st.heap.get((v, key.a[0]), mk("attr", v, key.a[0])) if kind == "attr" else \
                            mk("idx", v, key) if kind == "item" else mk("dget", v, key, NONE)
                    st.vars[k[1:]] = v
                    self.through(k[1:], st, None)
        a = st.vars.get("\0" + name)
        if a is None or a.op != "alias":
            return
        root, p = a.a
        w = self.whole(root, st)
        if w is None or root == skip:
            return
        if p and p[0][0] == "attr":
            k = (w, p[0][1].a[0])
            st.heap[k] = self.replaced(st.heap.get(k, mk("attr", *k)), p[1:], st.vars[name])
            self.through(root, st, p + (path or ()), skip=name)
            return
        nw = self.replaced(w, p, st.vars[name])
        if st.vars[root].op == "ref":
            st.objs[st.vars[root].a[0]] = nw
        else:
            if self.external(w) and p and "\0" + root not in st.vars:
                self.effect("setitem", (w, p[0][1], self.replaced(mk("idx", w, p[0][1]), p[1:], st.vars[name])), st, 0)
            st.vars[root] = nw
        self.through(root, st, p + (path or ()), skip=name)

    def replaced(self, b, path, v):
        if not path:
            return v
        kind, key = path[0]
        n = self.store(b, key, self.replaced(mk("idx", b, key), path[1:], v))
        return n if kind == "item" else ite(mk("cmp", "in", key, b), n, b)

    def substored(self, fr):
        """Names of the function whose elements are assigned."""
        if not hasattr(fr, "_sub"):
            fr._sub = {x.value.id for x in ast.walk(fr.fref.d) if isinstance(x, ast.Subscript)
                       and isinstance(x.ctx, (ast.Store, ast.Del)) and isinstance(x.value, ast.Name)} | \
                {y.id for x in ast.walk(fr.fref.d) if isinstance(x, ast.Call) for y in passed(x) if isinstance(y, ast.Name)}
            if len(self.stack) > 1:
                fr._sub |= {y.id for x in ast.walk(fr.fref.d) if isinstance(x, ast.Return) and x.value is not None
                            for y in (x.value.elts if isinstance(x.value, ast.Tuple) else [x.value]) if isinstance(y, ast.Name)}
        return fr._sub

    @staticmethod
    def copies(e):
        return isinstance(e, ast.Call) and ast.unparse(e.func).split(".")[-1] in ("array", "copy") and \
            not any(k.arg == "copy" for k in e.keywords)

    def s_AnnAssign(self, s, st, fr):
        if s.value is not None:
            self.assign(s.target, self.ev(s.value, st, fr), st, fr)
        return st

    def s_AugAssign(self, s, st, fr):
        cur = self.ev(self.as_load(s.target), st, fr)
        v = self.ev(s.value, st, fr)
        op = self.OPS[type(s.op)]
        if op == "+" and cur.op == "ref" and cur.a[0] not in self.arrays and st.objs.get(cur.a[0]) is not None and \
                st.objs[cur.a[0]].op in ("list", "append", "concat", "ite", "phi", "eta"):
            st.objs[cur.a[0]] = self.concat(st.objs[cur.a[0]], self.snap(v, st))
            return st
        if cur.op == "ref" and cur.a[0] in self.arrays and cur.a[0] in st.objs and isinstance(s.target, ast.Name):
            st.objs[cur.a[0]] = self.binop(op, self.snap(st.objs[cur.a[0]], st), self.snapc(v, st))
            return st
        self.assign(s.target, self.binop(op, cur, v), st, fr)
        return st

    @staticmethod
    def as_load(t):
        if isinstance(t, ast.Name):
            return ast.copy_location(ast.Name(t.id, ast.Load()), t)
        if isinstance(t, ast.Attribute):
            return ast.copy_location(ast.Attribute(t.value, t.attr, ast.Load()), t)
        if isinstance(t, ast.Subscript):
            return ast.copy_location(ast.Subscript(t.value, t.slice, ast.Load()), t)
        raise Unsupported("target")

    def setvar(self, name, v, st, fr):
        if name in fr.boxed:
            st.objs[st.vars[name].a[0]] = mk("box", v)
        else:
            st.vars[name] = v
            for k in [k for k, a in st.vars.items() if k[0] == "\0" and (k[1:] == name or a.op != "alias" or a.a[0] == name)]:
                del st.vars[k]

    def assign(self, t, v, st, fr):
        if isinstance(t, ast.Name):
            self.setvar(t.id, v, st, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts):
                n = len(t.elts)
                for i, x in enumerate(t.elts):
                    if isinstance(x, ast.Starred):
                        self.assign(x.value, self.index(v, mk("slice", const(i), const(i + 1 - n) if i + 1 < n else NONE, NONE), st), st, fr)
                        k = i
                    elif any(isinstance(y, ast.Starred) for y in t.elts[:i]):
                        self.assign(x, self.index(v, const(i - n), st), st, fr)
                    else:
                        self.assign(x, self.index(v, const(i), st), st, fr)
                return
            for i, x in enumerate(t.elts):
                self.assign(x, self.index(v, const(i), st), st, fr)
        elif isinstance(t, ast.Attribute):
            b = self.ev(t.value, st, fr)
            self.setattr(b, t.attr, v, st, fr, t)
        elif isinstance(t, ast.Subscript):
            self.setitem(t, v, st, fr)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, st, fr)
        else:
            raise Unsupported("assignment target")

    def cls_of(self, b, fr=None):
        """Class of a term, when known."""
        if b.op == "sym" and len(b.a) > 1 and isinstance(b.a[1], ClassRef):
            return b.a[1].d
        if b.op == "rec":
            return b.a[0].d
        if b.op == "with":
            return self.cls_of(b.a[0])
        if b.op == "new" and isinstance(b.a[0], ClassRef):
            return b.a[0].d
        return None

    def setattr(self, b, name, v, st, fr, node):
        c = self.cls_of(b)
        if c is not None:
            for k in self.repo.mro(c):
                m = k.methods.get(name + "$set")
                if m is not None:
                    self.invoke(FuncRef.of(m, m.module, m.cls), [b, v], {}, st, fr, cls=c)
                    return
                if name in k.methods:
                    break
        if b.op == "ite":
            for x, c in ((b.a[1], b.a[0]), (b.a[2], not_(b.a[0]))):
                if x.op not in ("undef", "const"):
                    self.setattr(x, name, ite(c, v, self.attr(x, name, st, fr)), st, fr, node)
            return
        st.heap[(b, name)] = v

    def setitem(self, t, v, st, fr):
        base_e = t.value
        b = self.ev(base_e, st, fr)
        i = self.ev_index(t.slice, st, fr)
        v = self.snap(v, st) if v.op == "ref" else v
        self.storeat(b, i, v, st, fr, base_e, t.lineno)

    def storeat(self, b, i, v, st, fr, base_e, line):
        if b.op == "ref":
            o = st.objs[b.a[0]]
            if o.op == "box":
                if i is const(0):
                    st.objs[b.a[0]] = mk("box", v)
                    return
                raise Unsupported("store through a pointer to a scalar")
            st.objs[b.a[0]] = self.store(o, i, v)
            return
        if isinstance(base_e, ast.Name) and (fr.fref.d, base_e.id) in self.sharedobjs:
            self.effect("setitem", (self.sharedobjs[fr.fref.d, base_e.id], i, v), st, line)
            return
        if fr.module.lang == "cy" and not self.pyobj(b):
            self.effect("mem", (self.binop("+", b, i), self.snap(v, st)), st, line)
            return
        if b.op == "ite" and has_ref(b):
            raise Unsupported("item store through a merged object")
        nv = self.store(b, i, v)
        if isinstance(base_e, ast.Name):
            if self.external(b) and "\0" + base_e.id not in st.vars:
                self.effect("setitem", (b, i, v), st, line)
            st.vars[base_e.id] = nv
            self.through(base_e.id, st, (("item", i),))
        elif isinstance(base_e, ast.Attribute):
            self.setattr(self.ev(base_e.value, st, fr), base_e.attr, nv, st, fr, base_e)
        elif isinstance(base_e, ast.Subscript):
            # nested container: update the outer place functionally
            bb = self.ev(base_e.value, st, fr)
            ii = self.ev_index(base_e.slice, st, fr)
            self.storeat(bb, ii, nv, st, fr, base_e.value, line)
        else:
            self.effect("setitem", (b, i, v), st, line)

    def pyobj(self, b):
        return b.op in ("dict", "list", "tuple")

    @staticmethod
    def external(b):
        """Is the container one that others can see?"""
        n = 0
        while True:
            n += 1
            if b.op in ("sym", "glob", "eff") or n > 50:
                return True
            if b.op in ("phi", "eta"):
                L, k = b.a
                i = L.init.get(("v", k)) if type(L) is Loop else None
                if i is None or i.op in ("undef", "phi", "eta") or k in L.bound:
                    return True
                b = i
                continue
            if b.op in ("attr", "idx", "store", "delitem", "dget"):
                b = b.a[0]
                continue
            if b.op == "mut":
                b = b.a[1]
                continue
            return False

    def store(self, o, i, v):
        if o.op == "store" and o.a[1] is i:
            o = o.a[0]
        if o.op == "dict" and i.op == "const" and all(k.op == "const" for k, _ in o.a[0]):
            items = [(k, x) for k, x in o.a[0]]
            for n, (k, x) in enumerate(items):
                if k is i:
                    items[n] = (k, v)
                    break
            else:
                items.append((i, v))
            return mk("dict", tuple(items))
        if o.op in ("list", "tuple") and i.op == "const" and isinstance(i.a[0], int) and \
                -len(o.a[0]) <= i.a[0] < len(o.a[0]):
            e = list(o.a[0])
            e[i.a[0]] = v
            return mk(o.op, tuple(e))
        return mk("store", o, i, v)

    def s_Delete(self, s, st, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                st.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                b = self.ev(t.value, st, fr)
                i = self.ev_index(t.slice, st, fr)
                if b.op == "ref":
                    st.objs[b.a[0]] = mk("delitem", st.objs[b.a[0]], i)
                elif fr.module.lang != "cy":
                    self.deleted(t.value, b, i, st, fr, s.lineno)
                else:
                    self.effect("delitem", (self.snap(b, st), i), st, s.lineno)
            else:
                self.effect("delattr", (self.ev(t.value, st, fr), const(t.attr)), st, s.lineno)
        return st

    def deleted(self, base_e, b, i, st, fr, line):
        n, x = 0, base_e
        while isinstance(x, ast.Subscript):
            n, x = n + 1, x.value
        self.gone = (x.id, n) if isinstance(x, ast.Name) else None
        self.deleted_(base_e, b, i, st, fr, line)
        self.gone = None

    def deleted_(self, base_e, b, i, st, fr, line):
        nv = mk("delitem", b, i)
        if isinstance(base_e, ast.Name):
            if self.external(b) and "\0" + base_e.id not in st.vars:
                self.effect("delitem", (self.snap(b, st), i), st, line)
            st.vars[base_e.id] = nv
            self.through(base_e.id, st, (("item", i),))
        elif isinstance(base_e, ast.Subscript):
            bb = self.ev(base_e.value, st, fr)
            ii = self.ev_index(base_e.slice, st, fr)
            self.storeat(bb, ii, nv, st, fr, base_e.value, line)
        elif isinstance(base_e, ast.Attribute) and not (b.op == "ite" and has_ref(b)):
            self.setattr(self.ev(base_e.value, st, fr), base_e.attr, nv, st, fr, base_e)
        else:
            self.effect("delitem", (self.snap(b, st), i), st, line)

    def s_If(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if st.guard is FALSE:
            return None
        if c is TRUE:
            return self.block(s.body, st, fr)
        if c is FALSE:
            return self.block(s.orelse, st, fr)
        a, b = st.copy(), st.copy()
        a.guard, b.guard = and_(st.guard, c), and_(st.guard, not_(c))
        a = self.block(s.body, a, fr)
        b = self.block(s.orelse, b, fr)
        return self.merge(c, a, b)

    def s_Return(self, s, st, fr):
        v = NONE if s.value is None else self.ev(s.value, st, fr)
        fr.exits.append(Exit("return", st.guard, v, st, s.lineno))
        return None

    def s_Break(self, s, st, fr):
        fr.exits.append(Exit("break", st.guard, NONE, st, s.lineno))
        return None

    def s_Continue(self, s, st, fr):
        fr.exits.append(Exit("continue", st.guard, NONE, st, s.lineno))
        return None

    def s_Raise(self, s, st, fr):
        if s.exc is None:
            v = st.vars.get("$exc", mk("reraise"))
        else:
            v = self.ev(s.exc, st, fr)
        if v.op == "class":
            v = mk("new", v.a[0], ())
        if v.op == "bi":
            v = mk("new", v.a[0], ())
        fr.exits.append(Exit("raise", st.guard, self.snap(v, st), st, s.lineno))
        return None

    def s_Assert(self, s, st, fr):
        c = self.cond(s.test, st, fr)
        if c is not TRUE:
            r = st.copy()
            r.guard = and_(st.guard, not_(c))
            fr.exits.append(Exit("raise", r.guard, mk("new", "AssertionError", ()), r, s.lineno))
            st.guard = and_(st.guard, c)
        return st

    def s_FunctionDef(self, s, st, fr):
        f = FuncRef(s, fr.module, None, None, fr.fref.d)
        env = dict(st.vars)
        f.env = env
        t = mk("func", f)
        for dec in reversed(s.decorator_list):
            dv = self.ev(dec, st, fr)
            self.effect("decorate", (self.snap(dv, st), self.lam(f, st, fr)), st, s.lineno)
        if s.name in self.prims:
            # what the function kept abstract can see is observable
            own = {x.id for x in ast.walk(s) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | {x.arg for x in ast.walk(s) if isinstance(x, ast.arg)}
            for n in sorted({x.value.id for x in ast.walk(s) if isinstance(x, ast.Subscript) and isinstance(x.value, ast.Name)} - own):
                v = st.vars.get(n)
                if v is not None and v.op == "ref" and st.objs[v.a[0]].op == "dict":
                    k = mk("sym", "shared%d" % len(self.sharedobjs))
                    self.sharedobjs[fr.fref.d, n] = k
                    self.effect("share", (k, self.snap(v, st)), st, s.lineno)
                    st.vars[n] = k
        env[s.name] = t
        st.vars[s.name] = t
        return st

    s_AsyncFunctionDef = s_FunctionDef

    def s_ClassDef(self, s, st, fr):
        st.vars[s.name] = mk("glob", s.name)
        return st

    def s_Import(self, s, st, fr):
        for a in s.names:
            n = a.asname or a.name.split(".")[0]
            st.vars[n] = self.modterm(a.name if a.asname else a.name.split(".")[0])
        return st

    def modterm(self, dotted):
        import os
        rel = dotted.replace(".", "/")
        if dotted.startswith("pvtrace"):
            for c in (rel + ".py", rel + "/__init__.py"):
                if os.path.exists(os.path.join(self.repo.root, c)):
                    return mk("mod", ModRef.of(self.repo.module(c)))
            if os.path.exists(os.path.join(self.repo.root, rel + ".pyx")):
                return mk("ext", dotted)
        return mk("ext", dotted)

    def s_ImportFrom(self, s, st, fr):
        for a in s.names:
            m = self.modterm((s.module or "") + "." + a.name)
            if m.op == "ext" and (s.module or "").startswith("pvtrace") and not m.a[0].endswith("_kernel"):
                mm = self.modterm(s.module)
                if mm.op == "mod":
                    m = self.modattr(mm.a[0].m, a.name)
            st.vars[a.asname or a.name] = m
        return st

    # -- with
    def s_With(self, s, st, fr):
        ctxs = []
        for it in s.items:
            c = self.ev(it.context_expr, st, fr)
            if self.ctx_ignored(c):
                ctxs.append(None)
                continue
            v = self.effect("enter", (self.snap(c, st),), st, s.lineno)
            ctxs.append(v)
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, st, fr)
        ctxs = [c for c in ctxs if c is not None]
        if not ctxs:
            self.npdiv = getattr(self, "npdiv", 0) + 1
            try:
                return self.block(s.body, st, fr)
            finally:
                self.npdiv -= 1
        n0 = len(fr.exits)
        fr.trys += 1
        self.limits.append(None)
        st = self.block(s.body, st, fr)
        self.limits.pop()
        fr.trys -= 1
        for e in fr.exits[n0:]:
            for c in reversed(ctxs):
                self.effect("leave", (c,), e.st, e.line, guard=and_(self.ambient, e.guard))
        if st is not None:
            for c in reversed(ctxs):
                self.effect("leave", (c,), st, s.lineno)
        return st

    s_AsyncWith = s_With

    @staticmethod
    def ctx_ignored(c):
        return c.op == "call" and c.a[0].op == "ext" and c.a[0].a[0] in ("numpy.errstate",)

    # -- try
    @staticmethod
    def only_reraises(h):
        """A handler that logs and raises again what it caught."""
        *pre, last = h.body
        for x in pre:
            if isinstance(x, ast.Pass) or isinstance(x, (ast.Expr, ast.Assign)) and isinstance(x.value, ast.Constant):
                continue
            if not (isinstance(x, ast.Expr) and isinstance(x.value, ast.Call) and isinstance(x.value.func, ast.Attribute)
                    and isinstance(x.value.func.value, ast.Name) and x.value.func.value.id in ("logger", "logging", "log")):
                return False
        return isinstance(last, ast.Raise) and last.cause is None and \
            (last.exc is None or isinstance(last.exc, ast.Name) and last.exc.id == h.name)

    def s_Try(self, s, st, fr):
        if s.handlers and not s.orelse and all(self.only_reraises(h) for h in s.handlers):
            if not s.finalbody:
                return self.block(s.body, st, fr)
            t = ast.Try(s.body, [], [], s.finalbody)
            ast.copy_location(t, s)
            s = t
        n0 = len(fr.exits)
        fr.trys += 1
        self.limits.append(self.sources(s, st, fr))
        body = self.block(s.body, st, fr)
        self.limits.pop()
        fr.trys -= 1
        new = fr.exits[n0:]
        del fr.exits[n0:]
        keep, handled = [], []
        # handlers
        for e in new:
            if e.kind != "raise" or not s.handlers:
                keep.append(e)
                continue
            rest = e.st.copy()
            rest.guard = e.guard
            for h in s.handlers:
                if rest is None:
                    break
                m = TRUE if h.type is None else self.exc_match(e.value, self.ev(h.type, rest, fr))
                if m is FALSE:
                    continue
                hs = rest.copy()
                hs.guard = and_(rest.guard, m)
                handled.append((h, hs, e))
                if m is TRUE:
                    rest = None
                else:
                    rest.guard = and_(rest.guard, not_(m))
            if rest is not None:
                keep.append(Exit("raise", rest.guard, e.value, rest, e.line))
        outs = []
        fr.exits.extend(keep)
        if body is not None and s.orelse:
            body = self.block(s.orelse, body, fr)
        outs.append(body)
        # one evaluation of each handler over the merged raising states
        for h in s.handlers:
            hs = [(x, e) for hh, x, e in handled if hh is h]
            if not hs:
                continue
            m, ev_ = hs[-1][0], hs[-1][1].value
            for x, e in reversed(hs[:-1]):
                c = self.disc(x.guard, m.guard)
                ev_ = ite(c, e.value, ev_)
                m = self.merge(c, x, m)
            m = m.copy()
            if h.name:
                m.vars[h.name] = ev_
            old = m.vars.get("$exc")
            m.vars["$exc"] = ev_
            r = self.block(h.body, m, fr)
            if r is not None:
                if old is None:
                    r.vars.pop("$exc", None)
                else:
                    r.vars["$exc"] = old
            outs.append(r)
        out = self.merge_all(outs)
        if s.finalbody:
            ex = fr.exits[n0:]
            del fr.exits[n0:]
            for e in ex:
                x = e.st.copy()
                x.guard = e.guard
                x = self.block(s.finalbody, x, fr)
                if x is not None:
                    fr.exits.append(Exit(e.kind, x.guard, e.value, x, e.line))
            if out is not None:
                out = self.block(s.finalbody, out, fr)
        return out

    RAISED_BY = {"queue.Empty": {"get", "get_nowait"}, "queue.Full": {"put", "put_nowait"}}

    def sources(self, s, st, fr):
        """The methods that raise what a try statement handles (None: any call)."""
        if s.finalbody or not s.handlers:
            return None
        out = set()
        for h in s.handlers:
            if h.type is None:
                return None
            t = self.ev(h.type, st.copy(), fr)
            for x in (t.a[0] if t.op == "tuple" else (t,)):
                r = self.RAISED_BY.get(x.a[0]) if x.op == "ext" else None
                if r is None:
                    return None
                out |= r
        return out

    EXC_BASES = {"ValueError": ("Exception",), "KeyError": ("LookupError", "Exception"),
                 "IndexError": ("LookupError", "Exception"), "TypeError": ("Exception",),
                 "NotImplementedError": ("RuntimeError", "Exception"), "RuntimeError": ("Exception",),
                 "AssertionError": ("Exception",), "ImportError": ("Exception",),
                 "FileNotFoundError": ("OSError", "Exception"), "AttributeError": ("Exception",)}

    def exc_match(self, v, h):
        names = []
        for x in (h.a[0] if h.op == "tuple" else (h,)):
            if x.op == "class":
                names.append(x.a[0].name)
            elif x.op in ("bi", "glob"):
                names.append(x.a[0])
            elif x.op == "ext":
                names.append(x.a[0])
            else:
                return mk("isexc", v, h)
        if v.op == "new":
            c = v.a[0]
            if isinstance(c, ClassRef):
                anc = [k.name for k in self.repo.mro(c.d)] + ["Exception", "BaseException"]
                for k in self.repo.mro(c.d):
                    for b in k.bases:
                        if isinstance(b, ast.Name):
                            anc.append(b.id)
                            anc.extend(self.EXC_BASES.get(b.id, ()))
            else:
                anc = [str(c)] + list(self.EXC_BASES.get(str(c), ("Exception",))) + ["BaseException"]
            return TRUE if any(n in anc for n in names) else FALSE
        if "BaseException" in names:
            return TRUE
        if v.op == "exc" and "Exception" in names:
            return TRUE
        r = FALSE
        for n in names:
            r = or_(r, mk("isexc", v, n))
        return r

    # -- loops
    def s_For(self, s, st, fr):
        it = self.ev(s.iter, st, fr)
        body = lambda x: self.block(s.body, x, fr)
        e, t = s.iter, s.target
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr in ("values", "items") and not e.args:
            t = t if e.func.attr == "values" else t.elts[1] if isinstance(t, ast.Tuple) and len(t.elts) == 2 else None
            e = e.func.value
            if isinstance(t, ast.Name) and t.id in self.changes(fr) and view_root(e) is not None:
                d = self.snap(self.ev(e, st, fr), st)

                def body(x, t=t, e=e, d=d):
                    if self.loops and it.op != "const":
                        self.alias(t.id, e, x, fr, (("item", mk("idx", mk("call", mk("bi", "list"), (d,), ()), mk("tick", self.loops[-1]))),))
                    return self.block(s.body, x, fr)
        return self.for_loop(s.target, it, body, s.orelse, st, fr, s,
                             assigned(s.body + [ast.For(target=s.target, iter=s.iter, body=[], orelse=[])]))

    s_AsyncFor = s_For

    def elements(self, it, st):
        """Element terms when the iterable is a short literal, else None."""
        it = self.snap1(it, st)
        if it.op in ("tuple", "list") and len(it.a[0]) <= 16:
            return list(it.a[0])
        if it.op == "set" and len(it.a[0]) <= 16 and all(x.op == "const" for x in it.a[0]) and len(set(it.a[0])) == len(it.a[0]):
            return sorted(it.a[0], key=lambda x: repr(x.a[0]))
        if it.op == "dict" and len(it.a[0]) <= 16:
            return [k for k, _ in it.a[0]]
        if it.op == "class" and self.is_enum(it.a[0].d):
            c = it.a[0].d
            return [mk("enum", c.name, n) for n, v in c.cattrs.items() if not n.startswith("_") and v is not None]
        if it.op == "range" and all(x.op == "const" for x in it.a):
            try:
                r = range(*[x.a[0] for x in it.a])
            except TypeError:
                return None
            if len(r) <= 8:
                return [const(i) for i in r]
        if it.op == "enumerate":
            e = self.elements(it.a[0], st)
            if e is not None:
                return [mk("tuple", (self.binop("+", const(i), it.a[1]), x)) for i, x in enumerate(e)]
        if it.op == "zip" and not any(x.op == "star" for x in it.a[0]):
            es = [self.elements(x, st) for x in it.a[0]]
            if es and all(e is not None for e in es):
                return [mk("tuple", t) for t in zip(*es)]
        if it.op == "items":
            d = self.snap1(it.a[0], st)
            if d.op == "dict" and len(d.a[0]) <= 16:
                return [mk("tuple", (k, v)) for k, v in d.a[0]]
        return None

    def snap1(self, t, st):
        if t.op == "ref" and t.a[0] in st.objs:
            return st.objs[t.a[0]]
        return t

    def for_loop(self, target, it, body, orelse, st, fr, node, names):
        es = self.elements(it, st)
        if es is not None:
            return self.unroll(target, es, body, orelse, st, fr)
        it = self.snap(it, st)

        def header(s, L):
            n, el = self.iteration(it, mk("tick", L))
            return n, el

        return self.loop(header, target, body, orelse, st, fr, node, names)

    def iteration(self, it, k):
        """(condition that iteration k happens, element k) of an iterable term."""
        if it.op == "range":
            a, b, s = it.a
            el = a if s is const(0) else self.binop("+", a, self.binop("*", k, s))
            if s.op == "const" and s.a[0] < 0:
                return self.cmp("<", b, el), el
            return self.cmp("<", el, b), el
        if it.op == "enumerate":
            c, x = self.iteration(it.a[0], k)
            return c, mk("tuple", (self.binop("+", k, it.a[1]), x))
        if it.op == "zip" and not any(x.op == "star" for x in it.a[0]):
            c, xs = TRUE, []
            for x in it.a[0]:
                ci, xi = self.iteration(x, k)
                c = and_(c, ci)
                xs.append(xi)
            return c, mk("tuple", tuple(xs))
        if it.op == "iterN":   # iter of a 2-D thing
            pass
        return self.cmp("<", k, self.length(it)), self.index(it, k, None)

    def length(self, t):
        if t.op in ("tuple", "list", "set"):
            return const(len(t.a[0]))
        if t.op == "dict":
            return const(len(t.a[0]))
        return mk("len", t)

    def unroll(self, target, es, body, orelse, st, fr):
        brks = []
        for e in es:
            if st is None or st.guard is FALSE:
                break
            self.assign(target, e, st, fr)
            n0 = len(fr.exits)
            end = body(st)
            new = fr.exits[n0:]
            del fr.exits[n0:]
            conts = [] if end is None else [end]
            for x in new:
                if x.kind == "continue":
                    c = x.st
                    c.guard = x.guard
                    conts.insert(0, c)
                elif x.kind == "break":
                    c = x.st
                    c.guard = x.guard
                    brks.append(c)
                else:
                    fr.exits.append(x)
            st = self.merge_all(conts)
        if st is not None and orelse:
            st = self.block(orelse, st, fr)
        return self.merge_all(brks + ([st] if st is not None else []))

    def s_While(self, s, st, fr):
        box = {}

        def header(x, L):
            return self.cond(s.test, x, fr), None
        return self.loop(header, None, lambda x: self.block(s.body, x, fr), s.orelse, st, fr, s,
                         assigned(s.body + [ast.Expr(s.test)]))

    def loop(self, header, target, body, orelse, st, fr, node, names):
        keys = []
        names = list(names)
        inner = list(ast.iter_child_nodes(node)) if isinstance(node, ast.AST) else []
        bound = {x.id for n in inner for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
        if any(k[0] == "\0" for k in st.vars):
            ch = changed(inner)
            for n in bound:
                st.vars.pop("\0" + n, None)
            todo = list(ch)
            while todo:
                n = todo.pop()
                a = st.vars.get("\0" + n)
                if a is not None and a.op == "alias" and a.a[0] not in names and not (a.a[1] and a.a[1][0][0] == "attr"):
                    names.append(a.a[0])
                    todo.append(a.a[0])
        for n in names:
            if n in fr.boxed:
                k = ("o", st.vars[n].a[0])
            else:
                k = ("v", n)
                cur = st.vars.get(n)
                if cur is not None and cur.op == "ref":
                    k2 = ("o", cur.a[0])
                    if k2 not in keys:
                        keys.append(k2)
            if k not in keys:
                keys.append(k)
        for attempt in range(8):
            L = Loop(frozenset(self.loops[-1:]), and_(self.ambient, st.guard), getattr(node, "lineno", 0),
                     (fr.module.rel, fr.fref.name))
            L.keys = list(keys)
            L.bound = bound
            s1 = st.copy()
            s1.guard = TRUE
            oid0 = self.oid
            for k in keys:
                cur = self.getkey(st, k)
                L.init[k] = cur if not (k[0] == "v" and cur.op == "ref") else cur
                # a variable naming the same object on every iteration keeps its reference
                self.setkey(s1, k, mk("phi", L, self.kname(k)))
            for k in keys:
                if k[0] == "v" and L.init[k].op == "ref":
                    self.setkey(s1, k, L.init[k])
                if k[0] == "o" and L.init[k].op == "box":
                    self.setkey(s1, k, mk("box", mk("phi", L, self.kname(k))))
            start = s1.copy()
            sink, amb, n0 = self.sink, self.ambient, len(fr.exits)
            self.sink, self.ambient = L.effects, TRUE
            self.loops.append(L)
            try:
                c, el = header(s1, L)
                L.cond = c
                s1.guard = and_(s1.guard, c)
                end = None
                if s1.guard is not FALSE:
                    if target is not None:
                        self.assign(target, el, s1, fr)
                    end = body(s1)
            finally:
                self.sink, self.ambient = sink, amb
                self.loops.pop()
            new = fr.exits[n0:]
            del fr.exits[n0:]
            conts = [] if end is None else [end]
            brks, outs = [], []
            for x in new:
                x.st.guard = x.guard
                if x.kind == "continue":
                    conts.insert(0, x.st)
                elif x.kind == "break":
                    brks.append(x.st)
                else:
                    outs.append(x)
            nxt = self.merge_all(conts)
            brk = self.merge_all(brks)
            # keys changed by the body that were not carried
            more = []
            rebound = []
            elem = []
            for z in [nxt, brk] + [x.st for x in outs]:
                if z is None:
                    continue
                for o, v in z.objs.items():
                    if o <= oid0 and ("o", o) not in keys and v is not start.objs.get(o) and ("o", o) not in more:
                        more.append(("o", o))
                for h, v in z.heap.items():
                    d = start.heap.get(h)
                    if d is None and h[0].op == "ref" and h[0].a[0] > oid0:
                        continue
                    if v is not (d if d is not None else self.attr_default(h)) and ("h", h) not in keys \
                            and ("h", h) not in more:
                        if h[0].deps and any(x is L for x in h[0].deps):
                            elem.append((z, h, v))
                            continue
                        more.append(("h", h))
            for k in keys:
                if k[0] == "v" and L.init[k].op == "ref":
                    for z in [nxt, brk]:
                        if z is not None and z.vars.get(k[1]) is not L.init[k]:
                            rebound.append(k)
            if rebound:
                # a container of one name only is as good as its value
                for k in dict.fromkeys(rebound):
                    r = L.init[k]
                    if k[1] in fr.boxed or self.held(r, st) != 1 or st.objs.get(r.a[0]) is None or st.objs[r.a[0]].op in ("box", "struct"):
                        raise Unsupported("loop rebinds a container variable")
                    st.vars[k[1]] = self.snap(r, st)
                    keys = [q for q in keys if q != ("o", r.a[0])]
                continue
            if not more:
                # attributes of objects that belong to one iteration
                self.loops.append(L)
                for z, h, v in elem:
                    L.effects.append(Effect("setattr", z.guard, (h[0], const(h[1]), self.snap(v, z)), frozenset([L]),
                                            L.line, L.where))
                    z.heap.pop(h, None)
                self.loops.pop()
                break
            keys = keys + more
        else:
            raise Unsupported("loop does not stabilise")
        for k in keys:
            L.nxt[k] = self.unbox(self.getkey(nxt, k)) if nxt is not None else UNDEF
            L.brkvals[k] = self.unbox(self.getkey(brk, k)) if brk is not None else UNDEF
            L.init[k] = self.unbox(L.init[k])
        # containers created in the body must not leak references
        for dct in (L.nxt, L.brkvals):
            z = nxt if dct is L.nxt else brk
            for k, v in dct.items():
                if z is not None and k[0] in ("v", "h") and v is not L.init[k] and has_ref(v):
                    dct[k] = self.snap_new(v, z, oid0)
        for k in keys:
            if L.init[k].op != "ref" and has_ref(L.init[k]):
                L.init[k] = self.snap_new(L.init[k], st, -1) if k[0] != "v" else self.snap(L.init[k], st)
        L.alive = nxt.guard if nxt is not None else FALSE
        L.brk = brk.guard if brk is not None else FALSE
        self.sink.append(L)
        self.sites += 1
        after = st.copy()
        for k in keys:
            if k[0] == "v" and L.init[k].op == "ref":
                continue
            v = mk("eta", L, self.kname(k))
            self.setkey(after, k, mk("box", v) if k[0] == "o" and st.objs[k[1]].op == "box" else v)
        raised = FALSE
        for x in outs:
            j = len(L.exits)
            vals = {k: self.unbox(self.getkey(x.st, k)) for k in keys}
            vals = {k: (self.snap_new(v, x.st, oid0) if has_ref(v) and v is not L.init[k] else v) for k, v in vals.items()}
            L.exits.append((x.kind, x.guard, self.snap(x.value, x.st), vals))
            es = st.copy()
            for k in keys:
                if k[0] == "v" and L.init[k].op == "ref":
                    continue
                v = mk("lval", L, j, self.kname(k))
                self.setkey(es, k, mk("box", v) if k[0] == "o" and st.objs[k[1]].op == "box" else v)
            g = mk("lexit", L, j)
            es.guard = and_(st.guard, g)
            fr.exits.append(Exit(x.kind, es.guard, mk("lval", L, j, "$"), es, x.line))
            raised = or_(raised, g)
        after.guard = and_(st.guard, not_(raised))
        if L.cond is TRUE:
            if brk is None:
                return None
            after.guard = and_(after.guard, mk("lbrk", L)) if outs else after.guard
        if orelse:
            if brk is None:
                return self.block(orelse, after, fr)
            b = mk("lbrk", L)
            a1, a2 = after.copy(), after.copy()
            a1.guard, a2.guard = and_(after.guard, b), and_(after.guard, not_(b))
            a2 = self.block(orelse, a2, fr)
            return self.merge(b, a1, a2)
        return after

    def held(self, r, st):
        """How many variables, attributes and containers hold a reference."""
        def holds(t):
            if isinstance(t, tuple):
                return any(holds(x) for x in t)
            return isinstance(t, T) and has_ref(t) and (t is r or any(holds(x) for x in t.a))
        return sum(1 for v in list(st.vars.values()) + list(st.heap.values()) + list(st.objs.values()) if holds(v)) + \
            sum(1 for h in st.heap if holds(h[0]))

    def snap_new(self, v, st, oid0):
        """Snapshot of references to objects created in a loop body."""
        return self.snap(v, st)

    @staticmethod
    def kname(k):
        return k[1] if k[0] == "v" else (k[0], k[1] if k[0] == "o" else k[1])

    @staticmethod
    def unbox(v):
        return v.a[0] if v.op == "box" else v

    def getkey(self, st, k):
        if k[0] == "v":
            return st.vars.get(k[1], UNDEF)
        if k[0] == "o":
            return st.objs.get(k[1], UNDEF)
        return st.heap.get(k[1], self.attr_default(k[1]))

    def setkey(self, st, k, v):
        if k[0] == "v":
            st.vars[k[1]] = v
        elif k[0] == "o":
            st.objs[k[1]] = v
        else:
            st.heap[k[1]] = v

    # ------------------------------------------------------------- expressions
    def cond(self, e, st, fr):
        """Value of an expression used as a condition."""
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st, fr))
        if isinstance(e, ast.BoolOp):
            return self.boolop(e, st, fr, truth=True)
        return self.truth(self.ev(e, st, fr), st)

    def truth(self, v, st=None):
        if st is not None and v.op == "ref":
            v = self.snap(v, st)
        if v.op == "const":
            return TRUE if v.a[0] else FALSE
        if v.op in ("cmp", "and", "or", "not", "isinst", "lexit", "lbrk", "raises", "truth", "isexc", "allof", "anyof"):
            return v
        if v.op in ("tuple", "list", "dict"):
            return TRUE if v.a[0] else FALSE
        if v.op in ("func", "class", "lam", "bound", "mod", "rec"):
            return TRUE
        if v.op == "ite":
            return ite(v.a[0], self.truth(v.a[1]), self.truth(v.a[2])) \
                if v.a[1].op == "const" or v.a[2].op == "const" else mk("truth", v)
        return mk("truth", v)

    def boolop(self, e, st, fr, truth):
        isand = isinstance(e.op, ast.And)
        ev = (lambda x, s: self.cond(x, s, fr)) if truth else (lambda x, s: self.ev(x, s, fr))
        acc = ev(e.values[0], st)
        for x in e.values[1:]:
            c = acc if truth else self.truth(acc, st)
            go = c if isand else not_(c)
            if go is FALSE:
                return acc
            if go is TRUE:
                acc = ev(x, st)
                continue
            s2 = st.copy()
            s2.guard = and_(st.guard, go)
            g2 = s2.guard
            r = ev(x, s2)
            g0 = st.guard
            s0 = st.copy()
            s0.guard = and_(g0, not_(go))
            m = self.merge(go, s2, s0)
            if s2.guard is g2:
                m.guard = g0
            st.set(m)
            if truth:
                acc = and_(acc, r) if isand else or_(acc, r)
            else:
                acc = ite(c, r, acc) if isand else ite(c, acc, r)
        return acc

    def ev(self, e, st, fr):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None:
            raise Unsupported("expression " + type(e).__name__)
        return m(e, st, fr)

    def e_Constant(self, e, st, fr):
        v = e.value
        if isinstance(v, bytes):
            v = "b:" + repr(v)
        if isinstance(v, complex) or v is Ellipsis:
            v = repr(v)
        return const(v)

    def e_Name(self, e, st, fr):
        n = e.id
        if n in st.vars:
            v = st.vars[n]
            if n in fr.boxed:
                return self.unbox(st.objs[v.a[0]])
            return v
        if n in locals_of(fr.fref.d):
            return UNDEF            # read before it is assigned
        return self.global_(n, fr.module)

    def global_(self, n, module):
        if n == "__NULL__":
            return const(None)
        if n in self.symbols:
            return mk("sym", n)
        if module.lang == "cy" and n in LIBC and n not in module.functions and n not in module.assigns:
            d = "libc." + n
            return const(CONSTS[d]) if d in CONSTS else mk("ext", d)
        if n in self.overrides:
            return mk("func", self.overrides[n])
        r = self.repo.resolve_import(module, n)
        if r is not None:
            return self.resolved(r, n)
        if n in self.helpers:
            return mk("func", self.helpers[n])
        if n in BUILTINS:
            return mk("bi", n)
        if n == "prange" and module.lang == "cy":
            return mk("ext", n)
        return mk("glob", n)

    def resolved(self, r, n):
        kind, x = r
        if kind == "func":
            if x.name in self.overrides:
                return mk("func", self.overrides[x.name])
            return mk("func", FuncRef.of(x, x.module))
        if kind == "class":
            return mk("class", ClassRef.of(x))
        if kind == "module":
            return mk("mod", ModRef.of(x))
        if kind == "ext":
            return const(CONSTS[x]) if x in CONSTS else mk("ext", x)
        if kind == "assign":
            m, ex = x
            return self.global_value(m, n, ex)
        return mk("glob", n)

    gcache = {}

    def global_value(self, m, n, ex):
        """Value of a module-level name assigned once."""
        key = (id(m), n)
        if key in self.gcache:
            return self.gcache[key]
        self.gcache[key] = mk("glob", n)
        v = None
        if isinstance(ex, (ast.Constant, ast.BinOp, ast.UnaryOp, ast.Name, ast.Tuple, ast.Attribute)) or \
                (isinstance(ex, (ast.Dict, ast.Set, ast.List)) and len(getattr(ex, "keys", getattr(ex, "elts", []))) <= 16):
            try:
                f = FuncRef(ast.parse("def _m():\n pass").body[0], m)
                frm = Frame(f)
                s = State()
                v = self.snap(self.ev(ex, s, frm), s)
            except (Unsupported, KeyError):
                v = None
        if v is None:
            v = mk("glob", n)
        self.gcache[key] = v
        return v

    def modattr(self, m, name):
        r = self.repo.resolve_import(m, name)
        if r is not None:
            return self.resolved(r, name)
        return mk("ext", m.rel + ":" + name)

    def e_Attribute(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        return self.attr(b, e.attr, st, fr)

    def attr(self, b, name, st, fr):
        if b.op == "call" and name == "eps" and b.a[0].op == "ext" and b.a[0].a[0] == "numpy.finfo":
            return const(2.0 ** -52)
        if b.op == "ext":
            d = b.a[0] + "." + name
            return const(CONSTS[d]) if d in CONSTS else mk("ext", d)
        if b.op == "mod":
            return self.modattr(b.a[0].m, name)
        if b.op == "class":
            c = b.a[0].d
            if self.is_enum(c):
                return mk("enum", c.name, name) if name in c.cattrs or name in c.methods else mk("attr", b, name)
            m = self.repo.method(c, name)
            if m is not None:
                if m.is_class:
                    return mk("bound", FuncRef.of(m, m.module, m.cls), b)
                return mk("func", FuncRef.of(m, m.module, m.cls))
            for k in self.repo.mro(c):
                if name in k.cattrs and k.cattrs[name] is not None:
                    return self.ev(k.cattrs[name], State(), Frame(FuncRef(None, k.module)))
            return mk("attr", b, name)
        if b.op == "super":
            c, me = b.a[0].d, b.a[1]
            mro = self.repo.mro(self.cls_of(me) or c)
            i = mro.index(c) if c in mro else 0
            for k in mro[i + 1:]:
                if name in k.methods:
                    m = k.methods[name]
                    return mk("bound", FuncRef.of(m, m.module, m.cls), me)
            return mk("attr", b, name)
        key = (b, name)
        if key in st.heap:
            return st.heap[key]
        if b.op == "rec":
            for f, v in b.a[1]:
                if f == name:
                    return v
        if b.op == "with":
            for f, v in b.a[1]:
                if f == name:
                    return v
            if not self.has_method(b, name):
                return self.attr(b.a[0], name, st, fr)
        if b.op == "enum" and name in ("name",):
            return const(b.a[1])
        if b.op == "ite" and b.a[1].op in ("rec", "with", "ref", "ite", "enum") | {"ref"} if False else \
                (b.op == "ite" and (b.a[1].op in ("rec", "with", "ref", "enum", "bound") or
                                    b.a[2].op in ("rec", "with", "ref", "enum", "bound"))):
            return ite(b.a[0], self.attr(b.a[1], name, st, fr), self.attr(b.a[2], name, st, fr))
        if b.op == "ref":
            o = st.objs.get(b.a[0])
            if o is not None and o.op == "struct":
                return mk("attr", b, name)
            if name in ("T", "size", "shape", "dtype", "data", "ndim"):
                return self.attr(self.snap(b, st), name, st, fr)
        c = self.cls_of(b)
        if c is not None:
            m = self.repo.method(c, name)
            if m is not None:
                if m.is_property:
                    if m.name in self.opaque or self.abstract(m):
                        return mk("attr", b, name)
                    return self.invoke(FuncRef.of(m, m.module, m.cls), [b], {}, st, fr, cls=c)
                if m.is_static:
                    return mk("func", FuncRef.of(m, m.module, m.cls))
                return mk("bound", FuncRef.of(m, m.module, m.cls), b)
            for k in self.repo.mro(c):
                if name in k.cattrs and k.cattrs[name] is not None and not self.is_dataclass(k):
                    if isinstance(k.cattrs[name], ast.Constant):
                        return self.ev(k.cattrs[name], State(), Frame(FuncRef(None, k.module)))
        return mk("attr", b, name)

    def has_method(self, b, name):
        c = self.cls_of(b)
        return c is not None and self.repo.method(c, name) is not None

    @staticmethod
    def abstract(m):
        return any("abstractmethod" in ast.unparse(d) for d in m.decorator_list)

    def is_enum(self, c):
        return any((isinstance(b, ast.Name) and b.id in ("Enum", "IntEnum")) or
                   (isinstance(b, ast.Attribute) and b.attr in ("Enum", "IntEnum")) for b in c.bases)

    @staticmethod
    def is_dataclass(c):
        return any("dataclass" in ast.unparse(d) for d in c.decorator_list)

    def ev_index(self, s, st, fr):
        if isinstance(s, ast.Slice):
            f = lambda x: NONE if x is None else self.ev(x, st, fr)
            return mk("slice", f(s.lower), f(s.upper), f(s.step))
        if isinstance(s, ast.Tuple):
            return mk("tuple", tuple(self.ev_index(x, st, fr) for x in s.elts))
        return self.snap(self.ev(s, st, fr), st)

    e_Slice = None

    def e_Subscript(self, e, st, fr):
        b = self.ev(e.value, st, fr)
        i = self.ev_index(e.slice, st, fr)
        if fr.module.lang == "cy" and b.op != "ref" and not self.pyobj(b) and i.op != "slice" \
                and not (b.op == "ite" and has_ref(b)) and not (i.op == "const" and isinstance(i.a[0], str)) \
                and not self.cyobject(e.value, fr):
            return mk("load", self.binop("+", b, i))
        if fr.trys and i.op not in ("slice", "tuple") and b.op not in ("ref", "tuple", "list"):
            self.may_raise(mk("idx", self.snap(b, st), i), st, fr, e.lineno, ("IndexError", "KeyError", "TypeError"))
        return self.index(b, i, st)

    @staticmethod
    def cyobject(e, fr):
        """Subscripts of Python objects in Cython code (shapes, dicts, ndarrays)."""
        if isinstance(e, ast.Attribute) and e.attr in ("shape",):
            return True
        if isinstance(e, ast.Name):
            ci = getattr(fr.fref.d, "cinfo", None)
            if ci is None and getattr(fr.module, "spec", False):
                return False
            t = ci.types.get(e.id) if ci is not None else None
            return t is None or t[0] == "buffer" or t[0] == "object"
        return isinstance(e, ast.Call)

    def index(self, b, i, st):
        if st is not None and b.op == "ref":
            o = st.objs.get(b.a[0])
            if o is not None:
                if o.op == "box":
                    if i is const(0):
                        return o.a[0]
                    raise Unsupported("pointer arithmetic on a scalar")
                r = self.index(o, i, st)
                return r
        if b.op in ("tuple", "list"):
            if i.op == "const" and isinstance(i.a[0], int) and -len(b.a[0]) <= i.a[0] < len(b.a[0]):
                return b.a[0][i.a[0]]
            if i.op == "slice" and all(x.op == "const" for x in i.a):
                return mk("tuple", b.a[0][slice(*[x.a[0] for x in i.a])])
        if b.op == "dict" and i.op == "const":
            for k, v in b.a[0]:
                if k is i:
                    return v
        if b.op == "store":
            if b.a[1] is i:
                return b.a[2]
            if i.op == "const" and b.a[1].op == "const":
                return self.index(b.a[0], i, st)
        if b.op == "ite":
            x, y = b.a[1], b.a[2]
            if any(z.op in ("tuple", "list", "dict", "ite", "store", "ref") for z in (x, y)):
                return ite(b.a[0], self.index(x, i, st), self.index(y, i, st))
        if b.op in ("add3",):
            pass
        return mk("idx", b, i)

    OPS = {ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
           ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&",
           ast.BitXor: "^", ast.MatMult: "@"}

    def e_BinOp(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        b = self.ev(e.right, st, fr)
        x, y = self.snapc(a, st), self.snapc(b, st)
        disp = (ast.List, ast.Tuple, ast.ListComp)
        if isinstance(e.op, ast.Add) and (self.pyseq(x) or self.pyseq(y) or isinstance(e.left, disp)
                                          and isinstance(e.right, disp)):
            return mk("pcat", x, y)
        if isinstance(e.op, ast.Mult) and (isinstance(e.left, disp) or isinstance(e.right, disp)):
            return mk("repeat", x, y) if isinstance(e.left, disp) else mk("repeat", y, x)
        op = self.OPS[type(e.op)]
        if op == "/" and getattr(self, "npdiv", 0):
            return mk("bin", "n/", x, y)
        return self.binop(op, x, y)

    def pyseq(self, t, seen=()):
        """The term is a Python list or tuple, not an array."""
        if t.op in ("append", "pcat", "repeat"):
            return True
        if t.op in ("list", "tuple"):
            return len(t.a[0]) == 0
        if t.op == "ite":
            return self.pyseq(t.a[1], seen) or self.pyseq(t.a[2], seen)
        if t.op in ("phi", "eta") and isinstance(t.a[0], Loop) and (t.a[0], t.a[1]) not in seen:
            L = t.a[0]
            seen = seen + ((L, t.a[1]),)
            for k in L.init:
                if self.kname(k) == t.a[1]:
                    return self.pyseq(L.init[k], seen) or k in L.nxt and self.pyseq(L.nxt[k], seen)
        return False

    def snapc(self, v, st):
        return self.snap(v, st) if v.op == "ref" and st.objs.get(v.a[0], UNDEF).op not in ("struct",) \
            and not self.is_ptr(v, st) else v

    def is_ptr(self, v, st):
        return False

    def binop(self, op, a, b):
        if a.op == "const" and b.op == "const":
            x, y = a.a[0], b.a[0]
            if isinstance(x, (int, float)) and isinstance(y, (int, float)):
                try:
                    r = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: x / y,
                         "//": lambda: x // y, "%": lambda: x % y, "**": lambda: x ** y,
                         "<<": lambda: x << y, ">>": lambda: x >> y, "|": lambda: x | y,
                         "&": lambda: x & y, "^": lambda: x ^ y}[op]()
                    if isinstance(r, (int, float)):
                        return const(r)
                except (ArithmeticError, TypeError, KeyError):
                    pass
            elif isinstance(x, str) and isinstance(y, str) and op == "+":
                return const(x + y)
        if op == "+" and b is const(0):
            return a
        if op == "+" and a is const(0):
            return b
        if op in ("*",) and b is const(1):
            return a
        if op == "*" and a is const(1):
            return b
        if op == "*" and (a is const(0) or b is const(0)):
            return const(0)
        if op == "+" and a.op in ("tuple", "list") and b.op in ("tuple", "list"):
            # concatenation (sequences) or vector sum (arrays) - decided by the literal kind
            return mk("concat", a, b)
        if op in ("|", "&", "^", "<<", ">>", "%", "@", "//", "**", "+", "-", "*", "/"):
            return mk("bin", op, a, b)
        raise Unsupported("operator " + op)

    def e_UnaryOp(self, e, st, fr):
        if isinstance(e.op, ast.Not):
            return not_(self.cond(e.operand, st, fr))
        v = self.snapc(self.ev(e.operand, st, fr), st)
        if isinstance(e.op, ast.USub):
            if v.op == "const" and isinstance(v.a[0], (int, float)):
                return const(-v.a[0])
            return mk("neg", v)
        if isinstance(e.op, ast.UAdd):
            return v
        return mk("inv", v)

    def e_BoolOp(self, e, st, fr):
        return self.boolop(e, st, fr, truth=False)

    CMPS = {ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=", ast.Eq: "==", ast.NotEq: "!=",
            ast.Is: "==", ast.IsNot: "!=", ast.In: "in", ast.NotIn: "not in"}

    def e_Compare(self, e, st, fr):
        a = self.ev(e.left, st, fr)
        r = TRUE
        for op, x in zip(e.ops, e.comparators):
            b = self.ev(x, st, fr)
            r = and_(r, self.cmp(self.CMPS[type(op)], self.snap(a, st) if a.op != "ref" or b.op != "const" else a,
                                 self.snap(b, st) if b.op != "ref" or a.op != "const" else b))
            a = b
        return r

    def cmp(self, op, a, b):
        if op == ">":
            return self.cmp("<", b, a)
        if op == ">=":
            return self.cmp("<=", b, a)
        if op == "!=":
            return not_(self.cmp("==", a, b))
        if op == "not in":
            return not_(self.cmp("in", a, b))
        if op == "==":
            if a is b and not (a.op == "const" and a.a[0] != a.a[0]):
                return TRUE
            if a.op == "const" and b.op == "const":
                return TRUE if a.a[0] == b.a[0] else FALSE
            if a.op == "enum" and b.op == "enum":
                return FALSE
            if (a.op in ("ref", "tuple", "list", "dict", "rec", "func", "class", "lam") and b is NONE) or \
                    (b.op in ("ref", "tuple", "list", "dict", "rec", "func", "class", "lam") and a is NONE):
                return FALSE
            if (a.op == "class" and b.op == "class") or (a.op == "func" and b.op == "func"):
                return FALSE
            if a.op == "ite" and (a.a[1].op in ("const", "enum") or a.a[2].op in ("const", "enum")) and \
                    b.op in ("const", "enum"):
                return self.itecond(a.a[0], self.cmp(op, a.a[1], b), self.cmp(op, a.a[2], b))
            if b.op == "const" and b.a[0] is True and a.op in ("cmp", "and", "or", "not"):
                return a
            if a.op == "const" or (b.op != "const" and b.id < a.id):
                a, b = b, a
            return mk("cmp", "==", a, b)
        if a.op == "const" and b.op == "const" and op in ("<", "<="):
            try:
                return TRUE if (a.a[0] < b.a[0] if op == "<" else a.a[0] <= b.a[0]) else FALSE
            except TypeError:
                pass
        if op == "in":
            if b.op in ("tuple", "list", "set"):
                r = FALSE
                for x in b.a[0]:
                    r = or_(r, self.cmp("==", a, x))
                return r
            if b.op == "dict" and a.op == "const" and all(k.op == "const" for k, _ in b.a[0]):
                return TRUE if any(k is a for k, _ in b.a[0]) else FALSE
        return mk("cmp", op, a, b)

    @staticmethod
    def itecond(c, a, b):
        return or_(and_(c, a), and_(not_(c), b)) if (a in (TRUE, FALSE) or b in (TRUE, FALSE)) else ite(c, a, b)

    def e_IfExp(self, e, st, fr):
        c = self.cond(e.test, st, fr)
        if c is TRUE:
            return self.ev(e.body, st, fr)
        if c is FALSE:
            return self.ev(e.orelse, st, fr)
        a, b = st.copy(), st.copy()
        a.guard, b.guard = and_(st.guard, c), and_(st.guard, not_(c))
        ga, gb, g = a.guard, b.guard, st.guard
        x = self.ev(e.body, a, fr)
        y = self.ev(e.orelse, b, fr)
        m = self.merge(c, a, b)
        if a.guard is ga and b.guard is gb:
            m.guard = g
        st.set(m)
        return ite(c, x, y)

    def e_Tuple(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.starred(e.elts, st, fr)
        return mk("tuple", tuple(self.ev(x, st, fr) for x in e.elts))

    def starred(self, elts, st, fr):
        out = mk("tuple", ())
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.snap(self.ev(x.value, st, fr), st)
                out = self.concat(out, v)
            else:
                out = self.concat(out, mk("tuple", (self.ev(x, st, fr),)))
        return out

    def concat(self, a, b):
        if a.op in ("tuple", "list") and b.op in ("tuple", "list"):
            return mk("list", a.a[0] + b.a[0])
        return mk("pcat", a, b)

    def e_List(self, e, st, fr):
        if any(isinstance(x, ast.Starred) for x in e.elts):
            return self.newobj(st, self.starred(e.elts, st, fr))
        return self.newobj(st, mk("list", tuple(self.ev(x, st, fr) for x in e.elts)))

    def e_Set(self, e, st, fr):
        return mk("set", tuple(self.ev(x, st, fr) for x in e.elts))

    def e_Dict(self, e, st, fr):
        items = []
        base = None
        for k, v in zip(e.keys, e.values):
            if k is None:
                d = self.snap(self.ev(v, st, fr), st)
                cur = mk("dict", tuple(items))
                base = d if base is None and not items else mk("dmerge", cur if base is None else mk("dmerge", base, cur), d)
                items = []
                continue
            items.append((self.ev(k, st, fr), self.ev(v, st, fr)))
        d = mk("dict", tuple(items))
        if base is not None:
            d = mk("dmerge", base, d) if items else base
        return self.newobj(st, d)

    def e_JoinedStr(self, e, st, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(const(str(v.value)))
            else:
                x = self.snap(self.ev(v.value, st, fr), st)
                if v.format_spec is not None or v.conversion not in (-1, None):
                    x = mk("fmt", x, const(ast.unparse(v.format_spec) if v.format_spec is not None else ""), const(v.conversion))
                parts.append(x)
        out = []
        for p in parts:
            if p.op == "const" and isinstance(p.a[0], str) and out and out[-1].op == "const" and isinstance(out[-1].a[0], str):
                out[-1] = const(out[-1].a[0] + p.a[0])
            else:
                out.append(p)
        if len(out) == 1 and out[0].op == "const":
            return out[0]
        return mk("fstr", tuple(out))

    def e_NamedExpr(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.assign(e.target, v, st, fr)
        return v

    def e_Await(self, e, st, fr):
        v = self.ev(e.value, st, fr)
        self.meanwhile(st)
        return v

    def meanwhile(self, st):
        """Others run while this function waits: what they share is no longer known."""
        for n in self.shared:
            x = st.vars.get(n)
            if x is not None and x.op == "sym" and not x.a[0].endswith("'"):
                st.vars[n] = mk("sym", x.a[0] + "'", *x.a[1:])

    def e_Starred(self, e, st, fr):
        raise Unsupported("starred")

    def e_Lambda(self, e, st, fr):
        return mk("func", FuncRef(e, fr.module, None, dict(st.vars)))

    def e_Yield(self, e, st, fr):
        v = NONE if e.value is None else self.ev(e.value, st, fr)
        return self.effect("yield", (self.snap(v, st),), st, e.lineno)

    def e_YieldFrom(self, e, st, fr):
        if isinstance(e.value, ast.Call):
            f = self.callee(e.value, st, fr)
            if f.op in ("func", "bound") and self.inlinable(f.a[0], True):
                args, kw = self.args(e.value, st, fr)
                if f.op == "bound":
                    args = [f.a[1]] + args
                v, ex = self.run(f.a[0], args, kw, st, cls=self.cls_of(f.a[1]) if f.op == "bound" else None)
                fr.exits.extend(ex)
                return v
        it = self.ev(e.value, st, fr)
        tmp = ast.Name("$y", ast.Store())

        def body(s):
            self.effect("yield", (self.snap(s.vars["$y"], s),), s, e.lineno)
            return s
        r = self.for_loop(tmp, it, body, [], st, fr, e, ["$y"])
        st.set(r)
        return NONE

    # comprehensions
    def comp(self, e, st, fr, push, init):
        ref = self.newobj(st, init)
        saved = {}
        names = []
        for g in e.generators:
            for n in assigned([ast.Assign([g.target], ast.Constant(0))]):
                names.append(n)
        for n in names:
            if n in st.vars:
                saved[n] = st.vars[n]

        def gen(i, s):
            if i == len(e.generators):
                push(s, ref)
                return s
            g = e.generators[i]
            it = self.ev(g.iter, s, fr)

            def body(x):
                c = TRUE
                for t in g.ifs:
                    # conditions are evaluated in order, each under the previous ones
                    y = x.copy()
                    y.guard = and_(x.guard, c)
                    c = and_(c, self.cond(t, y, fr))
                    x.objs, x.heap = y.objs, y.heap
                if c is FALSE:
                    return x
                a, b = x.copy(), x.copy()
                a.guard, b.guard = and_(x.guard, c), and_(x.guard, not_(c))
                g0 = x.guard
                a = gen(i + 1, a)
                if c is TRUE:
                    return a
                m = self.merge(c, a, b)
                return m
            inner = assigned([ast.Assign([g2.target], ast.Constant(0)) for g2 in e.generators[i:]])
            return self.for_loop(g.target, it, body, [], s, fr, e, inner)
        r = gen(0, st)
        if r is None:
            st.guard = FALSE
        else:
            st.set(r)
        for n in names:
            st.vars.pop(n, None)
        st.vars.update(saved)
        return ref

    def e_ListComp(self, e, st, fr):
        def push(s, ref):
            v = self.ev(e.elt, s, fr)
            s.objs[ref.a[0]] = self.append(s.objs[ref.a[0]], self.snap(v, s))
        return self.comp(e, st, fr, push, mk("list", ()))

    def e_GeneratorExp(self, e, st, fr):
        return self.e_ListComp(e, st, fr)

    def e_SetComp(self, e, st, fr):
        r = self.e_ListComp(e, st, fr)
        return mk("call", mk("bi", "set"), (self.snap(r, st),), ())

    def e_DictComp(self, e, st, fr):
        def push(s, ref):
            k = self.snap(self.ev(e.key, s, fr), s)
            v = self.snap(self.ev(e.value, s, fr), s)
            s.objs[ref.a[0]] = self.store(s.objs[ref.a[0]], k, v)
        return self.comp(e, st, fr, push, mk("dict", ()))

    def append(self, l, v):
        if l.op == "list":
            return mk("list", l.a[0] + (v,))
        return mk("append", l, v)

    # ------------------------------------------------------------- calls
    def callee(self, e, st, fr):
        f = e.func
        if isinstance(f, ast.Attribute):
            b = self.ev(f.value, st, fr)
            return self.method(b, f.attr, st, fr)
        return self.ev(f, st, fr)

    def method(self, b, name, st, fr):
        t = self.attr(b, name, st, fr)
        if t.op == "attr" and t.a[0] is b and name not in DISPATCH_EXEMPT:
            # class hierarchy analysis: a method name defined once in the project
            ms = [m for m in self.repo.method_index.get(name, []) if not m.name.startswith("__")]
            if len(ms) == 1 and not ms[0].is_property and not ms[0].is_static and not ms[0].is_class \
                    and not self.abstract(ms[0]) and b.op not in ("ref", "const", "tuple", "glob", "ext"):
                return mk("bound", FuncRef.of(ms[0], ms[0].module, ms[0].cls), b, "cha")
        return t

    def args(self, e, st, fr):
        args, kw = [], {}
        for a in e.args:
            if isinstance(a, ast.Starred):
                v = self.snap(self.ev(a.value, st, fr), st)
                if v.op in ("tuple", "list"):
                    args.extend(v.a[0])
                else:
                    args.append(mk("star", v))
            else:
                args.append(self.ev(a, st, fr))
        for k in e.keywords:
            v = self.ev(k.value, st, fr)
            if k.arg is None:
                v = self.snap(v, st)
                if v.op == "dict" and all(x.op == "const" for x, _ in v.a[0]):
                    for x, y in v.a[0]:
                        kw[x.a[0]] = y
                elif "**" in kw:
                    kw["**"] = mk("dmerge", kw["**"], v)
                else:
                    kw["**"] = v
            else:
                kw[k.arg] = v
        return args, kw

    def e_Call(self, e, st, fr):
        return self.call(e, st, fr)

    def call(self, e, st, fr, stmt=False):
        if isinstance(e.func, ast.Name):
            n = e.func.id
            h = getattr(self, "b_" + n, None)
            if h is not None and n not in st.vars:
                return h(e, st, fr)
        # methods that mutate the place they are called on
        if isinstance(e.func, ast.Attribute) and e.func.attr in MUTATORS:
            r = self.mutate(e, st, fr, stmt)
            if r is not None:
                return r
        f = self.callee(e, st, fr)
        args, kw = self.args(e, st, fr)
        if CHANGERS and fr.module.lang != "cy":
            self.pending = e
        return self.apply(f, args, kw, st, fr, e.lineno, stmt)

    def handback(self, e, fref, args, end, st, fr):
        """Containers the function called has changed in place change for the caller too."""
        if any(isinstance(a, ast.Starred) for a in e.args):
            return
        d = fref.d
        ps = [a.arg for a in d.args.args]
        off = len(args) - len(e.args)
        exprs = dict(zip(ps[off:], e.args)) if off >= 0 else {}
        exprs.update((k.arg, k.value) for k in e.keywords)
        for p in next((ix for x, ix in CHANGERS.get(fref.name, ()) if x is d), ()):
            x = exprs.get(p)
            old, new = end[0].get(p), end[1].get(p)
            if x is None or old is None or new is None or new is old or old.op == "ref" or new.op in ("undef", "ref"):
                continue
            if isinstance(x, ast.Name) and x.id not in fr.boxed:
                st.vars[x.id] = new
                self.through(x.id, st, None)
            elif isinstance(x, ast.Attribute):
                self.setattr(self.ev(x.value, st, fr), x.attr, new, st, fr, x)
            elif isinstance(x, ast.Subscript) and not isinstance(x.slice, ast.Slice):
                self.storeat(self.ev(x.value, st, fr), self.ev_index(x.slice, st, fr), new, st, fr, x.value, x.lineno)

    def inlinable(self, fref, gen=False, args=()):
        if fref.name in self.opaque and not isinstance(fref.d, ast.Lambda):
            return False
        n = sum(1 for f in self.stack if f.fref.d is fref.d)
        if n > 1 or n and not any(a.op in ("func", "class") for a in args):
            return False             # recursion: followed once, where the call fixes a case
        if fref.cls is not None and hasattr(fref.d, "decorator_list") and self.abstract(fref.d):
            return False
        if not gen and not isinstance(fref.d, ast.Lambda) and self.generator(fref.d):
            return False
        if not isinstance(fref.d, ast.Lambda):
            for dec in fref.d.decorator_list:
                n = ast.unparse(dec)
                if n not in ("staticmethod", "classmethod", "property") and not n.endswith(".setter") \
                        and fref.env is None:
                    return False
        return True

    @staticmethod
    def generator(d):
        r = getattr(d, "_is_gen", None)
        if r is None:
            r = False
            todo = list(d.body)
            while todo:
                n = todo.pop()
                if isinstance(n, (ast.Yield, ast.YieldFrom)):
                    r = True
                if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.AsyncFunctionDef)):
                    continue
                todo.extend(ast.iter_child_nodes(n))
            d._is_gen = r
        return r

    def invoke(self, fref, args, kw, st, fr, cls=None, site=None):
        v, ex = self.run(fref, args, kw, st, cls=cls)
        fr.exits.extend(ex)
        if site is not None and self.last is not None:
            self.handback(site, fref, args, self.last, st, fr)
        return v

    def apply(self, f, args, kw, st, fr, line, stmt=False):
        site, self.pending = self.pending, None
        if f.op == "ite" and f.a[1].op == f.a[2].op == "attr" and f.a[1].a[1] == f.a[2].a[1]:
            f = mk("attr", ite(f.a[0], f.a[1].a[0], f.a[2].a[0]), f.a[1].a[1])
        if f.op == "ite" and f.a[1].op in ("func", "bound", "class", "bi", "ext") and not stmt:
            a, b = st.copy(), st.copy()
            c = f.a[0]
            a.guard, b.guard = and_(st.guard, c), and_(st.guard, not_(c))
            ga, gb, g = a.guard, b.guard, st.guard
            x = self.apply(f.a[1], args, kw, a, fr, line)
            y = self.apply(f.a[2], args, kw, b, fr, line)
            m = self.merge(c, a, b)
            if a.guard is ga and b.guard is gb:
                m.guard = g
            st.set(m)
            return ite(c, x, y)
        if f.op in ("func", "bound"):
            fref = f.a[0]
            if len(f.a) > 2 and not self.accepts(fref, len(args) + 1, kw):
                return self.method_call(f.a[1], fref.name, args, kw, st, fr, line, stmt)
            if f.op == "bound":
                args = [f.a[1]] + args
            p = self.prims.get(fref.name)
            if p is not None:
                args, kw = self.positional(fref, args, kw)
                r = p(self, args, kw, st, fr, line)
                if r is not None:
                    return r
            if self.inlinable(fref, args=args):
                return self.invoke(fref, args, kw, st, fr, cls=self.cls_of(f.a[1]) if f.op == "bound" and f.a[1].op != "class" else None, site=site)
            return self.opaque_call(self.norm_call(fref, args, kw, st), st, fr, line, stmt, fref)
        if f.op == "class":
            return self.construct(f.a[0], args, kw, st, fr, line)
        if f.op == "bi":
            return self.builtin(f.a[0], args, kw, st, fr, line, stmt)
        if f.op == "ext":
            return self.external_call(f.a[0], args, kw, st, fr, line, stmt)
        if f.op == "attr":
            return self.method_call(f.a[0], f.a[1], args, kw, st, fr, line, stmt)
        if f.op == "partial":
            return self.apply(f.a[0], list(f.a[1]) + args, {**dict(f.a[2]), **kw}, st, fr, line, stmt)
        return self.opaque_call(mk("call", self.snap(f, st), self.snapargs(args, st), self.snapkw(kw, st, fr)),
                                st, fr, line, stmt)

    @staticmethod
    def accepts(fref, n, kw):
        a = fref.d.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if a.vararg is None and n > len(names):
            return False
        have = set(names[:n]) | set(kw)
        need = names[:len(names) - len(a.defaults)] + \
            [x.arg for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is None]
        if "**" not in kw and any(x not in have for x in need):
            return False
        ok = set(names) | {x.arg for x in a.kwonlyargs} | {"**"}
        return a.kwarg is not None or all(k in ok for k in kw)

    def snapargs(self, args, st):
        return tuple(self.argterm(a, st) for a in args)

    def argterm(self, a, st):
        if a.op == "func":
            d = a.a[0].d
            if isinstance(d, ast.Lambda) or a.a[0].env is not None:
                return self.lam(a.a[0], st, self.stack[-1] if self.stack else None)
        a = self.snap(a, st)
        if a.op in ("list", "tuple") and any(x.op == "func" for x in a.a[0]):
            return mk(a.op, tuple(self.argterm(x, st) for x in a.a[0]))
        return a

    def snapkw(self, kw, st, fr=None):
        return tuple((k, self.argterm(v, st)) for k, v in sorted(kw.items()))

    def lam(self, fref, st, fr):
        """A closure as a term: its body as a function of its parameters."""
        n = len(fref.d.args.args)
        B = Binder(n)
        sink, amb = self.sink, self.ambient
        self.sink, self.ambient = B.effects, TRUE
        s = State()
        s.vars, s.objs, s.heap = dict(st.vars), dict(st.objs), dict(st.heap)
        self.loops.append(B)
        try:
            if sum(1 for f in self.stack if f.fref.d is fref.d) or fref.name in self.opaque:
                raise Unsupported("recursive closure")
            v, ex = self.run(fref, [mk("phi", B, i) for i in range(n - len(fref.d.args.defaults))], {}, s)
            v = self.snap(v, s)
        finally:
            self.sink, self.ambient = sink, amb
            self.loops.pop()
        B.body = v
        B.raises = [(e.guard, e.value) for e in ex]
        B.outer = frozenset(x for x in self.loops[-1:])
        return mk("lam", B)

    def positional(self, fref, args, kw):
        """Keyword arguments moved to their positions, defaults filled in."""
        d = fref.d.args
        names = [x.arg for x in d.posonlyargs + d.args]
        if d.vararg is not None or "**" in kw or any(a.op == "star" for a in args):
            return args, kw
        defaults = dict(zip(names[len(names) - len(d.defaults):], d.defaults))
        out, rest = list(args), dict(kw)
        for n in names[len(args):]:
            if n in rest:
                out.append(rest.pop(n))
            elif n in defaults and (rest or True):
                s = State()
                out.append(self.snap(self.ev(defaults[n], s, Frame(fref)), s))
            else:
                return args, kw
        return out, rest

    def norm_call(self, fref, args, kw, st):
        """Opaque project call with arguments normalised to parameter names."""
        d = fref.d
        names = [x.arg for x in d.args.posonlyargs + d.args.args]
        kwonly = [x.arg for x in d.args.kwonlyargs]
        vals = {}
        rest = []
        if d.args.vararg is None:
            args = self.spread(args, names, kw, len(d.args.defaults))
        for i, a in enumerate(args):
            if a.op == "star" or i >= len(names):
                rest.append(self.argterm(a, st))
            else:
                vals[names[i]] = self.argterm(a, st)
        for k, v in kw.items():
            vals[k] = self.argterm(v, st)
        defaults = dict(zip(names[len(names) - len(d.args.defaults):], d.args.defaults))
        defaults.update({n: x for n, x in zip(kwonly, d.args.kw_defaults) if x is not None})
        if not rest and "**" not in vals:
            for n, x in defaults.items():
                if n not in vals:
                    s = State()
                    vals[n] = self.snap(self.ev(x, s, Frame(fref)), s)
        return mk("pcall", fref.name, tuple(rest), tuple(sorted(vals.items())))

    def may_raise(self, t, st, fr, line, classes=None, always=False):
        if not always and not fr.trys and not any(f.trys for f in self.stack):
            return
        if self.limits and None not in self.limits:
            x = t
            while x.op == "eff" and getattr(x.a[0], "payload", None):
                x = x.a[0].payload[0]
            if x.op != "mcall" or not any(x.a[0] in l for l in self.limits):
                return
        g = mk("raises", t)
        s = st.copy()
        s.guard = and_(st.guard, g)
        fr.exits.append(Exit("raise", s.guard, mk("exc", t), s, line))
        st.guard = and_(st.guard, not_(g))

    def opaque_call(self, t, st, fr, line, stmt, fref=None):
        """A call left uninterpreted: pure value unless it is a statement or a
        known effect."""
        eff = stmt or self.effectful(t, fref)
        if eff:
            v = self.effect("call", (t,), st, line)
            self.may_raise(v, st, fr, line)
            return v
        if fref is not None and self.generator(fref.d):
            return t
        self.may_raise(t, st, fr, line)
        return t

    @staticmethod
    def queue_get(a):
        return a[0].op == "const" and isinstance(a[0].a[0], bool)

    def effectful(self, t, fref):
        if t.op == "mcall" and t.a[0] == "get":
            return not t.a[2] and not t.a[3] or bool(t.a[3] and any(k in ("block", "timeout") for k, _ in t.a[3])) or bool(t.a[2]) and self.queue_get(t.a[2])
        if t.op == "mcall" and t.a[0] in ("wait", "result", "join") and not t.a[2]:
            return True
        if t.op == "mcall":
            return t.a[0] in EFFECT_METHODS
        if t.op == "call" and t.a[0].op == "ext":
            return t.a[0].a[0] in EFFECT_EXT
        if t.op == "call" and t.a[0].op == "bi":
            return t.a[0].a[0] in EFFECT_EXT
        return False

    def construct(self, c, args, kw, st, fr, line):
        d = c.d
        if self.is_enum(d) and len(args) == 1:
            return mk("call", mk("class", c), (self.snap(args[0], st),), ())
        if self.is_dataclass(d):
            fields, defaults = [], {}
            for k in reversed(self.repo.mro(d)):
                for s in k.body:
                    if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name):
                        if s.target.id not in fields:
                            fields.append(s.target.id)
                        if s.value is not None:
                            defaults[s.target.id] = s.value
            vals = {}
            for n, a in zip(fields, args):
                vals[n] = a
            if "**" in kw or len(args) > len(fields) or any(k not in fields for k in kw):
                return mk("new", c, tuple(sorted((k, self.snap(v, st)) for k, v in kw.items())))
            vals.update(kw)
            for n in fields:
                if n not in vals:
                    if n not in defaults:
                        raise Unsupported("missing field " + n)
                    vals[n] = self.ev(defaults[n], State(), Frame(FuncRef(None, d.module)))
            post = self.repo.method(d, "__post_init__")
            return mk("rec", c, tuple((n, self.snap(vals[n], st)) for n in fields))
        init = self.repo.method(d, "__init__")
        if init is None:
            return mk("new", c, tuple(("arg%d" % i, self.argterm(a, st)) for i, a in enumerate(args)) +
                      tuple(sorted((k, self.argterm(v, st)) for k, v in kw.items())))
        t = self.norm_call(FuncRef.of(init, init.module, init.cls), [mk("self")] + args, kw, st)
        t = mk("new", c, tuple(x for x in t.a[2] if x[0] != "self") + tuple(("*%d" % i, x) for i, x in enumerate(t.a[1])))
        p = self.prims.get(d.name)
        if p is not None:
            return p(self, [], dict(t.a[1]), st, fr, line)
        self.may_raise(t, st, fr, line)
        return t

    # -- mutation of local containers and of attributes holding containers
    def mutate(self, e, st, fr, stmt):
        name = e.func.attr
        b = self.ev(e.func.value, st, fr)
        if b.op in ("ext", "mod", "class", "super", "const"):
            return None
        if b.op in ("sym", "phi") and self.cls_of(b) is not None and self.repo.method(self.cls_of(b), name):
            return None
        args, kw = self.args(e, st, fr)
        if b.op == "ref":
            o = b.a[0]
            cur = st.objs[o]
            if cur.op == "struct":
                return None
            new, val = self.mutated(cur, name, args, kw, st)
            st.objs[o] = new
            return val
        if b.op == "ite" and has_ref(b):
            raise Unsupported("mutation through a merged object")
        if isinstance(e.func.value, (ast.Name, ast.Attribute, ast.Subscript)) and name not in ("remove",):
            new, val = self.mutated(b, name, args, kw, st)
            if isinstance(e.func.value, ast.Name):
                if self.external(b) and "\0" + e.func.value.id not in st.vars:
                    self.effect("call", (mk("mcall", name, b, self.snapargs(args, st), self.snapkw(kw, st)),), st, e.lineno)
                st.vars[e.func.value.id] = new
                self.through(e.func.value.id, st, (("item", args[0]),) if name == "setdefault" and args else None)
            elif isinstance(e.func.value, ast.Attribute):
                self.setattr(self.ev(e.func.value.value, st, fr), e.func.value.attr, new, st, fr, e)
            else:
                bb = self.ev(e.func.value.value, st, fr)
                ii = self.ev_index(e.func.value.slice, st, fr)
                self.storeat(bb, ii, new, st, fr, e.func.value.value, e.lineno)
            return val
        return self.method_call(b, name, args, kw, st, fr, e.lineno, stmt)

    def mutated(self, cur, name, args, kw, st):
        a = [self.argterm(x, st) for x in args]
        if name == "append":
            return self.append(cur, a[0]), NONE
        if name == "extend":
            return self.concat(cur, a[0]), NONE
        if name == "sort":
            return mk("sorted", cur, tuple((k, self.argterm(v, st)) for k, v in sorted(kw.items()))), NONE
        if name == "reverse":
            return mk("reversed", cur), NONE
        if name == "update" and cur.op == "dict" and a and a[0].op == "dict":
            r = cur
            for k, v in a[0].a[0]:
                r = self.store(r, k, v)
            return r, NONE
        if name == "update" and kw and not a:
            r = cur
            for k, v in sorted(kw.items()):
                r = self.store(r, const(k), self.argterm(v, st))
            return r, NONE
        if name == "pop" and cur.op == "dict" and a and a[0].op == "const":
            for k, v in cur.a[0]:
                if k is a[0]:
                    return mk("dict", tuple(x for x in cur.a[0] if x[0] is not k)), v
        if name == "setdefault" and cur.op in ("sym", "store") and len(a) == 2 and not kw:
            v = mk("mcall", "get", cur, (a[0], a[1]), ())
            return self.store(cur, a[0], v), v
        if name == "clear":
            return (mk("dict", ()) if cur.op in ("dict", "store") else mk("list", ())), NONE
        t = tuple(a) + tuple(v for _, v in self.snapkw(kw, st))
        return mk("mut", name, cur, t), mk("mutval", name, cur, t)

    # -- builtins with special syntax
    def b___array__(self, e, st, fr):
        return self.newobj(st, mk("carray", e.args[0].value, self.ev(e.args[1], st, fr)))

    def b___struct__(self, e, st, fr):
        return self.newobj(st, mk("struct", e.args[0].value))

    def b___cast__(self, e, st, fr):
        t = e.args[0].value
        v = self.ev(e.args[1], st, fr)
        if t in ("int", "long", "long int") and v.op == "bin":
            return mk("trunc", v)
        return v

    def b___addr__(self, e, st, fr):
        x = e.args[0]
        if isinstance(x, ast.Name):
            v = st.vars.get(x.id, None)
            if v is None:
                raise Unsupported("address of " + x.id)
            return v
        if isinstance(x, ast.Subscript):
            return self.binop("+", self.ev(x.value, st, fr), self.ev(x.slice, st, fr))
        raise Unsupported("address of expression")

    def b_super(self, e, st, fr):
        if fr.cls is None and not e.args:
            raise Unsupported("super")
        c = fr.fref.cls if fr.fref.cls is not None else fr.cls
        me = None
        args = fr.fref.d.args.args
        me = st.vars.get(args[0].arg) if args else None
        return mk("super", ClassRef.of(c), me)

    def b_isinstance(self, e, st, fr):
        v = self.ev(e.args[0], st, fr)
        k = self.ev(e.args[1], st, fr)
        return self.isinst(self.snap(v, st) if v.op == "ref" else v, self.snap(k, st))

    def isinst(self, v, k):
        if k.op in ("tuple", "list"):
            r = FALSE
            for x in k.a[0]:
                r = or_(r, self.isinst(v, x))
            return r
        c = self.cls_of(v)
        if k.op == "class":
            if c is not None and v.op in ("rec", "new", "with"):
                return TRUE if k.a[0].d in self.repo.mro(c) else FALSE
            n = k.a[0].name
        elif k.op in ("bi", "glob", "ext"):
            n = k.a[0]
        else:
            return mk("truth", mk("call", mk("bi", "isinstance"), (v, k), ()))
        if v.op == "const":
            py = {"int": int, "float": float, "str": str, "bool": bool}.get(n)
            if py is not None:
                return TRUE if isinstance(v.a[0], py) else FALSE
            if v is NONE:
                return FALSE
        if v.op == "tuple" and n in ("tuple",):
            return TRUE
        if v.op == "ite":
            return ite(v.a[0], self.isinst(v.a[1], k), self.isinst(v.a[2], k))
        return mk("isinst", v, n)

    def b_hasattr(self, e, st, fr):
        v = self.ev(e.args[0], st, fr)
        return mk("truth", mk("call", mk("bi", "hasattr"), (self.snap(v, st), self.ev(e.args[1], st, fr)), ()))

    def b_getattr(self, e, st, fr):
        v = self.ev(e.args[0], st, fr)
        n = self.ev(e.args[1], st, fr)
        if n.op == "const" and isinstance(n.a[0], str):
            x = self.attr(v, n.a[0], st, fr)
            if len(e.args) == 2 or x.op != "attr":
                return x
            return mk("getattr", x, self.snap(self.ev(e.args[2], st, fr), st))
        return mk("call", mk("bi", "getattr"), (self.snap(v, st), self.snap(n, st)) +
                  tuple(self.snap(self.ev(x, st, fr), st) for x in e.args[2:]), ())

    def b_setattr(self, e, st, fr):
        v = self.ev(e.args[0], st, fr)
        n = self.ev(e.args[1], st, fr)
        x = self.ev(e.args[2], st, fr)
        if n.op == "const":
            self.setattr(v, n.a[0], x, st, fr, e)
        else:
            self.effect("setattr", (v, n, self.snap(x, st)), st, e.lineno)
        return NONE

    def builtin(self, n, args, kw, st, fr, line, stmt):
        a = [self.argterm(x, st) for x in args]
        if n == "len" and len(a) == 1:
            return self.length(a[0])
        if n == "range":
            if len(a) == 1:
                return mk("range", const(0), a[0], const(1))
            if len(a) == 2:
                return mk("range", a[0], a[1], const(1))
            return mk("range", *a)
        if n == "enumerate":
            return mk("enumerate", a[0], a[1] if len(a) > 1 else self.argterm(kw["start"], st) if "start" in kw else const(0))
        if n == "zip":
            return mk("zip", tuple(a))
        if n in ("list", "tuple", "iter") and len(a) == 1:
            if n == "list" and a[0].op in ("tuple", "list", "append", "concat", "idx", "attr", "sym", "eta"):
                return self.newobj(st, a[0] if a[0].op != "tuple" else mk("list", a[0].a[0]))
            return a[0]
        if n == "list" and not a:
            return self.newobj(st, mk("list", ()))
        if n == "tuple" and not a:
            return mk("tuple", ())
        if n == "dict" and not a:
            return self.newobj(st, mk("dict", tuple((const(k), v) for k, v in sorted(kw.items()))))
        if n == "dict" and len(a) == 1:
            return self.newobj(st, a[0] if not kw else mk("dmerge", a[0], mk("dict", tuple((const(k), v) for k, v in sorted(kw.items())))))
        if n in ("float",) and len(a) == 1:
            if a[0].op == "const" and isinstance(a[0].a[0], str):
                try:
                    return const(float(a[0].a[0]))
                except ValueError:
                    pass
            return mk("float", a[0]) if a[0].op != "const" else const(float(a[0].a[0])) if isinstance(a[0].a[0], (int, float)) else mk("float", a[0])
        if n == "int" and len(a) == 1:
            return mk("trunc", a[0])
        if n == "bool" and len(a) == 1:
            return self.truth(a[0])
        if n == "abs":
            return mk("fn", "abs", a[0])
        if n in ("min", "max", "sum", "any", "all", "sorted", "reversed", "map", "filter", "set", "frozenset"):
            if n in ("min", "max") and len(a) > 1 and not kw:
                return mk("fn", n, mk("tuple", tuple(a)))
            if n in ("min", "max", "sum") and len(a) == 1 and not kw:
                return mk("fn", n, a[0])
            if n == "sum" and len(a) == 2:
                return self.binop("+", mk("fn", "sum", a[0]), a[1])
            if n in ("any", "all") and len(a) == 1:
                if a[0].op in ("tuple", "list"):
                    r = FALSE if n == "any" else TRUE
                    for x in a[0].a[0]:
                        r = or_(r, self.truth(x)) if n == "any" else and_(r, self.truth(x))
                    return r
                return mk(n + "of", a[0])
            if n == "sorted":
                kws = tuple((k, self.argterm(v, st)) for k, v in sorted(kw.items()))
                return mk("sorted", a[0], kws)
            if n == "reversed":
                return mk("reversed", a[0])
            if n in ("map", "filter"):
                return self.mapfilter(n, args, st, fr, line)
            if n in ("set", "frozenset"):
                return mk("call", mk("bi", "set"), tuple(a), ())
        if n in ("print",):
            t = mk("call", mk("bi", n), tuple(a), self.snapkw(kw, st))
            return self.effect("print", (t,), st, line)
        if n == "type" and len(a) == 1:
            c = self.cls_of(a[0])
            return mk("class", ClassRef.of(c)) if c is not None and a[0].op != "sym" else mk("typeof", a[0])
        if n == "callable":
            return mk("truth", mk("call", mk("bi", n), tuple(a), ()))
        if n == "str" and len(a) == 1:
            if a[0].op == "fstr" or (a[0].op == "const" and isinstance(a[0].a[0], str)):
                return a[0]
            return mk("fstr", (a[0],))
        if n.endswith("Error") or n.endswith("Exception") or n in ("StopIteration", "Exception", "KeyboardInterrupt", "SystemExit"):
            return mk("new", n, tuple(("arg%d" % i, x) for i, x in enumerate(a)))
        return self.opaque_call(mk("call", mk("bi", n), tuple(a), self.snapkw(kw, st)), st, fr, line, stmt)

    def mapfilter(self, n, args, st, fr, line):
        f = args[0]
        its = [self.snap(x, st) for x in args[1:]]
        it = its[0] if len(its) == 1 else mk("zip", tuple(its))
        ref = self.newobj(st, mk("list", ()))
        tmp = ast.Name("$m", ast.Store())

        def body(s):
            x = s.vars["$m"]
            xs = [x] if len(its) == 1 else [self.index(x, const(i), s) for i in range(len(its))]
            v = self.apply(f, xs, {}, s, fr, line)
            if n == "map":
                s.objs[ref.a[0]] = self.append(s.objs[ref.a[0]], self.snap(v, s))
                return s
            c = self.truth(v, s)
            a, b = s.copy(), s.copy()
            a.guard, b.guard = and_(s.guard, c), and_(s.guard, not_(c))
            a.objs[ref.a[0]] = self.append(a.objs[ref.a[0]], self.snap(x, s))
            return self.merge(c, a, b)
        node = ast.Pass()
        node.lineno = line
        r = self.for_loop(tmp, it, body, [], st, fr, node, ["$m"])
        r.vars.pop("$m", None)
        st.set(r)
        return ref

    # -- external libraries
    def external_call(self, d, args, kw, st, fr, line, stmt):
        if d.startswith("anytree.") and d.endswith("OrderIter") and "filter_" in kw:
            # a filtered walk keeps the nodes of the whole walk that satisfy the predicate
            kw = dict(kw)
            f = kw.pop("filter_")
            return self.mapfilter("filter", [f, self.external_call(d, args, kw, st, fr, line, stmt)], st, fr, line)
        a = [self.argterm(x, st) for x in args]
        if d in EXT and len(a) >= 1:
            return mk("fn", EXT[d], *a)
        if d in PURE_CASTS and len(a) >= 1:
            return mk("nparr", a[0]) if d.startswith("numpy.") and self.pyseq(a[0]) else a[0]
        if d in ("numpy.sum",) and len(a) == 1 and not kw:
            return mk("fn", "sum", a[0])
        if d in ("numpy.prod",) and len(a) == 1 and not kw:
            return mk("fn", "prod", a[0])
        if d in ("numpy.max", "numpy.min", "numpy.amax", "numpy.amin") and len(a) == 1 and not kw:
            return mk("fn", "max" if "max" in d else "min", a[0])
        if d in ("numpy.minimum", "numpy.maximum", "numpy.fmin", "numpy.fmax"):
            return mk("fn", "min" if "min" in d else "max", mk("tuple", tuple(a[:2])))
        if d == "numpy.dot" and len(a) == 2:
            return mk("fn", "dot", *a)
        if d == "numpy.power" and len(a) == 2:
            return self.binop("**", *a)
        if d == "numpy.square" and len(a) == 1:
            return self.binop("**", a[0], const(2))
        if d == "numpy.hypot" and len(a) == 2:
            return mk("fn", "sqrt", self.binop("+", self.binop("*", a[0], a[0]), self.binop("*", a[1], a[1])))
        if d in ("numpy.add", "numpy.subtract", "numpy.multiply", "numpy.divide") and len(a) == 2:
            return self.binop({"add": "+", "subtract": "-", "multiply": "*", "divide": "/"}[d[6:]], *a)
        if d == "numpy.negative":
            return mk("neg", a[0])
        if d == "numpy.linalg.norm" and len(a) == 1 and not kw:
            return mk("fn", "norm", a[0])
        if d == "numpy.cross":
            return mk("fn", "cross", *a)
        if d in ("cython.parallel.prange", "prange") and a:
            return self.builtin("range", args, {}, st, fr, line, False)
        if d in ("numpy.arange",) and not kw:
            return self.builtin("range", args, {}, st, fr, line, False)
        if d in ("numpy.isclose", "numpy.allclose", "math.isclose"):
            k = dict((x, self.argterm(y, st)) for x, y in kw.items())
            names = ("rtol", "atol")
            for i, x in enumerate(a[2:]):
                k[names[i]] = x
            if d == "math.isclose":
                return mk("truth", mk("call", mk("ext", d), tuple(a), self.snapkw(kw, st)))
            r = mk("isclose", a[0], a[1], k.get("rtol", const(1e-05)), k.get("atol", const(1e-08)))
            return mk("allof", r) if d == "numpy.allclose" else r
        if d in ("numpy.isfinite", "math.isfinite"):
            return mk("finite", a[0])
        if d in ("numpy.any", "numpy.all") and len(a) == 1 and not kw:
            if a[0].op in ("cmp", "and", "or", "not", "finite", "isclose"):
                return mk("anyof" if d.endswith("any") else "allof", a[0])
            return self.builtin(d[6:], args, {}, st, fr, line, False)
        if d in ("numpy.logical_or", "numpy.logical_and"):
            return or_(a[0], a[1]) if d.endswith("or") else and_(a[0], a[1])
        if d == "numpy.logical_not":
            return not_(a[0])
        if d == "numpy.where" and len(a) == 3:
            return mk("ite", a[0], a[1], a[2])
        if d.startswith("numpy.random.") or d.startswith("random."):
            return self.draw(d, a, kw, st, fr, line)
        if d == "numpy.column_stack" and len(a) == 1:
            return mk("colstack", a[0])
        if d in ("numpy.zeros", "numpy.ones", "numpy.empty", "numpy.full", "numpy.eye", "numpy.identity"):
            k = {x: y for x, y in kw.items() if x != "dtype"}
            dt = kw.get("dtype")
            n = d[6:]
            if self.alloc and n in ("zeros", "ones", "full", "empty"):
                # every array keeps its identity; its role is decided by where its address goes
                shape = a[0] if a else self.argterm(k["shape"], st)
                if shape.op == "tuple" and len(shape.a[0]) == 1:
                    shape = shape.a[0][0]
                fill = mk("garbage") if n == "empty" else const(0) if n == "zeros" else const(1) if n == "ones" else \
                    (a[1] if len(a) > 1 else self.argterm(k["fill_value"], st))
                self.nalloc += 1
                return mk("alloc", self.nalloc, shape, fill, self.dtype(dt, st))
            if n in ("zeros", "empty", "ones", "full"):
                shape = a[0] if a else self.argterm(k["shape"], st)
                fill = const(0.0) if n in ("zeros", "empty") else const(1.0) if n == "ones" else \
                    (a[1] if len(a) > 1 else self.argterm(k["fill_value"], st))
                if n == "empty":
                    fill = mk("garbage")
                v = None
                if shape.op == "tuple" and len(shape.a[0]) == 1:
                    shape = shape.a[0][0]
                if shape.op == "const" and isinstance(shape.a[0], int) and shape.a[0] <= 4:
                    r = self.newobj(st, mk("list", (fill,) * shape.a[0]))
                else:
                    r = self.newobj(st, mk("filled", shape, fill, self.dtype(dt, st)))
                self.arrays.add(r.a[0])
                return r
            return mk("eye", a[0])
        if d in ("dataclasses.replace",):
            return self.replace(args[0], kw, st)
        if d == "functools.partial":
            return mk("partial", args[0], tuple(args[1:]), tuple(sorted(kw.items())))
        if d.startswith(IGNORED_CALLS[1:]) or d in ("typing.cast",):
            return NONE if d != "typing.cast" else a[1]
        if d == "collections.Counter":
            return mk("counter", *a)
        if d.startswith("libc."):
            return mk("fn", d, *a)
        if d == "typer.confirm":
            # abort=True: raises typer.Abort when the answer is no
            ab = kw.pop("abort", None)
            if ab is not None and not (ab.op == "const" and ab.a[0] is True):
                kw["abort"] = ab
                ab = None
            v = self.effect("call", (mk("call", mk("ext", d), (), tuple(x for x in self.snapkw(kw, st) if x[0] != "text")),), st, line)
            if ab is not None:
                no = not_(mk("truth", v))
                r = st.copy()
                r.guard = and_(st.guard, no)
                fr.exits.append(Exit("raise", r.guard, mk("call", mk("ext", "typer.Abort"), (), ()), r, line))
                st.guard = and_(st.guard, not_(no))
            return v
        if d == "time.sleep":
            a = []
        if d in ("numpy.cumsum", "numpy.sum", "numpy.prod", "numpy.mean") and "dtype" in kw and len(a) == 1:
            a = [mk("astype", a[0], self.dtype(kw["dtype"], st))]
            kw = {k: v for k, v in kw.items() if k != "dtype"}
        return self.opaque_call(mk("call", mk("ext", d), tuple(a), self.snapkw(kw, st)), st, fr, line, stmt)

    def dtype(self, dt, st):
        if dt is None:
            return const("float64")
        if dt.op == "ext":
            return const(dt.a[0].split(".")[-1])
        if dt.op == "bi":
            return const({"float": "float64", "int": "int64", "bool": "bool"}.get(dt.a[0], dt.a[0]))
        if dt.op == "const":
            return dt
        return self.snap(dt, st)

    def replace(self, r, kw, st):
        fs = {k: self.snap(v, st) for k, v in kw.items()}
        if r.op == "ite":
            return ite(r.a[0], self.replace(r.a[1], kw, st), self.replace(r.a[2], kw, st))
        if r.op == "rec":
            return mk("rec", r.a[0], tuple((n, fs.get(n, v)) for n, v in r.a[1]))
        if r.op == "with":
            m = dict(r.a[1])
            m.update(fs)
            return mk("with", r.a[0], tuple(sorted(m.items())))
        return mk("with", r, tuple(sorted(fs.items())))

    def draw(self, d, a, kw, st, fr, line):
        n = d.split(".")[-1]
        k = {x: self.argterm(y, st) for x, y in kw.items()}
        if n in ("uniform", "rand", "random", "random_sample"):
            lo, hi, size = const(0.0), const(1.0), NONE
            if n == "uniform":
                lo = a[0] if len(a) > 0 else k.get("low", lo)
                hi = a[1] if len(a) > 1 else k.get("high", hi)
                size = a[2] if len(a) > 2 else k.get("size", size)
            elif a:
                size = a[0]
            if size.op == "const" and isinstance(size.a[0], int) and not isinstance(size.a[0], bool) and size.a[0] <= 8:
                us = tuple(self.scale(lo, hi, self.effect("draw", (const("u"),), st, line)) for _ in range(size.a[0]))
                return mk("tuple", us)
            u = self.effect("draw", (const("u"),), st, line) if size is NONE else \
                self.effect("draw", (const("u"), size), st, line)
            return self.scale(lo, hi, u)
        if n == "seed":
            return self.effect("call", (mk("call", mk("ext", d), tuple(a), ()),), st, line)
        return self.effect("draw", (const(n),) + tuple(a) + tuple(v for _, v in sorted(k.items())), st, line)

    def scale(self, lo, hi, u):
        if lo.op == "const" and lo.a[0] == 0 and hi.op == "const" and hi.a[0] == 1:
            return u
        return self.binop("+", lo, self.binop("*", self.binop("-", hi, lo), u))

    # -- methods of unknown objects
    IDENT = {"tolist", "copy", "flatten", "ravel", "__enter__"}

    def method_call(self, b, name, args, kw, st, fr, line, stmt):
        if b.op == "glob" and b.a[0] in ("logger", "log", "logging"):
            return NONE
        if b.op == "super" and name == "__init__" and not args and not kw:
            return NONE
        a = [self.argterm(x, st) for x in args]
        bs = self.snap(b, st)
        if name in self.IDENT and not a:
            if name == "copy":
                return self.newobj(st, bs) if bs.op in ("list", "dict", "append", "store", "filled", "attr", "concat") else bs
            return bs
        if name == "astype":
            return mk("astype", bs, self.dtype(args[0] if args else kw.get("dtype"), st))
        if name == "dot" and len(a) == 1:
            return mk("fn", "dot", bs, a[0])
        if name in ("sum", "max", "min", "prod") and not a and not kw:
            return mk("fn", name, bs)
        if name in ("cumsum", "argmax", "argmin", "argsort", "searchsorted", "clip", "nonzero", "round", "trace", "swapaxes", "conj") and not self.repo.method_index.get(name):
            return self.external_call("numpy." + name, [b] + list(args), dict(kw), st, fr, line, stmt)
        if name in ("any", "all") and not a:
            if bs.op in ("cmp", "and", "or", "not", "finite", "isclose"):
                return mk(name + "of", bs)
            return mk(name + "of", bs)
        if name == "items" and not a:
            return mk("items", bs)
        if name in ("keys",) and not a:
            return bs if bs.op == "dict" else mk("mcall", "keys", bs, (), ())
        if name == "get" and bs.op == "dict" and a and a[0].op == "const" and all(k.op == "const" for k, _ in bs.a[0]):
            for k, v in bs.a[0]:
                if k is a[0]:
                    return v
            return a[1] if len(a) > 1 else NONE
        if name == "get" and 1 <= len(a) <= 2 and not kw and not stmt and not self.queue_get(a):
            return mk("dget", bs, a[0], a[1] if len(a) > 1 else NONE)
        # keyword names of project methods with an agreed signature
        sig = self.method_sig(name)
        if sig is not None and not any(x.op == "star" for x in a):
            vals = {}
            for i, x in enumerate(a):
                if i < len(sig):
                    vals[sig[i]] = x
                else:
                    vals["*%d" % i] = x
            for k, v in kw.items():
                vals[k] = self.argterm(v, st)
            t = mk("mcall", name, bs, (), tuple(sorted(vals.items())))
        else:
            t = mk("mcall", name, bs, tuple(a), self.snapkw(kw, st))
        return self.opaque_call(t, st, fr, line, stmt)

    def method_sig(self, name):
        if name in DISPATCH_EXEMPT:
            return None
        ms = self.repo.method_index.get(name, [])
        sigs = set()
        for m in ms:
            if m.is_property or m.is_static or m.is_class:
                return None
            sigs.add(tuple(x.arg for x in m.args.args[1:]))
        if not sigs:
            return None
        # the longest signature, when all others are prefixes of it
        sigs = sorted(sigs, key=len)
        big = sigs[-1]
        if all(big[:len(s)] == s for s in sigs):
            return big
        return None
