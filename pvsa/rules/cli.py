"""Command-line options, and the text of SQL statements."""
import ast
from pvsa.load import AnalysisError
from pvsa.rules import bad, ok, rule, unsure

MODULES = ("pvtrace/cli/main.py", "pvtrace/cli/count.py", "pvtrace/cli/spectrum.py", "pvtrace/cli/time.py")
DEFAULTS = {"nx": None, "ny": None, "nz": None, "facet": None, "source": None, "atol": 1e-6, "seed": None,
            "workers": None, "zmq": None, "overwrite": False, "end_rays": False, "vertical": False}


def commands(repo):
    for rel in MODULES:
        m = repo.module(rel, optional=True)
        if m is None:
            continue
        for f in m.functions.values():
            for d in f.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr == "command":
                    yield m, f, d


def options(f):
    a = f.args
    pos = a.posonlyargs + a.args
    ds = [None] * (len(pos) - len(a.defaults)) + a.defaults
    for p, d in list(zip(pos, ds)) + list(zip(a.kwonlyargs, a.kw_defaults)):
        # Annotated[T, typer.Option(...)] = default
        if isinstance(p.annotation, ast.Subscript) and getattr(p.annotation.value, "id", getattr(p.annotation.value, "attr", "")) == "Annotated":
            for x in getattr(p.annotation.slice, "elts", [])[1:]:
                if isinstance(x, ast.Call):
                    yield p, getattr(x.func, "attr", getattr(x.func, "id", "")), d, x.args, x
        elif isinstance(d, ast.Call):
            k = getattr(d.func, "attr", getattr(d.func, "id", ""))
            dv = d.args[0] if d.args else next((x.value for x in d.keywords if x.arg == "default"), None)
            yield p, k, dv, d.args[1:], d


@rule("P27", "options are what they are called", "each option's long flag is the name of the parameter it sets, and a command answers to its function's name")
def flags(repo):
    n = 0
    for m, f, d in commands(repo):
        where = "%s %s" % (m.rel, f.name)
        given = [x.value for x in d.args if isinstance(x, ast.Constant)] + [x.value.value for x in d.keywords if x.arg == "name" and isinstance(x.value, ast.Constant)]
        if given and given[0] is not None and given[0].replace("-", "_") != f.name:
            yield bad("%s.%s" % (m.rel, f.name), m.rel, f.lineno, "the command %r runs %s" % (given[0], f.name))
        else:
            yield ok("%s.%s" % (m.rel, f.name), m.rel, f.lineno)
        for p, k, dv, fl, c in options(f):
            if k != "Option":
                continue
            key = "%s.%s.%s" % (m.rel, f.name, p.arg)
            longs = [x.value for x in fl if isinstance(x, ast.Constant) and isinstance(x.value, str) and x.value.startswith("--")]
            names = [s.strip().lstrip("-").replace("-", "_") for x in longs for s in x.split("/")[:1]]
            if longs and p.arg not in names:
                yield bad(key, m.rel, c.lineno, "option %s sets %s" % (longs[0], p.arg))
            else:
                yield ok(key, m.rel, c.lineno)


@rule("P27 P29", "options are off unless given", "filters, seed, workers and confirmations default to not given")
def defaults(repo):
    for m, f, d in commands(repo):
        for p, k, dv, fl, c in options(f):
            if k != "Option" or p.arg not in DEFAULTS:
                continue
            key = "%s.%s.%s default" % (m.rel, f.name, p.arg)
            if isinstance(dv, ast.Constant):
                v = dv.value
                want = DEFAULTS[p.arg]
                if v is want or (type(v) is type(want) and v == want) or want is False and v is None:
                    yield ok(key, m.rel, c.lineno)
                else:
                    yield bad(key, m.rel, c.lineno, "%s is %r when the option is not given" % (p.arg, v))
            elif dv is not None:
                yield unsure(key, m.rel, c.lineno, "default is not a literal")


@rule("P27", "accepted options are used", "every option and argument a command accepts is read by its body")
def used(repo):
    for m, f, d in commands(repo):
        reads = {n.id for s in f.body for n in ast.walk(s) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
        for p, k, dv, fl, c in options(f):
            key = "%s.%s.%s unused" % (m.rel, f.name, p.arg)
            if p.arg in reads or "locals" in reads:
                yield ok(key, m.rel, c.lineno)
            else:
                yield bad(key, m.rel, c.lineno, "%s accepts %s and ignores it" % (f.name, p.arg))


# ------------------------------------------------------------------ SQL text

USER, UNKNOWN, CONST = 2, 1, 0


class Text:
    """Where the text of a statement comes from: constants of the program, user data, or unknown."""

    def __init__(self, repo):
        self.repo = repo
        self.busy = set()
        self.callers = None
        self.why = {}
        self.entry = {id(f) for _, f, _ in commands(repo)}

    def calls(self, f):
        if self.callers is None:
            self.callers = {}
            for m in self.repo.py_modules():
                for g, cls in functions(m):
                    for n in ast.walk(g):
                        if isinstance(n, ast.Call):
                            nm = n.func.id if isinstance(n.func, ast.Name) else n.func.attr if isinstance(n.func, ast.Attribute) else None
                            self.callers.setdefault(nm, []).append((m, g, n))
        return self.callers.get(f.name, [])

    def worst(self, it):
        r = CONST
        for x in it:
            r = max(r, x)
        return r

    def note(self, what, level):
        self.why.setdefault(level, what)
        return level

    def of(self, e, m, f, pick=()):
        """Origin of expression e (the part of it at index path `pick`) in function f of module m."""
        k = (id(e), pick)
        if k in self.busy:
            return CONST
        self.busy.add(k)
        try:
            return self._of(e, m, f, pick)
        finally:
            self.busy.discard(k)

    def _of(self, e, m, f, pick):
        if isinstance(e, ast.Constant):
            return CONST
        if isinstance(e, ast.JoinedStr):
            return self.worst(self.of(v.value, m, f) for v in e.values if isinstance(v, ast.FormattedValue))
        if isinstance(e, (ast.Tuple, ast.List)):
            if pick and -len(e.elts) <= pick[0] < len(e.elts) and not any(isinstance(x, ast.Starred) for x in e.elts):
                return self.of(e.elts[pick[0]], m, f, pick[1:])
            return self.worst(self.of(x.value if isinstance(x, ast.Starred) else x, m, f) for x in e.elts)
        if isinstance(e, ast.Dict):
            return self.worst(self.of(x, m, f) for x in e.values)
        if isinstance(e, ast.BinOp):
            if isinstance(e.op, ast.Mod) and not self.textual(e.left):
                return CONST
            return max(self.of(e.left, m, f), self.of(e.right, m, f))
        if isinstance(e, ast.IfExp):
            return max(self.of(e.body, m, f, pick), self.of(e.orelse, m, f, pick))
        if isinstance(e, ast.BoolOp):
            return self.worst(self.of(x, m, f, pick) for x in e.values)
        if isinstance(e, (ast.Compare, ast.UnaryOp)):
            return CONST
        if isinstance(e, ast.Starred):
            return self.of(e.value, m, f, pick)
        if isinstance(e, (ast.ListComp, ast.GeneratorExp)):
            return self.of(e.elt, m, f, pick[1:])
        if isinstance(e, ast.Subscript):
            if isinstance(e.slice, ast.Constant) and isinstance(e.slice.value, int):
                return self.of(e.value, m, f, (e.slice.value,) + pick)
            return self.of(e.value, m, f)
        if isinstance(e, ast.Name):
            return self.name(e.id, m, f, pick)
        if isinstance(e, ast.Attribute):
            r = self.repo.resolve_import(m, e.value.id) if isinstance(e.value, ast.Name) and not self.local(e.value.id, f) else None
            if r and r[0] == "ext":
                return CONST
            if r and r[0] == "module" and e.attr in r[1].assigns:
                return self.of(r[1].assigns[e.attr], r[1], None, pick)
            root = e
            while isinstance(root, ast.Attribute):
                root = root.value
            if isinstance(root, ast.Name) and f is not None and root.id in params(f) and root.id != "self":
                return self.note("%s of parameter %s" % (e.attr, root.id), USER)
            return self.note(ast.unparse(e), UNKNOWN)
        if isinstance(e, ast.Call):
            return self.call(e, m, f, pick)
        return self.note(ast.unparse(e), UNKNOWN)

    @staticmethod
    def textual(e):
        return isinstance(e, (ast.Constant, ast.JoinedStr, ast.Name, ast.BinOp, ast.Call, ast.Attribute))

    def local(self, n, f):
        return f is not None and (n in params(f) or any(isinstance(x, ast.Name) and x.id == n and isinstance(x.ctx, ast.Store) for x in ast.walk(f)))

    def call(self, e, m, f, pick):
        fn = e.func
        args = [x.value if isinstance(x, ast.Starred) else x for x in e.args] + [k.value for k in e.keywords]
        if isinstance(fn, ast.Attribute):
            if fn.attr in ("join", "format", "format_map", "replace", "strip", "lstrip", "rstrip", "upper", "lower", "title", "removesuffix", "removeprefix"):
                return max(self.of(fn.value, m, f), self.worst(self.of(x, m, f) for x in args))
            if fn.attr in ("splitlines", "split", "copy", "items", "keys", "values", "encode", "decode"):
                return self.of(fn.value, m, f)
            if fn.attr in ("read", "read_text"):
                return self.file(fn.value, m, f)
            if fn.attr == "dedent":
                return self.worst(self.of(x, m, f) for x in args)
        n = fn.id if isinstance(fn, ast.Name) else fn.attr if isinstance(fn, ast.Attribute) else None
        if n in ("len", "int", "float", "bool", "range", "round", "sum"):
            return CONST
        if n in ("str", "tuple", "list", "sorted", "zip", "enumerate", "reversed", "map", "iter", "next", "cleandoc"):
            return self.worst(self.of(x, m, f) for x in args)
        t = None
        if isinstance(fn, ast.Name):
            t = self.repo.resolve_import(m, fn.id)
        elif isinstance(fn, ast.Attribute) and isinstance(fn.value, ast.Name):
            r = self.repo.resolve_import(m, fn.value.id)
            if r and r[0] == "module":
                t = self.repo.resolve_import(r[1], fn.attr)
        if t and t[0] == "func":
            g = t[1]
            gm = getattr(g, "module", m)
            rs = [x.value for x in own(g) if isinstance(x, ast.Return) and x.value is not None]
            return self.worst(self.of(x, gm, g, pick) for x in rs)
        return self.note("the result of %s" % ast.unparse(fn), UNKNOWN)

    def file(self, e, m, f):
        """A file of the package: opened under a name built from constants and __file__."""
        if isinstance(e, ast.Name) and f is not None:
            for n in ast.walk(f):
                if isinstance(n, ast.withitem) and isinstance(n.optional_vars, ast.Name) and n.optional_vars.id == e.id:
                    return self.file(n.context_expr, m, f)
                if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in n.targets):
                    return self.file(n.value, m, f)
        if isinstance(e, ast.Call) and e.args:
            n = e.func.id if isinstance(e.func, ast.Name) else getattr(e.func, "attr", "")
            if n in ("open", "Path"):
                return self.path(e.args[0], m, f)
        if isinstance(e, ast.Name):
            return self.path(e, m, f)
        return self.note("the file %s" % ast.unparse(e), UNKNOWN)

    def path(self, e, m, f):
        if isinstance(e, ast.Name) and (f is None or not self.local(e.id, f)) and e.id in m.assigns:
            return CONST        # a module constant
        if isinstance(e, ast.Name) and f is not None and e.id in params(f):
            return self.note("a file named by parameter %s" % e.id, USER)
        return self.note("the file %s" % ast.unparse(e), UNKNOWN)

    def name(self, n, m, f, pick):
        out = []
        if f is not None:
            for x in ast.walk(f):
                if isinstance(x, ast.Assign):
                    for t in x.targets:
                        out += self.bind(t, n, x.value, m, f, pick)
                elif isinstance(x, ast.AnnAssign) and x.value is not None:
                    out += self.bind(x.target, n, x.value, m, f, pick)
                elif isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == n:
                    out.append(self.of(x.value, m, f))
                elif isinstance(x, ast.NamedExpr) and x.target.id == n:
                    out.append(self.of(x.value, m, f, pick))
                elif isinstance(x, (ast.For, ast.comprehension)):
                    out += self.bindloop(x.target, n, x.iter, m, f)
                elif isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and isinstance(x.func.value, ast.Name) \
                        and x.func.value.id == n and x.func.attr in ("append", "extend", "insert", "add", "appendleft"):
                    out += [self.of(a, m, f) for a in x.args]
            if n in params(f):
                out.append(self.param(n, m, f, pick))
        if not out:
            if n in m.assigns:
                return self.of(m.assigns[n], m, None, pick)
            r = self.repo.resolve_import(m, n)
            if r and r[0] == "assign":
                return self.of(r[1][1], r[1][0], None, pick)
            if r and r[0] == "ext":
                return CONST
            return self.note(n, UNKNOWN)
        return self.worst(out)

    def bind(self, t, n, v, m, f, pick):
        if isinstance(t, ast.Name) and t.id == n:
            return [self.of(v, m, f, pick)]
        if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name) and t.value.id == n:
            return [self.of(v, m, f)]
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                if isinstance(x, ast.Name) and x.id == n:
                    return [self.of(v, m, f, (i,) + pick)]
        return []

    @classmethod
    def place(cls, t, n):
        """Index path of name n in an assignment target."""
        if isinstance(t, ast.Name):
            return () if t.id == n else None
        if isinstance(t, (ast.Tuple, ast.List)):
            for i, x in enumerate(t.elts):
                p = cls.place(x, n)
                if p is not None:
                    return (i,) + p
        return None

    def bindloop(self, t, n, it, m, f):
        p = self.place(t, n)
        return [] if p is None else [self.element(it, m, f, p)]

    def element(self, it, m, f, p):
        """Origin of the part at path p of an element of `it`."""
        if isinstance(it, ast.Call) and isinstance(it.func, ast.Name) and it.args:
            if it.func.id == "zip" and p and p[0] < len(it.args):
                return self.element(it.args[p[0]], m, f, p[1:])
            if it.func.id == "enumerate" and p:
                return CONST if p[0] == 0 else self.element(it.args[0], m, f, p[1:])
            if it.func.id in ("reversed", "sorted", "list", "tuple", "iter"):
                return self.element(it.args[0], m, f, p)
        if isinstance(it, ast.Name) and it.id in m.assigns and not self.local(it.id, f):
            it = m.assigns[it.id]
        if isinstance(it, ast.Name) and f is not None and it.id not in params(f):
            vs = [x.value for x in ast.walk(f) if isinstance(x, ast.Assign) and any(isinstance(t, ast.Name) and t.id == it.id for t in x.targets)]
            if len(vs) == 1 and sum(1 for x in ast.walk(f) if isinstance(x, ast.Name) and x.id == it.id) == 2:
                it = vs[0]
        if isinstance(it, (ast.Tuple, ast.List)):
            return self.worst(self.of(y, m, f, p) for y in it.elts)
        return self.of(it, m, f)

    def param(self, n, m, f, pick):
        if id(f) in self.entry:
            return self.note("parameter %s of the command %s" % (n, f.name), USER)
        a = f.args
        pos = [x.arg for x in a.posonlyargs + a.args]
        d = dict(zip(pos[len(pos) - len(a.defaults):], a.defaults))
        d.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        out = []
        sites = [c for c in self.calls(f)]
        if not sites:
            return self.note("parameter %s of %s" % (n, f.name), USER)
        for cm, cf, c in sites:
            v = None
            off = 1 if pos[:1] == ["self"] and isinstance(c.func, ast.Attribute) else 0
            for i, x in enumerate(c.args):
                if isinstance(x, ast.Starred):
                    v = x
                    break
                if i + off < len(pos) and pos[i + off] == n:
                    v = x
            for k in c.keywords:
                if k.arg == n:
                    v = k.value
                if k.arg is None and v is None:
                    v = k.value
            if v is None:
                v = d.get(n)
            if v is not None:
                out.append(self.of(v, cm, cf, pick))
        return self.worst(out)


def params(f):
    a = f.args
    return {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs} | ({a.vararg.arg} if a.vararg else set()) | ({a.kwarg.arg} if a.kwarg else set())


def own(f):
    """Nodes of f outside nested functions."""
    todo = list(f.body)
    while todo:
        n = todo.pop()
        yield n
        if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            todo.extend(ast.iter_child_nodes(n))


def functions(m):
    for f in m.functions.values():
        yield f, None
    for c in m.classes.values():
        for f in c.methods.values():
            yield getattr(f, "d", f), c


@rule("P26", "statement text is constant", "the text of every SQL statement executed anywhere in the package is built only from constants of the program")
def text(repo):
    T = Text(repo)
    for m in repo.py_modules():
        for f, cls in functions(m):
            n = 0
            for c in ast.walk(f):
                if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.args
                        and c.func.attr in ("execute", "executemany", "executescript", "read_sql", "read_sql_query")):
                    continue
                n += 1
                key = "%s.%s %s %d" % (m.rel, f.name, c.func.attr, n)
                a = c.args[0]
                T.why = {}
                r = T.of(a.value, m, f, (0,)) if isinstance(a, ast.Starred) else T.of(a, m, f)
                if r == CONST:
                    yield ok(key, m.rel, c.lineno)
                elif r == USER:
                    yield bad(key, m.rel, c.lineno, "the statement's text contains %s" % T.why.get(USER))
                else:
                    yield unsure(key, m.rel, c.lineno, "the statement's text contains %s" % T.why.get(UNKNOWN))
