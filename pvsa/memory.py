"""What a function keeps between calls.

A conformance obligation speaks of one call in an arbitrary state. Values a
function stores to find them again in a later call are therefore decided here:
a store that no function of the reference tree uses (a new attribute, a new
table of the module, a mutable default argument, a caching decorator) and that
the same function reads before it surely writes it is a memory. It is sound only
if the remembered value depends on nothing but the key it is remembered under."""
import ast

CACHES = {"lru_cache", "cache", "cached_property", "memoize", "memoized", "cached"}
MUTATORS = {"append", "add", "setdefault", "update", "extend", "insert", "__setitem__", "appendleft"}
DROPPERS = {"clear", "pop", "popitem", "remove", "discard"}
TREE = {"parent", "children", "root", "light", "recorders", "components", "surface", "phase_function"}   # public and assignable


def names_of(repo):
    """Identifiers of a tree: attributes, names, parameters and strings."""
    out = set()
    for m in repo.py_modules():
        for n in ast.walk(m.tree):
            if isinstance(n, ast.Attribute):
                out.add(n.attr)
            elif isinstance(n, ast.Name):
                out.add(n.id)
            elif isinstance(n, ast.arg):
                out.add(n.arg)
            elif isinstance(n, ast.ClassDef):
                out.add(n.name)
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value.isidentifier():
                out.add(n.value)
    return out


def stored_outside(trees):
    """Attributes assigned outside a constructor."""
    out = set()
    def visit(n, ctor):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            if any(ast.unparse(d).endswith(".setter") for d in n.decorator_list):
                out.add(n.name)
            ctor = n.name in ("__init__", "__new__", "__post_init__", "__setstate__")
        ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
        for t in ts:
            for x in t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]:
                while isinstance(x, ast.Subscript):
                    x = x.value
                if isinstance(x, ast.Attribute) and not (ctor and isinstance(x.value, ast.Name) and x.value.id == "self"):
                    out.add(x.attr)
        for c in ast.iter_child_nodes(n):
            visit(c, ctor)
    for t in trees:
        visit(t, False)
    return out


def functions_of(m):
    def go(body, prefix, cls):
        for s in body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield prefix + s.name, cls, s
                yield from go(s.body, prefix + s.name + ".", cls)
            elif isinstance(s, ast.ClassDef):
                yield from go(s.body, prefix + s.name + ".", s)
            elif isinstance(s, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                yield from go([x for x in ast.iter_child_nodes(s) if isinstance(x, ast.stmt)], prefix, cls)
    yield from go(m.tree.body, "", None)


class Memory:
    def __init__(self, repo, known, mutable):
        self.repo, self.known = repo, known
        self.mods = list(repo.py_modules())
        self.mutable = set(mutable) | stored_outside(m.tree for m in self.mods) | TREE
        self.funcs = [(m, q, c, f) for m in self.mods for q, c, f in functions_of(m)]
        self.byname = {}
        for m, q, c, f in self.funcs:
            self.byname.setdefault(f.name, []).append((m, c, f))
        self._deps = {}

    # -- what a value computed by the function depends on
    def callees(self, m, c, f):
        out = []
        for n in ast.walk(f):
            nm = own = None
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load):
                nm = n.id
                cand = [x for x in self.byname.get(nm, ()) if x[1] is None]
                same = [x for x in cand if x[0] is m]
                out += same or (cand if nm in m.imports else [])
                out += [x for x in self.byname.get("__init__", ()) if x[1] is not None and x[1].name == nm and (x[0] is m or nm in m.imports)]
                continue
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                cand = [x for x in self.byname.get(n.attr, ()) if x[1] is not None]
                if isinstance(n.value, ast.Name) and n.value.id == "self" and c is not None:
                    cand = [x for x in cand if x[1] is c] or cand
                if len({id(x[1]) for x in cand}) <= 6:
                    out += cand
        return [x for x in out if x[2] is not f]

    def deps(self, m, c, f):
        """-> (attributes read, draws?) of the function and what it calls."""
        seen, todo, attrs, draws = set(), [(m, c, f)], set(), False
        while todo:
            m, c, f = todo.pop()
            if id(f) in seen:
                continue
            seen.add(id(f))
            for n in ast.walk(f):
                if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
                    attrs.add(n.attr)
                    s = ast.unparse(n)
                    if s.startswith(("np.random.", "numpy.random.", "random.")):
                        draws = True
            todo += self.callees(m, c, f)
        return attrs, draws

    # -- places of memory
    def places(self, m, q, c, f):
        """novel memory used by f: name -> kind"""
        out = {}
        own = [n for n in ast.walk(f)]
        inner = {id(x) for g in own if isinstance(g, (ast.FunctionDef, ast.AsyncFunctionDef)) and g is not f for x in ast.walk(g)}
        for n in own:
            if isinstance(n, ast.Attribute) and n.attr not in self.known and not n.attr.startswith("__"):
                out[n.attr] = "attribute"
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "setattr") and len(n.args) > 1 \
                    and isinstance(n.args[1], ast.Constant) and isinstance(n.args[1].value, str) and n.args[1].value not in self.known:
                out[n.args[1].value] = "attribute"
            elif isinstance(n, ast.Constant) and isinstance(n.value, str) and n.value not in self.known and "__dict__" in ast.unparse(f):
                out[n.value] = "attribute"
            elif isinstance(n, ast.Global):
                for x in n.names:
                    if x not in self.known:
                        out[x] = "global"
            elif isinstance(n, ast.Name) and n.id not in self.known and n.id in m.assigns and isinstance(m.assigns[n.id], (ast.Dict, ast.List, ast.Set, ast.Call)):
                out[n.id] = "global"
        a = f.args
        ps = a.posonlyargs + a.args
        for p, d in list(zip(ps[len(ps) - len(a.defaults):], a.defaults)) + list(zip(a.kwonlyargs, a.kw_defaults)):
            if isinstance(d, (ast.Dict, ast.List, ast.Set)) or isinstance(d, ast.Call) and ast.unparse(d.func) in ("dict", "list", "set", "collections.OrderedDict", "OrderedDict", "collections.defaultdict", "defaultdict", "collections.deque", "deque"):
                out[p.arg] = "default"
        return out

    @staticmethod
    def is_place(n, A, kind):
        if kind == "attribute":
            if isinstance(n, ast.Attribute):
                return n.attr == A
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "getattr" and len(n.args) > 1:
                return isinstance(n.args[1], ast.Constant) and n.args[1].value == A
            if isinstance(n, ast.Subscript) and isinstance(n.value, ast.Attribute) and n.value.attr == "__dict__":
                return isinstance(n.slice, ast.Constant) and n.slice.value == A
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(n.func.value, ast.Attribute) and n.func.value.attr == "__dict__":
                return bool(n.args) and isinstance(n.args[0], ast.Constant) and n.args[0].value == A
            return False
        return isinstance(n, ast.Name) and n.id == A

    def examine(self, m, q, c, f):
        """yield (status, line, detail) for every memory of f"""
        gen = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(f))
        for d in f.decorator_list:
            nm = d.func if isinstance(d, ast.Call) else d
            nm = nm.attr if isinstance(nm, ast.Attribute) else nm.id if isinstance(nm, ast.Name) else ""
            if nm in CACHES:
                yield self.judge(m, q, c, f, "@" + nm, None, set(), gen, f.lineno)
        if f.name in ("__init__", "__new__", "__post_init__"):
            return
        for A, kind in sorted(self.places(m, q, c, f).items()):
            place = lambda n: self.is_place(n, A, kind)
            alias = set()
            for _ in range(3):
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                        v = n.value
                        while isinstance(v, (ast.BoolOp, ast.IfExp, ast.Call, ast.Subscript)) and not place(v):
                            v = v.values[0] if isinstance(v, ast.BoolOp) else v.body if isinstance(v, ast.IfExp) else v.func.value if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("get", "setdefault") else v.value if isinstance(v, ast.Subscript) else ast.Pass()
                        if place(v) or isinstance(v, ast.Name) and v.id in alias:
                            alias.add(n.targets[0].id)
            is_it = lambda n: place(n) or isinstance(n, ast.Name) and n.id in alias
            stores, loads, keys, tests, selfonly = [], [], [], [], set()
            for n in ast.walk(f):
                ts = n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
                for t in ts:
                    if place(t) or kind == "global" and isinstance(t, ast.Name) and t.id == A:
                        stores.append(n)
                        selfonly |= {id(x) for x in ast.walk(n)}
                    elif isinstance(t, ast.Subscript) and is_it(t.value):
                        stores.append(n)
                        keys.append(t.slice)
                        selfonly |= {id(x) for x in ast.walk(t)}
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS and is_it(n.func.value):
                    stores.append(n)
                    if n.args and n.func.attr in ("setdefault", "add"):
                        keys.append(n.args[0])
                    if n.func.attr != "setdefault":
                        selfonly |= {id(x) for x in ast.walk(n)}
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr == "setdefault" and place(n):
                    stores.append(n)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and len(n.args) == 3 and isinstance(n.args[1], ast.Constant) and n.args[1].value == A:
                    stores.append(n)
                if isinstance(n, ast.Subscript) and isinstance(n.ctx, ast.Load) and is_it(n.value):
                    keys.append(n.slice)
                if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("get", "pop") and is_it(n.func.value) and n.args:
                    keys.append(n.args[0])
                if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)) and is_it(n.comparators[0]):
                    keys.append(n.left)
                if isinstance(n, (ast.If, ast.IfExp, ast.While)) and any(is_it(x) for x in ast.walk(n.test)):
                    tests.append(n.test)
            if not stores:
                continue
            loads = [n for n in ast.walk(f) if id(n) not in selfonly and is_it(n) and not isinstance(getattr(n, "ctx", None), (ast.Store, ast.Del))]
            if not loads:
                continue
            first = next((s for s in f.body if any(place(x) for x in ast.walk(s))), None)
            if kind != "default" and isinstance(first, ast.Assign) and any(place(t) or isinstance(t, ast.Name) and t.id == A for t in first.targets) and not any(place(x) for x in ast.walk(first.value)):
                continue                      # always written before it is read
            if any(A in ast.unparse(h) for s in f.body[:1] for h in ([s] if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and ".clear(" in ast.unparse(s) else [])):
                continue
            dropped = [g.name for m2, q2, c2, g in self.funcs if g is not f and g.name not in ("__init__", "__new__") and self.drops(g, A, kind)]
            if dropped:
                yield "undecided", loads[0].lineno, "keeps `%s` between calls; %s may refresh it" % (A, ", ".join(sorted(set(dropped))[:3]))
                continue
            if kind == "attribute" and c is not None and c.name not in self.known:
                yield "undecided", loads[0].lineno, "`%s` is the state of a class the reference tree does not have" % A
                continue
            spoilt = self.spoilt(f, stores, is_it)
            if spoilt:
                yield "violated", spoilt.lineno, "keeps `%s` between calls and changes the kept value: the next call finds it changed" % A
                continue
            yield self.judge(m, q, c, f, "`%s`" % A, keys, tests, gen, loads[0].lineno, kind, A)

    @staticmethod
    def spoilt(f, stores, is_it):
        """The place where f changes the value it stored itself."""
        names = set()
        for s in stores:
            v = s.value if isinstance(s, (ast.Assign, ast.AnnAssign)) else s.args[-1] if isinstance(s, ast.Call) and s.args else None
            if isinstance(v, ast.Name):
                names.add(v.id)
        for n in ast.walk(f):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, ast.AugAssign) else []
            bases = []
            for t in ts:
                if isinstance(t, (ast.Subscript, ast.Attribute)):
                    bases.append(t.value)
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUTATORS | DROPPERS:
                bases.append(n.func.value)
            for b in bases:
                while isinstance(b, (ast.Subscript, ast.Attribute)):
                    b = b.value
                if isinstance(b, ast.Name) and b.id in names and n not in stores:
                    return n
        return None

    def drops(self, g, A, kind):
        for n in ast.walk(g):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, (ast.AugAssign, ast.AnnAssign)) else []
            for t in ts:
                b = t
                while isinstance(b, ast.Subscript) and not self.is_place(b, A, kind):
                    b = b.value
                if self.is_place(b, A, kind):
                    return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in DROPPERS | MUTATORS and self.is_place(n.func.value, A, kind):
                return True
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("setattr", "delattr") and len(n.args) > 1 and isinstance(n.args[1], ast.Constant) and n.args[1].value == A:
                return True
        return False

    def judge(self, m, q, c, f, what, keys, tests, gen, line, kind="decorator", A=None):
        attrs, draws = self.deps(m, c, f)
        if gen and kind == "decorator":
            return "violated", line, "%s keeps a generator between calls: the second caller finds it exhausted" % what
        if draws:
            return "violated", line, "%s keeps a value that depends on random draws: later calls repeat it" % what
        mut = sorted(x for x in attrs & self.mutable if x != A)
        for t in tests or ():
            ins = {x.attr for x in ast.walk(t) if isinstance(x, ast.Attribute)} & set(mut)
            calls = any(isinstance(x, ast.Call) and ast.unparse(x.func) not in ("hasattr", "getattr", "len", "isinstance") for x in ast.walk(t))
            if ins or calls:
                return "undecided", line, "%s is kept between calls under a condition" % what
        keyattrs = set()
        if keys is not None:
            words = {x.id for k in keys for x in ast.walk(k) if isinstance(x, ast.Name)}
            keyattrs = {x.attr for k in keys for x in ast.walk(k) if isinstance(x, ast.Attribute)}
            for _ in range(4):
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id in words for t in n.targets):
                        words |= {x.id for x in ast.walk(n.value) if isinstance(x, ast.Name)}
                        keyattrs |= {x.attr for x in ast.walk(n.value) if isinstance(x, ast.Attribute)}
            ps = [a.arg for a in f.args.posonlyargs + f.args.args + f.args.kwonlyargs if a.arg not in ("self", "cls", A)]
            if kind == "attribute":               # kept in an object: that object is part of the key
                for n in ast.walk(f):
                    if isinstance(n, ast.Attribute) and n.attr == A and isinstance(n.value, ast.Name):
                        words.add(n.value.id)
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ("getattr", "setattr") and n.args and isinstance(n.args[0], ast.Name):
                        words.add(n.args[0].id)
            elif c is not None and "self" not in words:
                used = {n.attr for n in ast.walk(f) if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Name) and n.value.id == "self"}
                used -= keyattrs
                if used:
                    return "violated", line, "%s is shared by all objects but what it keeps depends on self.%s" % (what, sorted(used)[0])
            loaded = {n.id for n in ast.walk(f) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)}
            miss = [p for p in ps if p not in words and p in loaded]
            if miss:
                return "violated", line, "%s keeps a value computed for one `%s` and returns it for another" % (what, miss[0])
        mut = [x for x in mut if x not in keyattrs]
        if mut:
            return "violated", line, "%s keeps a value that depends on %s, which can change between calls; nothing refreshes it" % (what, ", ".join("`%s`" % x for x in mut[:4]))
        return "proved", line, "%s depends on its key only" % what


def findings(repo, known, mutable):
    """(rel, qualified name) -> [(status, line, detail)]"""
    mem = Memory(repo, known, mutable)
    out, over = {}, {}
    for m, q, c, f in mem.funcs:
        x = out[(m.rel, q)] = list(mem.examine(m, q, c, f))
        if x:                                 # whose results it keeps
            seen, todo = set(), [(m, c, f)]
            while todo:
                y = todo.pop()
                if id(y[2]) not in seen:
                    seen.add(id(y[2]))
                    todo += mem.callees(*y)
            over[(m.rel, q)] = {(m2.rel, q2) for m2, q2, c2, g in mem.funcs if id(g) in seen}
    return out, over
