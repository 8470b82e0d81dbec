"""False-alarm test of the specifications: applies random behaviour-preserving
rewrites to the parsed code (in memory) and reports every specification that no
longer says "proved".
usage: refactor.py <spec filter> [seeds] [rate]"""
import ast
import copy
import json
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pvsa import load
from pvsa.conform import load_specs, run_spec
from pvsa.load import CInfo, Module, Repo

FN = (ast.FunctionDef, ast.AsyncFunctionDef)
ONLY = set(filter(None, os.environ.get("ONLY", "").split(",")))


def names(n, ctx):
    return {x.id for x in ast.walk(n) if isinstance(x, ast.Name) and isinstance(x.ctx, ctx)}


def loads(n):
    return names(n, ast.Load)


def stores(n):
    out = names(n, (ast.Store, ast.Del))
    for x in ast.walk(n):
        if isinstance(x, FN + (ast.ClassDef,)):
            out.add(x.name)
        if isinstance(x, (ast.Import, ast.ImportFrom)):
            out |= {(a.asname or a.name).split(".")[0] for a in x.names}
        if isinstance(x, ast.ExceptHandler) and x.name:
            out.add(x.name)
    return out


def pure(e):
    """No call, no subscripting or attribute failure worth speaking of."""
    return all(isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp, ast.operator, ast.unaryop,
                              ast.boolop, ast.cmpop, ast.expr_context, ast.Attribute, ast.Tuple)) for x in ast.walk(e))


def simple(e):
    return isinstance(e, (ast.Name, ast.Constant)) or isinstance(e, ast.Attribute) and simple(e.value)


def has(n, *kinds):
    return any(isinstance(x, kinds) for x in ast.walk(n))


def ends(b):
    return bool(b) and isinstance(b[-1], (ast.Return, ast.Raise, ast.Continue, ast.Break))


class R:
    def __init__(self, rng, rate, cy):
        self.rng, self.rate, self.cy = rng, rate, cy
        self.n = 0
        self.log = []
        self.helpers = []

    def go(self, what):
        if ONLY and what not in ONLY:
            return False
        return self.rng.random() < self.rate

    def new(self, p="tmp"):
        self.n += 1
        return "%s_%d" % (p, self.n)

    def note(self, what, n):
        self.log.append("%d %s" % (getattr(n, "lineno", 0), what))

    # ------------------------------------------------------------- function
    def function(self, fn, cls=None, outer=None):
        self.fn, self.cls = fn, cls
        fn.body = self.block(fn.body, fn)
        if self.go("rename"):
            self.rename(fn)
        if outer is None and not any(isinstance(x, (ast.Global, ast.Nonlocal)) for x in ast.walk(fn)):
            if self.go("helper"):
                self.extract(fn)

    def rename(self, fn):
        inner = [x for x in ast.walk(fn) if isinstance(x, FN + (ast.Lambda, ast.ClassDef)) and x is not fn]
        args = {a.arg for a in ast.walk(fn) if isinstance(a, ast.arg) for a in [a]}
        used = set()
        for x in inner:
            used |= loads(x) | stores(x)
        glob = {n for x in ast.walk(fn) if isinstance(x, (ast.Global, ast.Nonlocal)) for n in x.names}
        imported = {(a.asname or a.name).split(".")[0] for x in ast.walk(fn) if isinstance(x, (ast.Import, ast.ImportFrom)) for a in x.names}
        handlers = {x.name for x in ast.walk(fn) if isinstance(x, ast.ExceptHandler)}
        vs = sorted(names(fn, ast.Store) - args - used - glob - imported - handlers)
        ci = getattr(fn, "cinfo", None)
        for v in vs:
            if self.rng.random() < 0.5:
                w = "v_" + v
                for x in ast.walk(fn):
                    if isinstance(x, ast.Name) and x.id == v:
                        x.id = w
                if ci:
                    if v in ci.types:
                        ci.types[w] = ci.types[v]
                    if v in ci.elems:
                        ci.elems[w] = ci.elems[v]
                self.note("rename " + v, fn)

    def extract(self, fn):
        """Move a run of top-level statements into a module-level function."""
        if fn.args.vararg or fn.args.kwarg:
            return
        b = fn.body
        free_ok = [i for i, s in enumerate(b) if not has(s, ast.Return, ast.Yield, ast.YieldFrom, ast.Await, ast.Import, ast.ImportFrom, ast.Global,
                                                        ast.Nonlocal, ast.Break if not isinstance(s, (ast.For, ast.While)) else ast.Global,
                                                        ast.Delete, *FN)
                   and not any(isinstance(x, ast.Name) and x.id == "super" for x in ast.walk(s))
                   and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))
                   and not (isinstance(s, ast.Assign) and has(s, ast.Call) and "__" in ast.unparse(s.value)[:3] and self.cy)]
        runs = []
        for i in free_ok:
            j = i
            while j in free_ok:
                j += 1
                runs.append((i, j))
        if not runs:
            return
        i, j = self.rng.choice(runs)
        part = b[i:j]
        allargs = {a.arg for a in fn.args.args + fn.args.kwonlyargs}
        local = allargs | stores(ast.Module(body=fn.body, type_ignores=[]))
        mod = ast.Module(body=part, type_ignores=[])
        before = allargs.union(*[stores(s) for s in b[:i]] or [set()])
        after = set().union(*[loads(s) for s in b[j:]] or [set()])
        st = stores(mod)
        reads = sorted((loads(mod) | (st & after)) & before)
        outs = sorted(st & (after | set()))
        # a name that may stay unassigned inside cannot be returned
        definite = allargs.union(*[stores(s) for s in b[:i]] or [set()])
        sure = set(definite)
        for s in part:
            if isinstance(s, (ast.Assign, ast.AnnAssign, ast.AugAssign)):
                sure |= stores(s)
        if not set(outs) <= sure or (self.cy and any(isinstance(x, ast.Call) and getattr(x.func, "id", "") in ("__addr__", "__array__", "__ptr__") for x in ast.walk(mod))):
            return
        if (loads(mod) & st & local) - sure:
            pass
        h = self.new("_" + fn.name + "_part")
        ret = ast.Tuple([ast.Name(o, ast.Load()) for o in outs], ast.Load()) if len(outs) != 1 else ast.Name(outs[0], ast.Load())
        body = copy.deepcopy(part) + ([ast.Return(ret)] if outs else [])
        if self.cy and len(outs) > 1:
            return
        d = ast.FunctionDef(name=h, args=ast.arguments(posonlyargs=[], args=[ast.arg(r) for r in reads], kwonlyargs=[], kw_defaults=[], defaults=[]),
                            body=body, decorator_list=[], returns=None, type_params=[])
        ci = getattr(fn, "cinfo", None)
        if ci:
            d.cinfo = copy.copy(ci)
            d.is_cdef = getattr(fn, "is_cdef", True)
            for k, v in fn.__dict__.items():
                if k not in d.__dict__ and k not in ("body", "args", "name"):
                    setattr(d, k, v)
        call = ast.Call(ast.Name(h, ast.Load()), [ast.Name(r, ast.Load()) for r in reads], [])
        if not outs:
            s = ast.Expr(call)
        elif len(outs) == 1:
            s = ast.Assign([ast.Name(outs[0], ast.Store())], call)
        else:
            s = ast.Assign([ast.Tuple([ast.Name(o, ast.Store()) for o in outs], ast.Store())], call)
        for x in (d, s):
            ast.copy_location(x, part[0])
            ast.fix_missing_locations(x)
        fn.body = b[:i] + [s] + b[j:]
        self.helpers.append(d)
        self.note("helper %s lines %d-%d" % (h, part[0].lineno, part[-1].lineno), fn)

    # ------------------------------------------------------------- blocks
    def block(self, b, owner, loop=False):
        out = []
        b = list(b)
        i = 0
        while i < len(b):
            s = b[i]
            rest = b[i + 1:]
            # statement order
            if i + 1 < len(b) and self.independent(s, b[i + 1]) and self.go("swap"):
                self.note("swap statements", s)
                b[i], b[i + 1] = b[i + 1], b[i]
                s, rest = b[i], b[i + 1:]
            # if c: ...return; rest  ->  if c: ... else: rest
            if isinstance(s, ast.If) and not s.orelse and ends(s.body) and rest and self.go("guard") and not any(has(x, *FN) for x in rest):
                self.note("else after return", s)
                s = ast.copy_location(ast.If(s.test, s.body, rest), s)
                b = b[:i] + [s]
                rest = []
            elif isinstance(s, ast.If) and s.orelse and ends(s.body) and self.go("flatten"):
                self.note("drop else after return", s)
                o = s.orelse
                s = ast.copy_location(ast.If(s.test, s.body, []), s)
                b[i:i + 1] = [s] + o
                rest = b[i + 1:]
            # t = e; use(t)  ->  use(e)
            if self.go("inline") and isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value) \
                    and rest and isinstance(rest[0], (ast.Assign, ast.Return, ast.Expr)) and not self.cy:
                v = s.targets[0].id
                uses = [x for x in ast.walk(self.fn) if isinstance(x, ast.Name) and x.id == v]
                here = [x for x in ast.walk(rest[0]) if isinstance(x, ast.Name) and x.id == v and isinstance(x.ctx, ast.Load)]
                if len(uses) == 2 and len(here) == 1 and not has(rest[0], ast.Lambda, ast.ListComp, ast.DictComp, ast.SetComp, ast.GeneratorExp, ast.BoolOp, ast.IfExp, ast.NamedExpr):
                    self.note("inline " + v, s)
                    val = s.value

                    class Sub(ast.NodeTransformer):
                        def visit_Name(self, n):
                            return copy.deepcopy(val) if n is here[0] else n
                    b[i + 1] = Sub().visit(rest[0])
                    i += 1
                    continue
            out += self.stmt(s)
            i += 1
        if self.go("noop"):
            k = self.rng.randrange(len(out) + 1)
            if not (out and k > 0 and ends(out[:k])) and not (k == 0 and out and isinstance(out[0], ast.Expr)):
                out.insert(k, ast.copy_location(ast.fix_missing_locations(ast.Pass()), b[0]))
        return out

    def independent(self, a, b):
        for s in (a, b):
            if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and pure(s.value)
                    and not has(s.value, ast.Attribute)):
                return False
        x, y = a.targets[0].id, b.targets[0].id
        return x != y and x not in loads(b) and y not in loads(a)

    def neg(self, t):
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return t.operand
        if isinstance(t, ast.Compare) and len(t.ops) == 1:
            m = {ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
            k = m.get(type(t.ops[0]))
            if k and self.rng.random() < 0.7:
                return ast.copy_location(ast.Compare(t.left, [k()], t.comparators), t)
        return ast.copy_location(ast.UnaryOp(ast.Not(), t), t)

    def temp(self, e, s):
        v = self.new()
        return ast.fix_missing_locations(ast.copy_location(ast.Assign([ast.Name(v, ast.Store())], e), s)), \
            ast.copy_location(ast.Name(v, ast.Load()), e)

    def first(self, e):
        """Path to the sub-expression evaluated first that is worth naming: (holder, setter)."""
        while True:
            if isinstance(e, ast.BinOp):
                holder, nxt = (e, "left"), e.left
            elif isinstance(e, ast.Compare):
                holder, nxt = (e, "left"), e.left
            elif isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.args and not isinstance(e.args[0], ast.Starred) \
                    and not e.func.id.startswith("__") and e.func.id != "super":
                holder, nxt = (e, "arg"), e.args[0]
            elif isinstance(e, ast.Subscript):
                holder, nxt = (e, "value"), e.value
            else:
                return None
            if isinstance(nxt, (ast.BinOp, ast.Call, ast.Subscript, ast.Compare)) and not has(nxt, ast.Lambda, ast.GeneratorExp, ast.NamedExpr) and self.rng.random() < 0.6:
                return holder, nxt
            e = nxt

    def stmt(self, s):
        pre = []
        cy = self.cy
        if isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant):
            return [s]
        # conditional expressions
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp) and self.go("ifexp"):
            self.note("ifexp", s)
            x = s.value
            one, two = copy.copy(s), copy.copy(s)
            one.value, two.value = x.body, x.orelse
            if isinstance(s, ast.Assign):
                two.targets = copy.deepcopy(s.targets)
            return [ast.copy_location(ast.If(x.test, [one], [two]), s)]
        if isinstance(s, ast.If) and len(s.body) == 1 and len(s.orelse) == 1 and isinstance(s.body[0], ast.Assign) and isinstance(s.orelse[0], ast.Assign) \
                and ast.dump(s.body[0].targets[0]) == ast.dump(s.orelse[0].targets[0]) and isinstance(s.body[0].targets[0], ast.Name) and not cy and self.go("toifexp"):
            self.note("to ifexp", s)
            return [ast.fix_missing_locations(ast.copy_location(ast.Assign(s.body[0].targets, ast.IfExp(s.test, s.body[0].value, s.orelse[0].value)), s))]
        # comprehension -> loop
        if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, (ast.ListComp, ast.DictComp)) and len(s.value.generators) == 1 and self.go("comp") \
                and not s.value.generators[0].is_async:
            g = s.value.generators[0]
            used = loads(self.fn) | stores(self.fn)
            tn = stores(g.target)
            cnt = sum(1 for x in ast.walk(self.fn) if isinstance(x, ast.Name) and x.id in tn)
            own = sum(1 for x in ast.walk(s.value) if isinstance(x, ast.Name) and x.id in tn)
            if cnt == own:
                self.note("comprehension", s)
                v = self.new("acc")
                if isinstance(s.value, ast.ListComp):
                    init = ast.List([], ast.Load())
                    add = ast.Expr(ast.Call(ast.Attribute(ast.Name(v, ast.Load()), "append", ast.Load()), [s.value.elt], []))
                else:
                    init = ast.Dict([], [])
                    add = ast.Assign([ast.Subscript(ast.Name(v, ast.Load()), s.value.key, ast.Store())], s.value.value)
                body = [add]
                for c in reversed(g.ifs):
                    body = [ast.If(c, body, [])]
                t = copy.copy(s)
                t.value = ast.Name(v, ast.Load())
                return [ast.fix_missing_locations(ast.copy_location(x, s)) for x in
                        (ast.Assign([ast.Name(v, ast.Store())], init), ast.For(g.target, g.iter, body, []), t)]
        # name parts of expressions
        for field in ("value", "test"):
            e = getattr(s, field, None)
            if isinstance(s, (ast.While, ast.AugAssign, ast.AnnAssign)) or e is None or isinstance(s, ast.Expr) and has(e, ast.Yield, ast.YieldFrom, ast.Await):
                continue
            if cy and (has(e, ast.Call) and "__" in ast.unparse(e)):
                continue
            if isinstance(s, (ast.Return, ast.If)) and self.go("whole") and not cy and not isinstance(e, (ast.Name, ast.Constant)):
                self.note("name whole", s)
                a, n = self.temp(e, s)
                setattr(s, field, n)
                pre.append(a)
                continue
            if self.go("part") and not cy:
                p = self.first(e)
                if p is not None:
                    (holder, f), nxt = p
                    a, n = self.temp(nxt, s)
                    if f == "arg":
                        holder.args[0] = n
                    else:
                        setattr(holder, f, n)
                    self.note("name part " + ast.unparse(a)[:40], s)
                    pre.append(a)
        if isinstance(s, ast.If):
            s.body = self.block(s.body, s)
            s.orelse = self.block(s.orelse, s) if s.orelse else []
            if isinstance(s.test, ast.BoolOp) and isinstance(s.test.op, ast.And) and not s.orelse and len(s.test.values) == 2 and self.go("nest"):
                self.note("nest", s)
                x, y = s.test.values
                s = ast.copy_location(ast.If(x, [ast.copy_location(ast.If(y, s.body, []), s)], []), s)
            elif not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and self.go("unnest"):
                self.note("unnest", s)
                s = ast.copy_location(ast.If(ast.copy_location(ast.BoolOp(ast.And(), [s.test, s.body[0].test]), s), s.body[0].body, []), s)
            elif s.orelse and self.go("negate"):
                self.note("negate", s)
                s = ast.copy_location(ast.If(self.neg(s.test), s.orelse, s.body), s)
        elif isinstance(s, ast.For):
            s.body = self.block(s.body, s, True)
            if isinstance(s.iter, ast.Call) and getattr(s.iter.func, "id", "") == "range" and len(s.iter.args) == 1 and isinstance(s.target, ast.Name) \
                    and not has(s, ast.Continue) and not s.orelse and s.target.id not in stores(ast.Module(body=s.body, type_ignores=[])) \
                    and self.go("while") and not cy:
                v = s.target.id
                c = self.new("n")
                outside = sum(1 for x in ast.walk(self.fn) if isinstance(x, ast.Name) and x.id == v) - sum(1 for x in ast.walk(s) if isinstance(x, ast.Name) and x.id == v)
                if outside == 0:
                    self.note("while", s)
                    n = lambda i, x: ast.Name(i, x())
                    k = self.new("k")
                    out = [ast.Assign([n(c, ast.Store)], s.iter.args[0]), ast.Assign([n(k, ast.Store)], ast.Constant(0)),
                           ast.While(ast.Compare(n(k, ast.Load), [ast.Lt()], [n(c, ast.Load)]),
                                     [ast.Assign([n(v, ast.Store)], n(k, ast.Load))] + s.body + [ast.AugAssign(n(k, ast.Store), ast.Add(), ast.Constant(1))], [])]
                    return pre + [ast.fix_missing_locations(ast.copy_location(x, s)) for x in out]
            elif not s.orelse and self.go("enum") and not cy and not (isinstance(s.iter, ast.Call) and getattr(s.iter.func, "id", "") in ("range", "enumerate", "zip")):
                self.note("enumerate", s)
                s.iter = ast.Call(ast.Name("enumerate", ast.Load()), [s.iter], [])
                s.target = ast.Tuple([ast.Name(self.new("_i"), ast.Store()), s.target], ast.Store())
                ast.fix_missing_locations(s)
            if not s.orelse and len(s.body) == 1 and isinstance(s.body[0], ast.If) and not s.body[0].orelse and self.go("continue"):
                self.note("continue", s)
                i = s.body[0]
                s.body = [ast.copy_location(ast.If(self.neg(i.test), [ast.copy_location(ast.Continue(), i)], []), i)] + i.body
        elif isinstance(s, (ast.While, ast.With, ast.AsyncWith, ast.AsyncFor)):
            if isinstance(s, (ast.With, ast.AsyncWith, ast.AsyncFor)) or True:
                s.body = self.block(s.body, s, isinstance(s, ast.While))
        elif isinstance(s, ast.Try):
            s.body = self.block(s.body, s)
            for h in s.handlers:
                h.body = self.block(h.body, h)
            if s.orelse:
                s.orelse = self.block(s.orelse, s)
        # expressions
        for e in ast.walk(s) if not isinstance(s, FN + (ast.ClassDef,)) else []:
            if isinstance(e, ast.Compare) and len(e.ops) == 1 and pure(e) and not getattr(e, "flipped", False) and self.go("flip"):
                m = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE, ast.Eq: ast.Eq, ast.NotEq: ast.NotEq}
                k = m.get(type(e.ops[0]))
                if k:
                    e.flipped = True
                    self.note("flip " + ast.unparse(e)[:40], e)
                    e.left, e.comparators, e.ops = e.comparators[0], [e.left], [k()]
            if isinstance(e, (ast.If, ast.While)) and isinstance(e.test, ast.UnaryOp) and isinstance(e.test.op, ast.Not) and isinstance(e.test.operand, ast.BoolOp) and self.go("morgan"):
                self.note("de Morgan", e)
                o = e.test.operand
                e.test = ast.copy_location(ast.BoolOp(ast.Or() if isinstance(o.op, ast.And) else ast.And(), [ast.copy_location(ast.UnaryOp(ast.Not(), v), v) for v in o.values]), o)
            if isinstance(e, ast.JoinedStr) and self.go("fstring") and not cy:
                pass
        # unpacking
        if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Tuple) and isinstance(s.value, ast.Tuple) \
                and len(s.targets[0].elts) == len(s.value.elts) and all(isinstance(t, ast.Name) for t in s.targets[0].elts) \
                and not (stores(s.targets[0]) & loads(s.value)) and self.go("untuple") and not cy:
            self.note("split tuple", s)
            return pre + [ast.fix_missing_locations(ast.copy_location(ast.Assign([t], v), s)) for t, v in zip(s.targets[0].elts, s.value.elts)]
        if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) and self.go("aug"):
            self.note("aug", s)
            return pre + [ast.fix_missing_locations(ast.copy_location(ast.Assign([s.target], ast.BinOp(ast.Name(s.target.id, ast.Load()), s.op, s.value)), s))]
        return pre + [s]


class RRepo(Repo):
    def __init__(self, root, seed, rate):
        super().__init__(root)
        self.seed, self.rate = seed, rate
        self.logs = {}

    def module(self, rel, optional=False):
        if rel in self.cache or rel.startswith("specs/"):
            return super().module(rel, optional)
        m = super().module(rel, optional)
        if m is None or not m.rel.startswith("pvtrace/") or "transformations" in rel:
            return m
        t = m.tree
        rng = random.Random("%s/%s" % (self.seed, rel))
        extra = []

        def one(d, cls):
            r = R(rng, self.rate, m.lang == "cy")
            r.n = rng.randrange(10000)
            try:
                r.function(d, cls)
            except RecursionError:
                raise
            for x in r.helpers:
                extra.append(x)
            self.logs[(rel, (cls.name + "." if cls else "") + d.name)] = r.log
            ast.fix_missing_locations(d)
        for s in list(t.body):
            if isinstance(s, FN):
                one(s, None)
            elif isinstance(s, ast.ClassDef):
                for d in s.body:
                    if isinstance(d, FN):
                        one(d, s)
        t.body = t.body + extra
        structs = m.structs
        m2 = Module(rel, t, m.lang)
        m2.structs = structs
        for k, v in m.__dict__.items():
            if k not in m2.__dict__:
                setattr(m2, k, v)
        self.cache[rel] = m2
        return m2


def work(job):
    seed, pat, rate = job
    base = json.load(open(os.path.join(HERE, "pvsa", "baseline.json")))
    repo = RRepo(None, seed, rate)
    out = []
    specs = [s for s in load_specs(repo) if pat != "-" and any(p in s.id or p in s.props for p in pat.split(","))]
    for s in specs:
        b = base["specs"].get(s.id, {})
        try:
            r = run_spec(repo, s, frozenset(base["global"]) | frozenset(b.get("vocab", ())), seed=1, expected_undefs=b.get("fails", 1))
            st, why = r.status, r.reason if r.status != "violated" else "%s: %s %s" % (r.diffs[0].what, r.diffs[0].detail[:150], r.reason)
            if st == "proved" and r.full and r.defined < max(3, 0.5 * b.get("defined", 0) / max(1, b.get("trials", 1)) * r.trials):
                st, why = "undecided", "defined"
        except Exception as x:
            import traceback
            st, why = "undecided", "crash %s %s %s" % (type(x).__name__, str(x)[:80], traceback.format_exc().splitlines()[-3:-1])
        rel, name = s.code.split(":")
        lg = next((v for k, v in repo.logs.items() if k == (rel, name) or k == (rel, name.replace(".setter", ""))), [])
        out.append((st, s.id, why, lg))
    if pat == "-":
        from pvsa import rules
        repo.py_modules()
        repo.module("pvtrace/engine/_kernel.pyx")
        for props, name, text, f in rules.load():
            known = KNOWN.get(name, set())
            try:
                for o in f(repo):
                    if (o.construct, o.detail) not in known or o.status == "proved":
                        lg = [(k, x) for k, v in repo.logs.items() for x in v if o.where and k[0] in str(o.where) and k[1].split(".")[-1] in str(o.construct) + str(o.where)]
                        out.append((o.status, "rule " + name, "%s %s %s" % (o.construct, o.where, o.detail), [str(lg)[:300]] if lg else []))
            except Exception as x:
                out.append(("undecided", "rule " + name, "crash %s %s" % (type(x).__name__, x), []))
    return seed, out


KNOWN = {}


def main():
    pat = sys.argv[1]
    n = int(sys.argv[2]) if len(sys.argv) > 2 else 8
    rate = float(sys.argv[3]) if len(sys.argv) > 3 else 0.15
    first = int(os.environ.get("SEED", "1"))
    import multiprocessing as mp
    from collections import Counter
    c, T = Counter(), []
    if pat == "-":
        from pvsa import rules
        repo = Repo()
        for props, name, text, f in rules.load():
            KNOWN[name] = {(o.construct, o.detail) for o in f(repo) if o.status != "proved"}
    with mp.get_context("fork").Pool(8) as pool:
        for seed, out in pool.imap_unordered(work, [(k, pat, rate) for k in range(first, first + n)]):
            for st, i, why, lg in out:
                c[st] += 1
                T.append(len(lg))
                if st != "proved":
                    print("%s seed=%d %s: %s\n      %s" % (st.upper(), seed, i, why, "; ".join(lg)[:400]))
    print(dict(c), "rewrites:", sum(T))


if __name__ == "__main__":
    main()
