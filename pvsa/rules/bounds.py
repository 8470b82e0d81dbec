"""Interval analysis of the kernel's indices, and the ownership of what its threads write."""
import ast

from pvsa.load import AnalysisError
from pvsa.rules import bad, ok, rule, unsure
from pvsa.rules._const import KERNEL, name

INF = float("inf")
TOP = (-INF, INF)
UNROLL = 16


def join(a, b):
    if a is None:
        return b
    if b is None:
        return a
    return {k: (min(a[k][0], b[k][0]), max(a[k][1], b[k][1])) for k in a if k in b}


class Bounds:
    """Intervals of the integer variables of one kernel function, and of the indices it uses."""

    def __init__(self, repo, m, fn, summaries, limits):
        self.repo, self.m, self.fn, self.summaries, self.limits = repo, m, fn, summaries, limits
        self.sizes = {}
        self.uses = {}          # (array, line, text, store) -> interval
        self.ret = None
        self.loops = []
        self.params = [a.arg for a in fn.args.args]
        self.ints = {n for n, (t, k) in fn.cinfo.types.items() if k == "scalar" and t.split() and t.split()[-1] in ("int", "long", "Py_ssize_t", "size_t", "char", "short")}
        self.thresholds = sorted({0, 1, -1} | self.constants())

    def constants(self):
        out = set()
        for n in ast.walk(self.fn):
            v = None
            if isinstance(n, ast.Constant) and isinstance(n.value, int) and not isinstance(n.value, bool):
                v = n.value
            elif isinstance(n, ast.Name) and n.id.isupper():
                v = self.const(n.id)
            if isinstance(v, int):
                out |= {v - 1, v, v + 1}
        return out | {v + d for v in self.limits.values() for d in (-1, 0, 1)}

    def const(self, n):
        try:
            v = name(self.repo, self.m, n)
        except (AnalysisError, RecursionError):
            return None
        return v if isinstance(v, int) and not isinstance(v, bool) else None

    # -- expressions

    def use(self, arr, node, iv, store):
        k = (arr, node.lineno, ast.unparse(node), store)
        o = self.uses.get(k)
        self.uses[k] = iv if o is None else (min(o[0], iv[0]), max(o[1], iv[1]))

    def ev(self, e, s):
        if isinstance(e, ast.Constant):
            v = e.value
            return (v, v) if isinstance(v, int) and not isinstance(v, bool) else TOP
        if isinstance(e, ast.Name):
            if e.id in s:
                return s[e.id]
            v = self.const(e.id) if e.id not in self.params and e.id not in self.fn.cinfo.types else None
            return (v, v) if v is not None else TOP
        if isinstance(e, ast.Attribute):
            self.ev(e.value, s)
            return (0, self.limits[e.attr]) if e.attr in self.limits else TOP
        if isinstance(e, ast.UnaryOp):
            a = self.ev(e.operand, s)
            return (-a[1], -a[0]) if isinstance(e.op, ast.USub) else a if isinstance(e.op, ast.UAdd) else TOP
        if isinstance(e, ast.BinOp):
            a, b = self.ev(e.left, s), self.ev(e.right, s)
            if isinstance(e.op, ast.Add):
                return (a[0] + b[0], a[1] + b[1])
            if isinstance(e.op, ast.Sub):
                return (a[0] - b[1], a[1] - b[0])
            if isinstance(e.op, ast.Mult) and all(abs(x) != INF for x in a + b):
                p = [x * y for x in a for y in b]
                return (min(p), max(p))
            if isinstance(e.op, ast.Mod) and b[0] == b[1] and b[0] > 0:
                return (0 if a[0] >= 0 else 1 - b[0], b[0] - 1)
            if isinstance(e.op, (ast.FloorDiv, ast.RShift)) and b[0] == b[1] and b[0] > 0 and a[0] >= 0:
                d = b[0] if isinstance(e.op, ast.FloorDiv) else 2 ** b[0]
                return (a[0] // d, a[1] // d if a[1] != INF else INF)
            if isinstance(e.op, ast.BitAnd) and b[0] == b[1] and b[0] >= 0:
                return (0, b[0])
            return TOP
        if isinstance(e, ast.Subscript):
            self.ev(e.value, s)
            i = self.ev(e.slice, s)
            if isinstance(e.value, ast.Name):
                self.use(e.value.id, e, i, isinstance(e.ctx, ast.Store))
            return TOP
        if isinstance(e, ast.IfExp):
            a = self.refine(e.test, s, True)
            b = self.refine(e.test, s, False)
            x = self.ev(e.body, a) if a is not None else None
            y = self.ev(e.orelse, b) if b is not None else None
            if x is None or y is None:
                return x or y or TOP
            return (min(x[0], y[0]), max(x[1], y[1]))
        if isinstance(e, (ast.Compare, ast.BoolOp)):
            self.refine(e, s, True)
            return (0, 1)
        if isinstance(e, ast.Call):
            return self.call(e, s)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.ev(c, s)
        return TOP

    def call(self, e, s):
        f = e.func.id if isinstance(e.func, ast.Name) else None
        if f == "__addr__" or f == "__array__" or f == "__struct__":
            for n in ast.walk(e):
                if f == "__addr__" and isinstance(n, ast.Name):
                    s.pop(n.id, None)
            return TOP
        args = [self.ev(a, s) for a in e.args]
        if f == "__cast__" and len(args) == 2 and not str(getattr(e.args[0], "value", "")).endswith("*"):
            return args[1]
        if f in ("min", "max") and len(args) > 1:
            g = min if f == "min" else max
            return (g(a[0] for a in args), g(a[1] for a in args))
        if f in ("int", "abs") and len(args) == 1:
            return args[0] if f == "int" else (0 if args[0][0] < 0 else args[0][0], max(abs(args[0][0]), abs(args[0][1])))
        if f in self.summaries:
            g = self.summaries[f]
            for p, a in zip(g.params, e.args):
                if isinstance(a, ast.Name) and (a.id in self.sizes or a.id in self.params):
                    for (arr, line, text, store), iv in g.uses.items():
                        if arr == p:
                            self.use(a.id, e, iv, store)
            return g.ret or TOP
        return TOP

    # -- conditions

    def bound(self, n, s, lo, hi):
        if n not in self.ints and n not in s:
            return s
        a = s.get(n, TOP)
        a = (max(a[0], lo), min(a[1], hi))
        if a[0] > a[1]:
            return None
        s = dict(s)
        s[n] = a
        return s

    def refine(self, t, s, truth):
        """The state where t is truth, or None where it cannot be."""
        if s is None:
            return None
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not):
            return self.refine(t.operand, s, not truth)
        if isinstance(t, ast.BoolOp):
            if isinstance(t.op, ast.And) == truth:
                for v in t.values:
                    s = self.refine(v, s, truth)
                    if s is None:
                        return None
                return s
            out, cur = None, s
            for v in t.values:
                out = join(out, self.refine(v, cur, truth))
                cur = self.refine(v, cur, not truth)
                if cur is None:
                    break
            return out
        if isinstance(t, ast.Compare):
            items = [t.left] + t.comparators
            if len(t.ops) > 1 and not truth:
                for x in items:
                    self.ev(x, s)
                return s
            for op, l, r in zip(t.ops, items, items[1:]):
                a, b = self.ev(l, s), self.ev(r, s)
                k = type(op)
                if not truth:
                    k = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}.get(k, k)
                for x, p, q, kk in ((l, a, b, k), (r, b, a, {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}.get(k, k))):
                    if not isinstance(x, ast.Name) or x.id not in self.ints:
                        continue
                    if kk is ast.Lt:
                        s = self.bound(x.id, s, -INF, q[1] - 1)
                    elif kk is ast.LtE:
                        s = self.bound(x.id, s, -INF, q[1])
                    elif kk is ast.Gt:
                        s = self.bound(x.id, s, q[0] + 1, INF)
                    elif kk is ast.GtE:
                        s = self.bound(x.id, s, q[0], INF)
                    elif kk is ast.Eq:
                        s = self.bound(x.id, s, q[0], q[1])
                    elif kk is ast.NotEq and q[0] == q[1]:
                        if p[0] == q[0]:
                            s = self.bound(x.id, s, p[0] + 1, INF)
                        elif p[1] == q[0]:
                            s = self.bound(x.id, s, -INF, p[1] - 1)
                    if s is None:
                        return None
            return s
        self.ev(t, s)
        if isinstance(t, ast.Constant):
            return s if bool(t.value) == truth else None
        return s

    # -- statements

    def block(self, body, s):
        for x in body:
            if s is None:
                return None
            s = self.stmt(x, s)
        return s

    def assign(self, t, iv, s, value=None):
        if isinstance(t, ast.Name):
            s[t.id] = iv
            if iv == TOP:
                s.pop(t.id, None)
        elif isinstance(t, ast.Subscript):
            self.ev(t, s)
        elif isinstance(t, (ast.Tuple, ast.List)):
            vs = value.elts if isinstance(value, (ast.Tuple, ast.List)) and len(value.elts) == len(t.elts) else [None] * len(t.elts)
            ivs = [self.ev(v, s) if v is not None else TOP for v in vs]
            for x, i in zip(t.elts, ivs):
                self.assign(x, i, s)

    def stmt(self, x, s):
        if isinstance(x, ast.Assign):
            s = dict(s)
            v = x.value
            if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "__array__" and isinstance(x.targets[0], ast.Name) and len(v.args) > 1:
                n = self.ev(v.args[1], s)
                if n[0] == n[1]:
                    self.sizes[x.targets[0].id] = n[0]
                return s
            iv = self.ev(v, s)
            for t in x.targets:
                self.assign(t, iv, s, v)
            return s
        if isinstance(x, ast.AnnAssign):
            s = dict(s)
            if x.value is not None:
                self.assign(x.target, self.ev(x.value, s), s)
            return s
        if isinstance(x, ast.AugAssign):
            s = dict(s)
            l = ast.copy_location(ast.Name(x.target.id, ast.Load()), x) if isinstance(x.target, ast.Name) else None
            iv = self.ev(ast.copy_location(ast.BinOp(l, x.op, x.value), x), s) if l is not None else self.ev(x.value, s)
            self.assign(x.target, iv, s)
            return s
        if isinstance(x, ast.Expr):
            s = dict(s)
            self.ev(x.value, s)
            return s
        if isinstance(x, ast.If):
            a = self.refine(x.test, dict(s), True)
            b = self.refine(x.test, dict(s), False)
            a = self.block(x.body, a) if a is not None else None
            b = self.block(x.orelse, b) if b is not None else None
            return join(a, b)
        if isinstance(x, ast.For):
            return self.loop_for(x, s)
        if isinstance(x, ast.While):
            return self.loop_while(x, s)
        if isinstance(x, ast.Return):
            iv = self.ev(x.value, s) if x.value is not None else TOP
            self.ret = iv if self.ret is None else (min(self.ret[0], iv[0]), max(self.ret[1], iv[1]))
            return None
        if isinstance(x, ast.Raise):
            return None
        if isinstance(x, ast.Break):
            self.loops[-1][0] = join(self.loops[-1][0], s)
            return None
        if isinstance(x, ast.Continue):
            self.loops[-1][1] = join(self.loops[-1][1], s)
            return None
        if isinstance(x, ast.With):
            for i in x.items:
                self.ev(i.context_expr, s)
            return self.block(x.body, dict(s))
        if isinstance(x, ast.Try):
            a = self.block(x.body, dict(s))
            return {} if a is not None or x.handlers else None
        return s

    def body(self, x, s):
        """(state after one pass, state at break)"""
        self.loops.append([None, None])
        o = self.block(x.body, s)
        br, co = self.loops.pop()
        return join(o, co), br

    def widen(self, a, b):
        out = {}
        for k in a:
            if k not in b:
                continue
            lo, hi = a[k]
            if b[k][0] < lo:
                lo = max([t for t in self.thresholds if t <= b[k][0]], default=-INF)
            if b[k][1] > hi:
                hi = min([t for t in self.thresholds if t >= b[k][1]], default=INF)
            out[k] = (lo, hi)
        return out

    def fix(self, s, step):
        """Stable loop-head state, and the state at its breaks."""
        head = dict(s)
        saved = dict(self.uses), self.ret
        for i in range(200):
            self.uses, self.ret = dict(saved[0]), saved[1]
            after, br = step(dict(head))
            new = join(dict(s), after) if after is not None else dict(s)
            new = {k: (min(new[k][0], head[k][0]), max(new[k][1], head[k][1])) for k in new if k in head}
            if new == head:
                return head, br
            head = self.widen(head, new) if i > 2 else new
        return {}, {}

    def loop_for(self, x, s):
        s = dict(s)
        c = x.iter
        rng = isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in ("range", "prange")
        if not rng or not isinstance(x.target, ast.Name):
            self.ev(c, s)
            lo, hi, step, n = -INF, INF, 1, INF
        else:
            a = [self.ev(v, s) for v in c.args]
            st = a[2] if len(a) > 2 else (1, 1)
            b, e = ((0, 0), a[0]) if len(a) == 1 else (a[0], a[1])
            if st[0] != st[1] or st[0] <= 0:
                lo, hi, step, n = (-INF, INF, 1, INF) if st[0] != st[1] or st[0] == 0 else (e[0] + 1, b[1], st[0], INF)
            else:
                step = st[0]
                lo, hi = b[0], e[1] - 1
                n = INF if hi == INF or lo == -INF else max(0, -(-(e[1] - b[0]) // step))
                least = 0 if b[1] == INF or e[0] == -INF else max(0, -(-(e[0] - b[1]) // step))
        v = x.target.id if isinstance(x.target, ast.Name) else None
        if rng and n <= UNROLL and step > 0:
            out, cur, br = None, s, None
            start = lo
            exact = b[0] == b[1]
            for i in range(int(n)):
                if cur is None:
                    break
                if i >= least:
                    out = join(out, cur)
                cur = dict(cur)
                cur[v] = (start + i * step, start + i * step) if exact else (lo, hi)
                cur, b2 = self.body(x, cur)
                br = join(br, b2)
            out = join(out, cur)
        else:
            if hi < lo:
                return s

            def step_(h):
                if v:
                    h[v] = (lo, hi)
                return self.body(x, h)
            head, br = self.fix(s, step_)
            out = head
        if out is not None and x.orelse:
            out = self.block(x.orelse, out)
        return join(out, br)

    def loop_while(self, x, s):
        def step(h):
            h = self.refine(x.test, h, True)
            if h is None:
                return None, None
            return self.body(x, h)
        head, br = self.fix(s, step)
        out = self.refine(x.test, dict(head), False)
        if out is not None and x.orelse:
            out = self.block(x.orelse, out)
        return join(out, br)

    def run(self):
        self.block(self.fn.body, {})
        return self


def analysed(repo):
    """Every kernel function, callees before callers."""
    m = repo.module(KERNEL)
    limits = {"n_nodes": name(repo, m, "MAX_NODES"), "n_recorders": name(repo, m, "MAX_RECORDERS")}
    done = {}

    def visit(n, path):
        if n in done or n in path or n not in m.functions:
            return
        f = m.functions[n]
        for c in ast.walk(f):
            if isinstance(c, ast.Call) and isinstance(c.func, ast.Name):
                visit(c.func.id, path | {n})
        done[n] = Bounds(repo, m, f, done, limits).run()
    for n in m.functions:
        visit(n, frozenset())
    return m, done


@rule("P13", "fixed arrays", "no index of a fixed-size array of the kernel reaches its length, in the function that declares it or in any it is passed to")
def arrays(repo):
    m, done = analysed(repo)
    for n, b in done.items():
        worst = {}
        for (arr, line, text, store), iv in b.uses.items():
            if arr in b.sizes:
                worst.setdefault(arr, []).append((iv, line, text, store))
        for arr, us in worst.items():
            what = "%s[%d]" % (arr, b.sizes[arr])
            over = [(iv, line, text) for iv, line, text, store in us if iv[1] != INF and iv[1] >= b.sizes[arr] or iv[1] < 0 or store and -INF < iv[0] < 0]
            dark = [(iv, line, text) for iv, line, text, store in us if iv[1] == INF or store and iv[0] == -INF]
            if over:
                iv, line, text = over[0]
                yield bad(what, n, line, "%s reaches index %d" % (text, iv[1] if iv[1] >= b.sizes[arr] or iv[1] < 0 else iv[0]))
            elif dark:
                yield unsure(what, n, dark[0][1], "no bound found for %s" % dark[0][2])
            else:
                yield ok(what, n, us[0][1], "%d uses" % len(us))


# -- ownership

FRESH = {"zeros", "full", "empty", "ones", "copy", "zeros_like", "empty_like", "full_like", "ones_like", "array"}
VIEWS = {"ascontiguousarray", "asarray", "require", "asanyarray", "asfortranarray", "ravel", "reshape"}


def writes(m):
    """Kernel function -> its pointer parameters that it, or what it calls, writes through."""
    out = {n: set() for n in m.functions}
    for _ in range(6):
        for n, f in m.functions.items():
            ps = {a.arg for a in f.args.args}
            for x in ast.walk(f):
                if isinstance(x, ast.Subscript) and isinstance(x.ctx, ast.Store) and isinstance(x.value, ast.Name) and x.value.id in ps:
                    out[n].add(x.value.id)
                if isinstance(x, ast.Call) and isinstance(x.func, ast.Name) and x.func.id in m.functions:
                    g = m.functions[x.func.id]
                    for p, a in zip(g.args.args, x.args):
                        if p.arg in out[x.func.id] and isinstance(a, ast.Name) and a.id in ps:
                            out[n].add(a.id)
    return out


def values(f, n):
    return [s.value for s in ast.walk(f) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == n for t in s.targets)]


def copied(f, e, depth=0):
    """True where the array is certainly new memory, False where it can be the caller's, else None."""
    if depth > 8:
        return None
    if isinstance(e, ast.Name):
        vs = values(f, e.id)
        if not vs:
            return False if e.id in {a.arg for a in f.args.args} else None
        rs = [copied(f, v, depth + 1) for v in vs if not (isinstance(v, ast.Name) and v.id == e.id)]
        if e.id in {a.arg for a in f.args.args} and len(vs) > 1:
            return None
        return False if False in rs else None if None in rs else True
    if isinstance(e, ast.BinOp):
        return copied(f, e.left, depth + 1) if "int" not in str(type(e)) else None
    if isinstance(e, ast.Attribute) and e.attr in ("data", "T"):
        return copied(f, e.value, depth + 1)
    if isinstance(e, ast.Subscript):
        return copied(f, e.value, depth + 1)
    if isinstance(e, ast.Call):
        if isinstance(e.func, ast.Name):
            if e.func.id == "__cast__":
                return copied(f, e.args[1], depth + 1)
            if e.func.id == "__addr__":
                a = e.args[0]
                return copied(f, a, depth + 1)
            return None
        if isinstance(e.func, ast.Attribute):
            k = e.func.attr
            if any(x.arg == "copy" and isinstance(x.value, ast.Constant) and not x.value.value for x in e.keywords):
                k = "asarray"
            if k in FRESH:
                return True
            if k in VIEWS:
                mod = isinstance(e.func.value, ast.Name) and e.func.value.id in ("np", "numpy", "cnp")
                return copied(f, e.args[0] if mod and e.args else e.func.value, depth + 1)
    return None


@rule("P14", "private ray state", "the kernel traces each ray in memory of its own: what a ray's tracing writes to is never the caller's array")
def private(repo):
    m = repo.module(KERNEL)
    w = writes(m)
    for n, f in m.functions.items():
        if not any(f.cinfo.types.get(a.arg, ("",))[0] == "buffer" for a in f.args.args):
            continue
        for c in ast.walk(f):
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id in m.functions):
                continue
            g = m.functions[c.func.id]
            for p, a in zip(g.args.args, c.args):
                if p.arg not in w[c.func.id]:
                    continue
                r = copied(f, a)
                what = "%s(%s=%s)" % (c.func.id, p.arg, ast.unparse(a))
                if r is True:
                    yield ok(what, n, c.lineno)
                elif r is False:
                    yield bad(what, n, c.lineno, "%s writes to %s, which can be the caller's own array" % (c.func.id, ast.unparse(a)))
                else:
                    yield unsure(what, n, c.lineno, "origin of %s" % ast.unparse(a))


def resolve(f, e, depth=0):
    if depth > 6:
        return e
    if isinstance(e, ast.Name):
        vs = values(f, e.id)
        if len(vs) == 1 and e.id not in {a.arg for a in f.args.args}:
            return resolve(f, vs[0], depth + 1)
        return e
    if isinstance(e, ast.BinOp):
        return ast.BinOp(resolve(f, e.left, depth + 1), e.op, resolve(f, e.right, depth + 1))
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id in ("max", "min", "int") and not e.keywords:
        return ast.Call(e.func, [resolve(f, x, depth + 1) for x in e.args], [])
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "__cast__":
        return resolve(f, e.args[1], depth + 1)
    return e


def value(e, env):
    if isinstance(e, ast.Constant) and isinstance(e.value, int):
        return e.value
    if isinstance(e, ast.Name):
        return env.get(e.id)
    if isinstance(e, ast.BinOp):
        a, b = value(e.left, env), value(e.right, env)
        if a is None or b is None:
            return None
        k = type(e.op)
        return a + b if k is ast.Add else a - b if k is ast.Sub else a * b if k is ast.Mult else a // b if k is ast.FloorDiv and b else None
    if isinstance(e, ast.Call):
        vs = [value(x, env) for x in e.args]
        if None in vs or not vs:
            return None
        return {"max": max, "min": min}[e.func.id](vs) if e.func.id in ("max", "min") and len(vs) > 1 else vs[0]
    return None


@rule("P13 P14", "a row for every thread", "each per-thread accumulator has a row for every thread the parallel loop may start")
def rows(repo):
    m = repo.module(KERNEL)
    for n, f in m.functions.items():
        for loop in ast.walk(f):
            if not (isinstance(loop, ast.For) and isinstance(loop.iter, ast.Call) and isinstance(loop.iter.func, ast.Name) and loop.iter.func.id == "prange"):
                continue
            k = {x.arg: x.value for x in loop.iter.keywords}
            if "num_threads" not in k:
                yield bad("prange", n, loop.lineno, "the number of threads is left to the runtime, the accumulators have a fixed number of rows")
                continue
            t = resolve(f, k["num_threads"])
            # accumulators: arrays whose addresses are kept in the structure of per-thread slices
            for s in ast.walk(f):
                if not (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and isinstance(s.targets[0].value, ast.Name)
                        and f.cinfo.types.get(s.targets[0].value.id, ("",))[0] == "AccBase"):
                    continue
                v = s.value.args[1] if isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "__cast__" else s.value
                v = v.value if isinstance(v, ast.Attribute) and v.attr == "data" else v
                a = resolve(f, v)
                what = ast.unparse(s.targets[0])
                dim = None
                if isinstance(a, ast.Call) and isinstance(a.func, ast.Attribute) and a.func.attr in ("zeros", "empty", "full") and a.args:
                    dim = a.args[0].elts[0] if isinstance(a.args[0], ast.Tuple) and a.args[0].elts else None
                if dim is None:
                    yield unsure(what, n, s.lineno, "number of rows")
                    continue
                dim = resolve(f, dim)
                names = {x.id for x in ast.walk(dim) if isinstance(x, ast.Name)} | {x.id for x in ast.walk(t) if isinstance(x, ast.Name)}
                pairs = [(value(t, {q: c for q in names}), value(dim, {q: c for q in names})) for c in (-1, 0, 1, 2, 5, 8)]
                if any(x is None or y is None for x, y in pairs):
                    (same) = ast.dump(t) == ast.dump(dim)
                    yield ok(what, n, s.lineno) if same else unsure(what, n, s.lineno, "rows %s, threads %s" % (ast.unparse(dim), ast.unparse(t)))
                elif any(x > y for x, y in pairs):
                    yield bad(what, n, s.lineno, "%s rows for %s threads" % (ast.unparse(dim), ast.unparse(t)))
                else:
                    yield ok(what, n, s.lineno)
