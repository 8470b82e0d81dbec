"""Conformance obligations: the value graph of a project function is compared
with the value graph of its specification (pvsa/specs/*.py, parsed, never run)."""
import ast
import itertools
import math
import os
import time

from . import ri, sql
from .ev import assigned, ClassRef, Ev, FuncRef, State, Unsupported, Loop, Effect
from .load import AnalysisError, Module, Repo
from .ri import (Dict, Enum, Interp, Model, Opq, Ptr, Rec, Sigs, Undef, Unfinished, With)
from .terms import T, const, mk, TRUE, FALSE, walk

HERE = os.path.dirname(os.path.abspath(__file__))
KERNEL = "pvtrace/engine/_kernel.pyx"


class Spec:
    def __init__(self, fn, module, kw, code):
        self.fn, self.module, self.code = fn, module, code
        self.props = kw.get("props", "").split()
        self.case = "/" + kw["case"] if "case" in kw else ""
        self.opaque = set(kw.get("opaque", ()))
        self.abstract = dict(kw.get("abstract", {}))
        self.domain = kw.get("domain", {})
        self.params = kw.get("params", {})
        self.ignore = set(kw.get("ignore", ()))
        self.trials = kw.get("trials", 60)
        self.rounds = kw.get("rounds", 4)
        self.maxlen = kw.get("maxlen", 3)
        self.modes = kw.get("modes")
        self.output = kw.get("output", False)    # what is printed counts
        self.heap_on_raise = kw.get("heap_on_raise", False)
        self.messages = kw.get("messages", False)
        self.unordered = kw.get("unordered", False)
        self.attribute = kw.get("attribute", {})
        self.self_class = kw.get("self_class")
        self.draws = kw.get("draws", "")
        self.alloc = kw.get("alloc", False)      # arrays the function allocates are told apart by where they are passed
        self.shared = kw.get("shared", ())       # objects others change while this function waits
        self.symbols = frozenset(kw.get("symbols", ()))      # module constants decided elsewhere

    @property
    def name(self):
        return self.code.split(":")[1]

    @property
    def id(self):
        return self.code + "~" + self.fn.name + self.case


def load_specs(repo):
    out = []
    try:
        with open(os.path.join(repo.root, "pvtrace/data/schema.sql")) as fp:
            ri.SCHEMA.clear()
            ri.SCHEMA.update(sql.schema(fp.read()))
    except OSError:
        pass
    d = os.path.join(HERE, "specs")
    for f in sorted(os.listdir(d)):
        if not f.endswith(".py"):
            continue
        with open(os.path.join(d, f)) as fp:
            tree = ast.parse(fp.read(), f)
        m = Module("specs/" + f, tree, "cy" if f.startswith("k_") else "py")
        m.spec = True
        for fn in m.functions.values():
            for dec in fn.decorator_list:
                if isinstance(dec, ast.Call) and isinstance(dec.func, ast.Name) and dec.func.id == "spec":
                    kw = {k.arg: ast.literal_eval(k.value) for k in dec.keywords}
                    if "case" in kw:                 # the specification above it, with other values
                        kw = {**first, **kw, "domain": {**first.get("domain", {}), **kw.get("domain", {})}}
                    else:
                        first, args = kw, dec.args
                    for a in dec.args or args:
                        out.append(Spec(fn, m, kw, ast.literal_eval(a)))
            fn.decorator_list = []
    return out


def nested(repo, m, name):
    """A function defined inside another one: what the enclosing function binds
    is left open, except the functions defined beside it."""
    parts = name.split(".")
    d = m.functions.get(parts[0])
    env = {}
    owner = None
    for q in parts[1:]:
        if d is None:
            return None
        inner = [x for s in d.body for x in defs_in(s)]
        for a in d.args.posonlyargs + d.args.args + d.args.kwonlyargs:
            env[a.arg] = mk("sym", a.arg)
        for x in assigned(d.body):
            if x not in m.imports:
                env[x] = mk("sym", x)
        for x in inner:
            env[x.name] = mk("func", FuncRef(x, m, None, env, d))
        owner = d
        d = next((x for x in inner if x.name == q), None)
    return None if d is None else FuncRef(d, m, None, env, owner)


def defs_in(s):
    if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
        return [s]
    if isinstance(s, (ast.ClassDef, ast.Lambda)):
        return []
    return [x for c in ast.iter_child_nodes(s) for x in defs_in(c)]


def locate(repo, code):
    """The project function named by `path:Class.method` / `path:function`."""
    rel, name = code.split(":")
    m = repo.module(rel, optional=True)
    cn, _, fn = name.rpartition(".")
    if fn == "setter":
        cn, _, fn = cn.rpartition(".")
        fn += "$set"
    if m is not None:
        if cn:
            c = m.classes.get(cn)
            if c is not None:
                d = repo.method(c, fn)
                if d is not None:
                    return FuncRef.of(d, d.module, d.cls), c
            else:
                f = nested(repo, m, name)
                if f is not None:
                    return f, None
        elif fn in m.functions:
            return FuncRef.of(m.functions[fn], m), None
        else:
            r = repo.resolve_import(m, fn)
            if r is not None and r[0] == "func":
                return FuncRef.of(r[1], r[1].module), None
    # moved elsewhere?
    if cn:
        for c in repo.class_index.get(cn, []):
            d = repo.method(c, fn)
            if d is not None:
                return FuncRef.of(d, d.module, d.cls), c
    if not cn or cn[0].islower():
        fs = [x for x in repo.py_modules() if fn in x.functions]
        if len(fs) == 1:
            return FuncRef.of(fs[0].functions[fn], fs[0]), None
    return None, None


# ---------------------------------------------------------------- abstraction

def make_prim(name, spec_kind, seen):
    """Replaces a call by an uninterpreted one.  spec_kind:
    'draw'   a uniform random number
    'call'   an effect, nothing returned
    'pure'   an uninterpreted value
    'effect' an effect whose value is used
    ('out', i, n, ...) value plus n cells written through argument i
    {"inout": {i: n}, "skip": (i, ...)} an effect that reads and writes n cells
             of argument i and does not observe the arguments skipped
    {"grow": (i, ...)} an effect whose value is used and that extends the lists
             passed as arguments i
    {"sets": (f, ...)} an effect that assigns attributes of its receiver
    """
    def prim(ev, args, kw, st, fr, line):
        seen.add(name)
        if spec_kind == "draw":
            return ev.effect("draw", (const("u"),), st, line)
        if isinstance(spec_kind, dict) and "grow" in spec_kind:
            t = mk("pcall", name, ev.snapargs(args, st), ev.snapkw(kw, st))
            r = ev.effect("call", (t,), st, line)
            for i in spec_kind["grow"]:
                x = args[i]
                if x.op != "ref":
                    raise Unsupported("list argument of " + name)
                st.objs[x.a[0]] = ev.concat(st.objs[x.a[0]], mk("pcall", "%s.%d" % (name, i), t.a[1], t.a[2]))
            return r
        if isinstance(spec_kind, dict) and "sets" in spec_kind:
            t = mk("pcall", name, ev.snapargs(args, st), ev.snapkw(kw, st))
            r = ev.effect("call", (t,), st, line)
            x = args[0] if args else kw.get("self")
            for f in spec_kind["sets"]:
                st.heap[(x, f)] = mk("attr", r, f)
            return r
        if isinstance(spec_kind, dict):
            inout = spec_kind.get("inout", {})
            skip = spec_kind.get("skip", ())
            vals = []
            for i, x in enumerate(args):
                if i in inout:
                    vals.append(mk("tuple", tuple(ev.index(st.objs[x.a[0]], const(j), st) for j in range(inout[i]))))
                elif i not in skip:
                    vals.append(x)
            t = mk("pcall", name, ev.snapargs(vals, st), ev.snapkw(kw, st))
            ev.effect("call", (t,), st, line)
            for i, n in inout.items():
                for j in range(n):
                    ev.storeat(args[i], const(j), mk("pcall", "%s.%d" % (name, i), t.a[1] + (const(j),), ()), st, fr, None, line)
            return const(None)
        a = ev.snapargs(args, st)
        k = ev.snapkw(kw, st)
        if spec_kind == "call":
            ev.effect("call", (mk("pcall", name, a, k),), st, line)
            return const(None)
        if spec_kind == "effect":
            return ev.effect("call", (mk("pcall", name, a, k),), st, line)
        if spec_kind == "effect!":      # may fail
            v = ev.effect("call", (mk("pcall", name, a, k),), st, line)
            ev.may_raise(v, st, fr, line, always=True)
            return v
        if spec_kind == "pure":
            return mk("pcall", name, a, k)
        if isinstance(spec_kind, str) and spec_kind.startswith("fn:"):
            return mk("fn", spec_kind[3:], *a)
        if spec_kind[0] == "out":
            outs = {i for i, n in zip(spec_kind[1::2], spec_kind[2::2])}
            ins = tuple(x for i, x in enumerate(a) if i not in outs)
            t = mk("pcall", name, ins, k)
            for i, n in zip(spec_kind[1::2], spec_kind[2::2]):
                x = args[i]
                if x.op == "ref":
                    for j in range(n):
                        v = mk("pcall", "%s.%d" % (name, i), ins + (const(j),), ())
                        ev.storeat(x, const(j), v, st, fr, None, line)
                else:
                    raise Unsupported("output argument of " + name)
            return t
        raise AssertionError(spec_kind)
    return prim


def build(repo, fref, cls, sp, names, spec_mod, inline=False, helpers=None):
    """Summary of fref with parameters named after the specification's."""
    seen = set()
    inline = inline or ()
    prims = {n: make_prim(n, k, seen) for n, k in sp.abstract.items() if n not in inline or k == "draw"}
    ev = Ev(repo, opaque=tuple(n for n in sp.opaque if n not in inline), prims=prims)
    ev.symbols, ev.alloc = sp.symbols, sp.alloc
    ev.helpers = helpers or {}
    ev.shared = sp.shared
    a = fref.d.args
    cnames = [x.arg for x in a.posonlyargs + a.args]
    objs = {}

    def pre(ev, st):
        args, kw = [], {}
        for i, n in enumerate(names):
            p = sp.params.get(n)
            if i == 0 and cls is not None and n in ("self", "cls"):
                v = mk("class", ClassRef.of(cls)) if getattr(fref.d, "is_class", False) or n == "cls" \
                    else mk("sym", "self", ClassRef.of(cls))
            elif isinstance(p, str) and p.startswith("arr"):
                k = int(p[3:])
                v = ev.newobj(st, mk("list", tuple(mk("sym", "%s_%d" % (n, j)) for j in range(k))))
                objs[n] = v
            elif isinstance(p, str) and p.startswith("out"):
                v = ev.newobj(st, mk("list", tuple(mk("sym", "%s_%d" % (n, j)) for j in range(int(p[3:])))))
                objs[n] = v
            elif isinstance(p, str) and p.startswith("struct"):
                v = ev.newobj(st, mk("struct", p[7:]))
                objs[n] = v
                for f in p[7:].split(","):
                    if f:
                        st.heap[(v, f)] = mk("sym", n + "_" + f)
            elif p == "box":
                v = ev.newobj(st, mk("box", mk("sym", n)))
                objs[n] = v
            elif p == "list":
                v = ev.newobj(st, mk("concat", mk("sym", n), mk("list", ())))
                objs[n] = v
            elif isinstance(p, str) and p.startswith("obj:"):
                v = mk("sym", n, ClassRef.of(repo.cls(p[4:])))
            elif isinstance(p, (list, tuple)) and p and p[0] == "const":
                v = const(p[1])
            elif p == "none":
                v = const(None)
            elif isinstance(p, str) and p.startswith("new:"):
                v = mk("sym", n)
            else:
                v = mk("sym", n)
            kwonly = [x.arg for x in a.kwonlyargs]
            if fref.env is not None and n not in cnames and n not in kwonly and n in fref.env:
                fref.env[n] = v
            elif n in cnames or n in kwonly:
                kw[n] = v
            else:
                args.append((i, v))
        # parameters that were renamed keep their position
        out = {}
        for i, v in args:
            if i < len(cnames) and cnames[i] not in kw:
                kw[cnames[i]] = v
            elif a.vararg is not None or a.kwarg is not None:
                kw[names[i]] = v
            else:
                raise Unsupported("parameter %s is gone" % names[i])
        if sp.fn.args.kwarg is not None and a.kwarg is not None:
            kw["**"] = mk("sym", "**")
        return [], kw
    s = ev.summarise(fref, [], {}, cls=cls, pre=pre)
    s.params = objs
    s.seen = seen
    s.ev = ev
    s.roles = roles(s) if sp.alloc else {}
    return s


def roles(s):
    """Where the address of each array goes: the first place, in name order, among
    the arguments and structure fields it is passed as."""
    out = {}

    def find(t, path):
        if not isinstance(t, T):
            return
        if t.op == "alloc":
            out.setdefault(t.a[0], []).append(path)
        elif t.op == "dict":
            for k, v in t.a[0]:
                find(v, path + "." + str(k.a[0] if isinstance(k, T) else k))
        elif t.op == "structval":
            for k, v in t.a[-1]:
                find(v, path + "." + str(k))
        elif t.op == "phi":
            k = t.a[1] if isinstance(t.a[1], tuple) else ("v", t.a[1])
            if t.a[0].nxt.get(k) is t and k in t.a[0].init:
                find(t.a[0].init[k], path)
        elif t.op == "attr" and t.a[1] == "data":
            find(t.a[0], path)
        elif t.op == "bin":
            find(t.a[1], path), find(t.a[2], path)
        elif t.op == "pcall":
            for i, x in enumerate(t.a[1]):
                find(x, path + "/%s%d" % (t.a[0], i))

    def items(es):
        for e in es:
            if isinstance(e, Loop):
                items(e.effects)
            else:
                for i, p in enumerate(e.payload):
                    find(p, e.kind + str(i))
    items(s.effects)
    return {k: min(v) for k, v in out.items()}


CLIPS = {"numpy.clip", "numpy.minimum", "numpy.maximum", "numpy.fmin", "numpy.fmax"}
LIMITS = {"cmp", "slice", "min", "max", "range", "islice"}


def numbers_in(t):
    if isinstance(t, tuple):
        return {y for x in t for y in numbers_in(x)}
    if isinstance(t, T):
        if t.op == "call" and t.a[0].op == "ext" and t.a[0].a[0] in CLIPS:
            return numbers_in(t.a[1])
        return numbers_in(t.a) if t.op in LIMITS or t.op in ("const", "bin", "mcall", "fn", "tuple") else set()
    return {t} if type(t) in (int, float) and math.isfinite(t) else set()


STRINGS = {"startswith", "endswith", "strip", "lstrip", "rstrip", "removesuffix", "removeprefix", "replace", "split", "rsplit", "partition", "rpartition",
           "find", "rfind", "index", "count", "get", "pop", "setdefault", "__contains__"}


def text(t, n):
    """Strings compared with a value, cut from it, or looked up in it."""
    if isinstance(t, tuple):
        return [y for x in t for y in text(x, n)]
    if isinstance(t, T):
        if t.op == "const":
            return [t.a[0]] if isinstance(t.a[0], str) and 0 < len(t.a[0]) <= 24 else []
        if n and t.op in ("tuple", "list", "set"):
            return text(t.a[0], n - 1)
    return []


def vocabulary(s, nums=None, everything=False, strs=None, size=None):
    """Names of everything left uninterpreted in a summary (its numbers are added to the set nums)."""
    out = set()
    seen = set()

    def term(t):
        for x in walk(t, seen):
            if nums is not None and (x.op in ("const",) if everything else x.op in LIMITS or x.op == "bin" and x.a[0] in ("%", "//") or x.op in ("mcall", "fn") and x.a[0] in ("clip", "min", "max")
                                     or x.op == "call" and x.a[0].op == "ext" and x.a[0].a[0] in CLIPS):
                nums.update(numbers_in(x))
            if strs is not None and (x.op in ("cmp", "idx", "dget") or x.op == "mcall" and x.a[0] in STRINGS):
                strs.update(text(x.a[1:], 1))
            if x.op == "attr":
                out.add("attr:" + x.a[1])
            elif x.op == "mcall":
                out.add("mcall:" + x.a[0])
            elif x.op == "pcall":
                out.add("pcall:" + x.a[0])
            elif x.op in ("ext", "glob"):
                out.add("ext:" + x.a[0])
            elif x.op == "new":
                out.add("new:" + (x.a[0].name if isinstance(x.a[0], ClassRef) else x.a[0]))
            elif x.op == "bi":
                out.add("bi:" + x.a[0])
            elif x.op in ("mut", "mutval"):
                out.add("mut:" + x.a[0])
            elif x.op == "func":
                out.add("func:" + x.a[0].name)
            elif x.op == "lam":
                items(x.a[0].effects)
                if x.a[0].body is not None:
                    term(x.a[0].body)

    def items(es):
        for e in es:
            if isinstance(e, Loop):
                term(e.cond), term(e.guard), term(e.brk), term(e.alive)
                for d in (e.init, e.nxt, e.brkvals):
                    for v in d.values():
                        term(v)
                for k, g, v, vals in e.exits:
                    term(g), term(v)
                    for y in vals.values():
                        term(y)
                items(e.effects)
            else:
                term(e.guard)
                for p in e.payload:
                    term(p)
    term(s.ret)
    for g, e, _ in s.raises:
        term(g)
        if e.op == "new":
            out.add("exc:" + (e.a[0].name if isinstance(e.a[0], ClassRef) else str(e.a[0])))
        else:
            term(e)
    for (b, n), v in s.heap.items():
        term(b), term(v)
    for o in s.params.values():
        v = s.objs.get(o.a[0])
        if v is not None:
            term(v)
    items(s.effects)
    if size is not None:
        size.append(len(seen))
    return out


# ---------------------------------------------------------------- comparison

class Obs:
    """What a function does in one model."""
    def __init__(self):
        self.outcome = None
        self.trace, self.mem, self.heap, self.objs = [], {}, {}, {}
        self.truncated = False
        self.undef = None
        self.objundef = {}
        self.lines = {}
        self.hidden = False


IGNORED = {"print"}


def observe(model, s, sp):
    I = Interp(model, rounds=max(sp.rounds, (model.long or 0) + 4))
    I.roles = getattr(s, "roles", {})
    o = Obs()
    o.I = I
    try:
        I.perform(s.effects)
    except Unfinished:
        o.truncated = True
    except Undef as x:
        o.truncated, o.undef = True, str(x)
    for ch, args, e in I.trace:
        if ch in IGNORED and not sp.output or ch in sp.ignore or ch.startswith(("logger", "logging", "warnings")):
            continue
        if ch == "undef":
            continue
        if ch == "draw":
            if sp.draws == "ignore":
                continue
        if ch in ("mem", "setitem"):
            try:
                k = tuple(model.key(a) for a in args[:-1])
            except Undef:
                continue
            o.mem.setdefault((ch, k), []).append((args[-1], args[:-1]))
            o.lines[(ch, k)] = e
        elif ch == "setattr" and len(args) == 3:
            k = (model.key(args[0]), str(args[1]))
            o.heap[k] = (args[2], args[0])
            o.lines[k] = e
        else:
            o.trace.append((ch, args, e))
    if o.truncated:
        return o
    try:
        for g, exc, line in s.raises:
            if I.b(g):
                if exc.op == "new":
                    n = exc.a[0].name if isinstance(exc.a[0], ClassRef) else exc.a[0]
                else:
                    v = I.v(exc)
                    n = v.cls if isinstance(v, Opq) and v.cls else "?"
                    if n == "*glob":
                        n = v.sig[1]
                    if exc.op in ("exc",) or n == "*exc":
                        n = "*exc"
                o.outcome = ("raise", n)
                o.line = line
                break
        else:
            if not I.b(s.returns):
                o.truncated, o.undef = True, "no outcome"
                return o
            o.outcome = ("return", I.v(s.ret))
            o.line = None
    except Undef as x:
        o.undef = str(x)
        o.truncated = True
        return o
    if o.outcome[0] == "return" or sp.heap_on_raise:
        for (b, n), v in s.heap.items():
            try:
                bv = I.v(b)
                vv = I.v(v)
                o.heap[(model.key(bv), n)] = (vv, bv)
            except Undef as x:
                o.heap[("?", n, b.id)] = None
                o.objundef["." + n] = str(x)
                continue
        for n, r in s.params.items():
            if r.a[0] in s.objs:
                try:
                    o.objs[n] = I.v(s.objs[r.a[0]])
                except Undef as x:
                    o.objs[n] = None
                    o.objundef[n] = str(x)
            else:
                fs = {}
                for (b, f), v in s.final.heap.items():
                    if b is r:
                        try:
                            fs[f] = I.v(v)
                        except Undef as x:
                            fs[f] = None
                            o.objundef[n, f] = str(x)
                o.objs[n] = Rec(_st, fs)
    return o


class _St:
    name = "struct"


_st = _St()


class Diff:
    def __init__(self, what, detail, line=None, where=None):
        self.what, self.detail, self.line, self.where = what, detail, line, where


def compare(m, a, b, sp, vocab_ok):
    """First difference between code (a) and specification (b), or None."""
    n = min(len(a.trace), len(b.trace))
    ta, tb = a.trace, b.trace
    if sp.unordered:
        srt = lambda t: sorted(t, key=lambda x: repr((x[0], [m.key(y) for y in x[1]])))
        ta, tb = srt(ta), srt(tb)
        if a.truncated or b.truncated:
            n = 0
    for i in range(n):
        (ca, xa, ea), (cb, xb, eb) = ta[i], tb[i]
        if ca != cb:
            return Diff("effect:" + cb, "performs %s where %s is specified" % (ca, cb), ea.line, ea.where)
        if len(xa) != len(xb):
            return Diff("effect:" + cb, "different arguments", ea.line, ea.where)
        for j, (p, q) in enumerate(zip(xa, xb)):
            if not m.same(p, q):
                d = describe(m, p, q)
                return Diff("effect:%s[%d]%s" % (cb, j, d[1]), "%s: %s" % (cb, d[0]), ea.line, ea.where)
    if b.outcome == ("raise", "AnyError") and (a.outcome is None or a.outcome[0] == "raise" or a.objundef):
        return None             # any failure will do
    if a.truncated and not b.truncated and len(ta) > n or b.truncated and not a.truncated and len(tb) > n:
        if a.truncated and not b.truncated:
            e = ta[n][2]
            return Diff("effect:" + ta[n][0], "performs %s beyond what is specified" % ta[n][0], e.line, e.where)
        e = tb[n][2]
        return Diff("effect:" + tb[n][0], "never performs the specified %s" % tb[n][0], None, None)
    if a.truncated or b.truncated:
        return None
    if len(ta) > n:
        e = ta[n][2]
        return Diff("effect:" + ta[n][0], "performs %s beyond what is specified" % ta[n][0], e.line, e.where)
    if len(tb) > n:
        return Diff("effect:" + tb[n][0], "does not perform the specified %s" % tb[n][0])
    if a.outcome[0] != b.outcome[0]:
        return Diff("outcome", "%s where the specification %s" % (oc(a), oc(b)), a.line)
    if a.outcome[0] == "raise":
        if a.outcome[1] != b.outcome[1]:
            return Diff("exception", "%s where the specification %s" % (oc(a), oc(b)), a.line)
    elif "ret" not in sp.ignore and not m.same(a.outcome[1], b.outcome[1]):
        d = describe(m, a.outcome[1], b.outcome[1])
        return Diff("return" + d[1], "returns " + d[0])
    for k in list(b.mem) + [k for k in a.mem if k not in b.mem]:
        x, y = a.mem.get(k, []), b.mem.get(k, [])
        e = a.lines.get(k)
        if len(x) != len(y):
            return Diff("store", "stores %d times where %d is specified" % (len(x), len(y)), e.line if e else None, e.where if e else None)
        for (p, ad), (q, _) in zip(x, y):
            if not m.same(p, q):
                return Diff("store", "stores " + describe(m, p, q)[0], e.line if e else None, e.where if e else None)
    for n in b.objs:
        if n in a.objs and a.objs[n] is not None and b.objs[n] is not None and not m.same(a.objs[n], b.objs[n]):
            d = describe(m, a.objs[n], b.objs[n])
            return Diff("argument:" + n + d[1], "leaves %s: %s" % (n, d[0]))
    for k in list(b.heap) + [k for k in a.heap if k not in b.heap]:
        if k[0] == "?" or "attr:" + k[1] in sp.ignore:
            continue
        x, y = a.heap.get(k), b.heap.get(k)
        if k in a.heap and x is None or k in b.heap and y is None:
            if (x is None) != (y is None):
                a.hidden = True
            continue
        if y is None and not vocab_ok("attr:" + k[1]):
            continue
        try:
            obj = (x or y)[1]
            p = x[0] if x is not None else m.attr(obj, k[1])
            q = y[0] if y is not None else m.attr(obj, k[1])
        except Undef:
            continue
        if not m.same(p, q):
            if any(q2[0] == "?" and q2[1] == k[1] for q2 in list(a.heap) + list(b.heap)):
                continue
            e = a.lines.get(k)
            return Diff("attribute:" + k[1], "sets .%s to %s" % (k[1], describe(m, p, q)[0]), e.line if e else None, e.where if e else None)
    return None


def oc(o):
    return "raises " + str(o.outcome[1]) if o.outcome[0] == "raise" else "returns a value"


def short(v):
    s = repr(v)
    return s if len(s) < 90 else s[:87] + "..."


def describe(m, p, q, path=""):
    if type(p) is Rec and type(q) is Rec and p.cls is q.cls:
        for k in p.fields:
            if k not in q.fields or not m.same(p.fields[k], q.fields[k]):
                return describe(m, p.fields[k], q.fields.get(k), path + "." + k)
    if type(p) is With and type(q) is With and m.same(p.base, q.base):
        for k in list(p.fields) + list(q.fields):
            x = p.fields[k] if k in p.fields else m.attr(p.base, k)
            y = q.fields[k] if k in q.fields else m.attr(q.base, k)
            if not m.same(x, y):
                return describe(m, x, y, path + "." + k)
    if type(p) is Dict and type(q) is Dict and p.items.keys() == q.items.keys():
        for k in p.items:
            if not m.same(p.items[k][1], q.items[k][1]):
                return describe(m, p.items[k][1], q.items[k][1], path + "[%s]" % short(p.items[k][0]))
    if type(p) is tuple and type(q) is tuple and len(p) == len(q):
        for i, (x, y) in enumerate(zip(p, q)):
            if not m.same(x, y):
                return describe(m, x, y, path + "[%d]" % i)
    return ("%s is %s, specified %s" % (path.lstrip(".") or "value", short(p), short(q)), path)


class Result:
    def __init__(self, sp):
        self.spec, self.status, self.reason = sp, None, ""
        self.draws = 0
        self.diffs, self.trials, self.defined, self.functions = [], 0, 0, set()
        self.terms = 0
        self.gates = (0, 0)
        self.full = 0
        self.undefs = {}
        self.sites = ()
        self.where = self.line = None
        self.onesided = 0
        self.code_undefs = {}


def setup_sigs(repo, sp, code_lang):
    sg = Sigs(repo)
    for k, v in sp.domain.items():
        k2 = tuple(k.split(":", 1)) if ":" in k else k
        sg.domains[k2] = v
    if code_lang == "cy":
        m = repo.module(KERNEL)
        for sn, fields in m.structs.items():
            for f, (bt, kind) in fields.items():
                s = ("attr", f)
                if s in sg.domains or f in sg.domains:
                    continue
                if kind in ("ptr", "pointer"):
                    sg.domains[s] = "$ptr"
                    ms = ("mem", s)
                    sg.num.add(ms)
                    if "double" not in bt:
                        sg.ints.add(ms)
                elif "double" in bt:
                    sg.num.add(s)
                else:
                    sg.num.add(s)
                    sg.ints.add(s)
    for n in ("position", "direction", "normal", "location"):
        sg.vec.add(("attr", n))
    return sg


DEFINITE = {"undef": "uninitialised variable", "index": "index out of range", "empty": "empty sequence", "missing key": "missing key",
            "method of None": "method of None", "None index": "index of None",
            "attribute of None": "attribute of None", "number None": "arithmetic on None", "complex": "a complex number", "div": "division by zero", "int literal": "text that is no number", "/": "division by zero"}
DEFINITE.update({f: f + " outside its domain" for f in ("sqrt", "arcsin", "arccos", "asin", "acos", "log")})


def missing(a, b):
    """Why the code has no value in a model where the specification has one."""
    if b.outcome is None or b.outcome == ("raise", "AnyError"):
        return None             # (any failure will do)
    if a.outcome is None:
        return a.undef or ""
    ks = set(a.objundef) - set(b.objundef)
    return a.objundef[min(ks, key=str)] if ks else None


def scan(d):
    """Syntax below d, without the functions defined inside it."""
    todo = [d]
    while todo:
        x = todo.pop()
        yield x
        todo.extend(c for c in ast.iter_child_nodes(x) if not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)))


def idents(d):
    out = set()
    for x in scan(d):
        if isinstance(x, ast.Attribute):
            out.add(x.attr)
        elif isinstance(x, ast.Name):
            out.add(x.id)
        elif isinstance(x, ast.Constant) and isinstance(x.value, (str, float)):
            out.add(x.value)
        elif isinstance(x, ast.keyword):
            out.add(x.arg)
    return out


def vanished(repo, code, fref, name):
    """The code neither calls the named helper nor contains what it does."""
    defs = []
    for m in repo.py_modules():
        for f in m.functions.values():
            if f.name == name:
                defs.append(f)
        for c in m.classes.values():
            if name in c.methods:
                defs.append(c.methods[name])
    if name in fref.module.functions:
        defs.append(fref.module.functions[name])
    beside = {n: x.a[0].d for n, x in (fref.env or {}).items() if x.op == "func"}
    beside.update((x.name, x) for s in fref.d.body for x in defs_in(s))
    if name in beside:
        defs.append(beside[name])
    if not defs:
        return False
    own = idents(fref.d)
    have = set(own)
    for rel, q in code.ev.functions:
        if rel.startswith("pvtrace") and q.split(".")[-1] != name:
            f, _ = locate(repo, rel + ":" + q)
            f = f.d if f is not None else beside.get(q)
            if f is not None:
                have |= idents(f)
    for d in defs:
        # local names are not evidence: only what the helper reaches outside itself
        local = {x.id for x in scan(d) if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)} | \
            {a.arg for a in d.args.args}
        mine = idents(d) - local - {"self", "np", "len", "range", "float", "int", "isinstance", "math"}
        if len(mine & have) > 0.5 * len(mine):
            return False
    return True


def thin(cov, returns, i, n):
    """Have the models so far left some condition of the specification, or its normal
    outcome, nearly unseen?"""
    if returns < n * 0.5:
        return True
    for f, t, _ in cov.values():
        k = min(f, t)
        if k < 4 and (k > 0 or i < 2 * n):
            return True
    return False


def defaults(fref, sfref):
    """(parameter, the code's default, the specified default), where both are constants."""
    def table(f):
        a = f.d.args
        pos = a.posonlyargs + a.args
        t = dict(zip([x.arg for x in pos[len(pos) - len(a.defaults):]], a.defaults))
        t.update({x.arg: v for x, v in zip(a.kwonlyargs, a.kw_defaults) if v is not None})
        return t, [x.arg for x in pos + a.kwonlyargs]

    (tc, nc), (ts, _) = table(fref), table(sfref)
    for n, e in ts.items():
        if n not in nc:
            continue
        try:
            y = ast.literal_eval(e)
        except ValueError:
            continue
        if n not in tc:
            yield n, Ellipsis, y
            continue
        x = tc[n]
        for _ in range(4):
            if isinstance(x, ast.Name):
                g = [s.value for s in fref.module.tree.body if isinstance(s, ast.Assign) and len(s.targets) == 1
                     and isinstance(s.targets[0], ast.Name) and s.targets[0].id == x.id]
                if len(g) == 1:
                    x = g[0]
        try:
            yield n, ast.literal_eval(x), y
        except (ValueError, TypeError):
            continue


def run_spec(repo, sp, vocab=frozenset(), inline=False, trials=None, seed=1, gates=False, expected_undefs=0, drawmap=None):
    res = Result(sp)
    fref, cls = locate(repo, sp.code)
    if fref is None:
        res.status, res.reason = "undecided", "construct not found"
        return res
    sfref = FuncRef.of(sp.fn, sp.module)
    names = [x.arg for x in sp.fn.args.args + sp.fn.args.kwonlyargs]
    try:
        code = build(repo, fref, cls, sp, names, sp.module, inline)
    except (Unsupported, AnalysisError, RecursionError) as x:
        res.status, res.reason = "undecided", "%s: %s" % (type(x).__name__, x)
        return res
    sc = cls
    try:
        helpers = {n: x.a[0] for n, x in (fref.env or {}).items() if x.op == "func"}
        env = {n: mk("sym", n) for n in names}
        for s in fref.d.body:
            for x in defs_in(s):
                helpers[x.name] = FuncRef(x, fref.module, None, env, fref.d)
                env[x.name] = mk("func", helpers[x.name])
        want = build(repo, sfref, sc, sp, names, sp.module, inline, helpers)
    except (Unsupported, AnalysisError, RecursionError) as x:
        res.status, res.reason = "undecided", "specification: %s: %s" % (type(x).__name__, x)
        return res
    res.functions = code.ev.functions
    res.sites = code.ev.sites
    res.code, res.want = code, want
    sg = setup_sigs(repo, sp, fref.module.lang)
    if fref.module.lang == "cy":
        ci = fref.d.cinfo
        for i, n in enumerate(names):
            if n in ci.types and n not in sg.domains and ("sym", n) not in sg.domains:
                bt, kind = ci.types[n]
                p = sp.params.get(n, "")
                for key in [("sym", n)] + [("sym", "%s_%d" % (n, j)) for j in range(16)]:
                    if kind in ("ptr", "pointer") and not p:
                        sg.domains[key] = "$ptr" if bt not in fref.module.structs else "$opq"
                    elif "double" in bt:
                        sg.num.add(key)
                    else:
                        sg.num.add(key)
                        sg.ints.add(key)
    for n, x, y in defaults(fref, sfref):
        if not (x is not Ellipsis and type(x) in (bool, type(None), str, type(y)) and x == y or
                type(x) in (int, float) and type(y) in (int, float) and x == y):
            res.diffs.append(Diff("default:" + n, "parameter %s defaults to %r, specified %r" % (n, x, y), fref.d.lineno, sp.code))
    if res.diffs:
        res.status = "violated"
        return res
    cnums, wnums, cstrs, wstrs = set(), set(), set(), set()
    vocabulary(code, cnums, strs=cstrs)
    size = []
    known = vocab | vocabulary(want, wnums, strs=wstrs, size=size)
    words = tuple(sorted(x for x in cstrs - wstrs if "str:" + x not in vocab))      # strings only the code has
    wnums |= {-x for x in wnums} | {x + 1 for x in wnums} | {x - 1 for x in wnums}
    novel = tuple(sorted(x for x in cnums if x not in wnums and x not in (0, 1, -1, 2) and "num:%r" % float(x) not in vocab))     # numbers only the code has
    longs = [int(x) for x in novel if x == int(x) and sp.maxlen < x <= 1100]
    vocab_ok = lambda n: n in known
    N = trials or sp.trials
    few = N < 300
    N *= 3 if size[0] < 60 else 1     # small ones cost little
    N1 = N + (440 if longs else 400 if novel else 200 if words else 0)
    started = time.time()
    i = done = first = dubious = 0
    bad = []
    uninterpreted = None
    gstat = {} if gates else None
    cov, returns = {}, 0
    res.cov = cov
    while i < N or i < N1 and not (i >= N + 100 and time.time() - started > 30) or (bad and len(bad) < 2 and i < 12 * N and i < first + 6000) or (not bad and few and i < 6 * N and thin(cov, returns, i, N)):
        i += 1
        for attempt in range(12):
            sg.changed = False
            mode = sp.modes[i % len(sp.modes)] if sp.modes else None
            m = Model(sg, seed * 1000003 + i, mode)
            m.maxlen = sp.maxlen
            if N <= i and words and (i < N1 or first > N):
                m.words = words
            if N <= i and novel and (i < N1 or first > N):
                m.novel = novel
                m.long = longs[i % len(longs)] if longs and (i < N + 40 or (i - N) % (2 if longs[0] <= 32 else 10) == 1) else None
            try:
                ri.DRAWMAP = drawmap
                a = observe(m, code, sp)
                ri.DRAWMAP, ri.GATES = None, cov
                b = observe(m, want, sp)
                ri.GATES = None
            except NotImplementedError as x:
                res.status, res.reason = "undecided", "operation %s not interpreted" % x
                return res
            if not sg.changed:
                break
        res.trials += 1
        res.draws = max(res.draws, a.I.counts.get("draw", 0))
        if (m.novel or m.words) and (a.outcome is None or b.outcome is None):
            res.trials -= 1
        if a.outcome is not None and b.outcome is not None:
            res.defined += 1
            returns += b.outcome[0] == "return"
        for o in (a, b):
            if o.undef:
                res.undefs[o.undef] = res.undefs.get(o.undef, 0) + 1
        if sp.modes is None and not (a.truncated and b.truncated):
            res.full += 1
        u = missing(a, b)
        if u is not None:
            res.onesided += not (m.novel or m.words)
            if u in DEFINITE:
                m2 = Model(sg, seed * 1000003 + i, mode, grid=0.29)
                m2.maxlen, m2.novel, m2.long, m2.words = sp.maxlen, m.novel, m.long, m.words
                u = missing(observe(m2, code, sp), observe(m2, want, sp))
                if u in DEFINITE:
                    res.code_undefs[u] = res.code_undefs.get(u, 0) + 1
        d = compare(m, a, b, sp, vocab_ok)
        if d is not None:
            # rounding can look like a difference: look again on another grid
            m2 = Model(sg, seed * 1000003 + i, mode, grid=0.29)
            m2.maxlen, m2.novel, m2.long, m2.words = sp.maxlen, m.novel, m.long, m.words
            ri.DRAWMAP = drawmap
            a2 = observe(m2, code, sp)
            ri.DRAWMAP = None
            b2 = observe(m2, want, sp)
            d2 = compare(m2, a2, b2, sp, vocab_ok)
            if d2 is not None:
                if uninterpreted is None:
                    uninterpreted = {x for x in vocabulary(code) - known if not interpreted(x) and not any(x in k and known & k for k in FAMILIES)}
                # what the specification knows nothing about makes no difference where it is not used
                u = {x for x in uninterpreted if x.split(":")[0] not in TOUCHABLE or x in m.touched or x in m2.touched}
                if u:
                    dubious += 1
                    if os.environ.get("PVSA_DUB"):
                        print("DUB", d2.what, d2.detail[:300], u)
                    if dubious >= 12 and not bad:
                        res.status, res.reason = "undecided", "unknown symbols " + ", ".join(sorted(u)[:6])
                        return res
                    continue
                bad.append(d2)
                first = first or i
                if len(bad) >= 4:
                    break
    res.returns = returns
    if not bad and dubious:
        res.status, res.reason = "undecided", "unknown symbols " + ", ".join(sorted(uninterpreted)[:6])
        return res
    if not bad:
        k = max(res.code_undefs, key=lambda k: res.code_undefs[k] - 2 * expected(expected_undefs, k) * res.trials, default=None)
        if k in DEFINITE and res.code_undefs[k] >= 2 + 2 * expected(expected_undefs, k) * res.trials \
                and all(x in known or interpreted(x) for x in vocabulary(code)):
            bad = [Diff("error", "fails (%s) where the specification has an outcome" % DEFINITE[k])] * 2
        elif res.defined < 5:
            res.status, res.reason = "undecided", "defined in %d of %d models" % (res.defined, res.trials)
            return res
        else:
            res.status = "proved"
            return res
    res.diffs = bad
    res.returns = returns
    want_rate = returns / max(1, res.trials)
    if len(bad) < 2:
        res.status, res.reason = "undecided", "one isolated disagreement"
        return res
    if sp.opaque or sp.abstract:
        # callees the specification keeps uninterpreted and the code no longer calls: perhaps their bodies were moved
        # into the caller, so compare with those expanded on both sides
        done = frozenset(inline or ())
        ca, cb = pcalls(code) | code.seen, pcalls(want) | want.seen
        gone = {x for x in cb - ca if not vanished(repo, code, fref, x)}
        more = {n for n in list(sp.opaque) + list(sp.abstract) if n.split(".")[-1] in gone and n not in repo.class_index} - done
        if more:
            r2 = run_spec(repo, sp, vocab, done | more, trials, seed, False, expected_undefs, drawmap)
            if r2.status == "proved" and r2.returns / r2.trials < 0.5 * want_rate:
                r2.status, r2.reason = "undecided", "too few models have an outcome"
            r2.reason = (r2.reason + " (expanded)").strip()
            return r2
    res.status = "violated"
    if drawmap is None and 2 <= res.draws <= 4:
        # independent random numbers may be drawn in any order
        for p in itertools.permutations(range(res.draws)):
            if p != tuple(range(res.draws)):
                r2 = run_spec(repo, sp, vocab, inline, trials, seed, gates, expected_undefs, p)
                if r2.status == "proved":
                    r2.reason = "random numbers drawn in another order"
                    return r2
    return res


def expected(e, k):
    """Rate of failures of kind k on the tree the baseline was made from."""
    if isinstance(e, dict):
        return e.get(k, 0)
    return 1 if e else 0


def pcalls(s):
    return {x[6:].split(".")[0] for x in vocabulary(s) if x.startswith("pcall:")}


STRUCTURAL = {"attr:is_root", "attr:is_leaf", "attr:size", "attr:shape", "attr:T", "attr:ndim", "attr:real", "bi:float", "bi:int", "bi:str", "bi:bool"}


TOUCHABLE = {"mcall", "ext", "bi", "attr"}


# what the process finds around it: equal to nothing a specification speaks of
AMBIENT = {"ext:pathlib.Path.cwd", "ext:pathlib.Path.home", "ext:os.getcwd", "ext:os.getpid", "ext:tempfile.gettempdir", "ext:time.time",
           "ext:time.perf_counter", "ext:time.monotonic", "ext:uuid.uuid4", "ext:os.environ", "ext:os.getenv", "ext:os.cpu_count",
           "ext:os.path.islink", "ext:os.path.ismount", "ext:os.path.getsize", "ext:os.path.getmtime", "ext:os.path.getctime", "ext:os.access", "ext:os.path.samefile",
           "ext:multiprocessing.cpu_count", "ext:platform.system", "ext:platform.machine", "ext:sys.platform", "ext:sys.version_info", "ext:os.getuid", "ext:threading.active_count",
           "mcall:is_symlink", "mcall:is_mount",
           # and the summaries a mesh gives of itself
           "attr:centroid", "attr:center_mass", "attr:extents", "attr:bounds", "attr:area", "attr:volume", "attr:scale", "attr:convex_hull", "attr:bounding_box", "attr:bounding_sphere", "attr:bounding_primitive",
           # and the name of a class
           "attr:__name__", "attr:__qualname__", "attr:__class__", "bi:type"}


# ways of reducing an array along an axis: where the specification uses one, another is not the same
REDUCTIONS = {"mcall:" + x for x in "sum max min mean median std var prod any all argmax argmin cumsum cumprod ptp".split()}
# and of selecting rows of a table
SELECTIONS = {"mcall:" + x for x in "isin isna notna isnull notnull between duplicated".split()}
# which end of a queue
ENDS = {x + y for x in ("mut:", "mcall:") for y in ("pop", "popleft", "append", "appendleft")}
FAMILIES = (REDUCTIONS, SELECTIONS, ENDS)


def interpreted(n):
    """A symbol whose meaning the interpreter knows."""
    if n in AMBIENT or n in STRUCTURAL or n in ("mcall:join", "mcall:format"):
        return True
    k, _, x = n.partition(":")
    return k in ("ext", "bi") and hasattr(Interp, "x_" + x.replace(".", "_"))
