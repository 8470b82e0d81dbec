"""Where random numbers come from, and containers handed out and then changed."""
import ast
from pvsa.rules import bad, ok, rule, unsure

TRACING = ("algorithm/", "light/", "material/", "scene/", "engine/", "device/", "geometry/")
OTHER = {"default_rng", "RandomState", "Generator", "SeedSequence", "PCG64", "MT19937", "Philox", "SFC64"}
LIBC = {"rand", "srand", "random", "drand48", "srand48", "rand_r", "lrand48"}


def dotted(m, n):
    """Full name of an attribute chain through the module's imports."""
    parts = []
    while isinstance(n, ast.Attribute):
        parts.append(n.attr)
        n = n.value
    if not isinstance(n, ast.Name):
        return ""
    mod, name = m.imports.get(n.id, (n.id, None))
    base = mod + ("." + name if name else "")
    return ".".join([base] + parts[::-1])


@rule("P04 P14 P19 P20 P21 P37", "one source of random numbers", "the tracers, lights and samplers draw from numpy's global generator only (the one every worker seeds); the kernel from its own per-ray stream; nothing seeds either with a constant")
def one_source(repo):
    for m in repo.py_modules():
        if not any(("pvtrace/" + t) in m.rel for t in TRACING):
            continue
        n = 0
        local = {s.name for s in ast.walk(m.tree) if isinstance(s, (ast.FunctionDef, ast.ClassDef))}
        for x in ast.walk(m.tree):
            if not isinstance(x, ast.Call):
                continue
            d = dotted(m, x.func)
            last = d.rsplit(".", 1)[-1]
            if d.startswith(("random.", "secrets.")) or d in ("os.urandom", "numpy.random.default_rng") or d.startswith("numpy.random.") and last in OTHER:
                n += 1
                yield bad("%s %s" % (m.rel, d), m.rel, x.lineno, "draws from `%s`, which the workers do not seed and a given seed does not determine" % d)
            elif d in ("numpy.random.seed", "random.seed"):
                if x.args and isinstance(x.args[0], ast.Constant) and x.args[0].value is not None:
                    n += 1
                    yield bad("%s %s" % (m.rel, d), m.rel, x.lineno, "seeds the generator with the constant %s" % ast.unparse(x.args[0]))
            elif m.lang != "py" and isinstance(x.func, ast.Name) and x.func.id in LIBC and x.func.id not in local:
                n += 1
                yield bad("%s %s" % (m.rel, x.func.id), m.rel, x.lineno, "the kernel draws from the C library's shared generator")
        if not n:
            yield ok(m.rel, m.rel)


CHANGES = {"append", "extend", "insert", "clear", "pop", "remove", "sort", "reverse", "update", "setdefault", "add", "discard", "popitem", "popleft", "appendleft"}


def changed_names(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in CHANGES and isinstance(n.func.value, ast.Name):
                out.add(n.func.value.id)
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, ast.AugAssign) else []
            for t in ts:
                if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Name):
                    out.add(t.value.id)
    return out


def rebound(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                out.add(n.id)
    return out


def handed(e):
    """Names handed out as they are (not copied) by a yielded expression."""
    if isinstance(e, ast.Name):
        return {e.id}
    if isinstance(e, (ast.Tuple, ast.List)):
        return {x for y in e.elts for x in handed(y)}
    if isinstance(e, ast.Dict):
        return {x for y in e.values for x in handed(y)}
    return set()


@rule("P01 P17 P18 P21 P34", "nothing yielded is changed afterwards", "a generator does not change a list or table it has already handed out: every value it yields is a new object")
def yielded(repo):
    for m in repo.py_modules():
        for f in [x for x in ast.walk(m.tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            ys = [n for n in ast.walk(f) if isinstance(n, ast.Yield) and n.value is not None]
            if not ys:
                continue
            hits = 0
            for loop in [n for n in ast.walk(f) if isinstance(n, (ast.For, ast.AsyncFor, ast.While))]:
                inside = {id(n) for s in loop.body for n in ast.walk(s)}
                fresh = rebound(loop.body) | (rebound([loop.target]) if not isinstance(loop, ast.While) else set())
                for y in ys:
                    if id(y) not in inside:
                        continue
                    for x in handed(y.value) & changed_names(loop.body) - fresh:
                        if any(isinstance(n, ast.Assign) and any(isinstance(t, ast.Name) and t.id == x for t in n.targets)
                               and (isinstance(n.value, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp)) or isinstance(n.value, ast.Call) and ast.unparse(n.value.func) in ("list", "dict", "set"))
                               for n in ast.walk(f)):
                            hits += 1
                            yield bad("%s yields %s" % (f.name, x), m.rel, y.lineno, "`%s` is yielded and changed again in the next round: every value handed out is the same object" % x)
            if not hits:
                yield ok("%s (%d yields)" % (f.name, len(ys)), m.rel, f.lineno)
