"""Buffers whose address is handed to native code."""
import ast

from pvsa.rules import bad, ok, rule, unsure
from pvsa.rules._const import KERNEL

SAME = {"double": {"float64_t", "double"}, "int": {"int32_t", "int", "int_t32"}, "long long": {"int64_t", "longlong"}, "long long int": {"int64_t"},
        "unsigned char": {"uint8_t", "uchar"}, "long": {"int64_t", "long"}, "long int": {"int64_t"}, "float": {"float32_t", "float"},
        "unsigned long long": {"uint64_t"}}
FRESH = {"ascontiguousarray", "zeros", "full", "empty", "ones", "copy", "require", "zeros_like", "empty_like"}


def norm(t):
    return " ".join(x for x in t.replace("*", "").split() if x != "int" or t.replace("*", "").split() == ["int"])


@rule("P12 P13", "buffer element types", "every address of an array's data is cast to a pointer to that array's element type, taken from a contiguous array held in a local variable for the whole call")
def casts(repo):
    m = repo.module(KERNEL)
    for f in m.functions.values():
        stores = {}
        for s in ast.walk(f):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                stores.setdefault(s.targets[0].id, []).append(s)
        for c in ast.walk(f):
            if not (isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "__cast__"):
                continue
            t, e = c.args[0].value, c.args[1]
            if not (isinstance(e, ast.Attribute) and e.attr == "data" and t.endswith("*")):
                continue
            what = "<%s>%s" % (t, ast.unparse(e))
            if isinstance(e.value, ast.Call):
                yield bad(what, f.name, c.lineno, "the array is a temporary: it is freed while native code still uses its data")
                continue
            if not isinstance(e.value, ast.Name) or e.value.id not in f.cinfo.elems:
                yield unsure(what, f.name, c.lineno, "element type not declared")
                continue
            b = e.value.id
            el = f.cinfo.elems[b]
            if norm(t) in SAME and el is not None and el not in SAME[norm(t)]:
                yield bad(what, f.name, c.lineno, "%s holds %s" % (b, el))
                continue
            if el is None or norm(t) not in SAME:
                yield unsure(what, f.name, c.lineno, "element type %s" % el)
                continue
            ss = stores.get(b, [])
            if any(s.lineno > c.lineno for s in ss):
                yield bad(what, f.name, c.lineno, "%s is rebound after its address was taken" % b)
                continue
            v = ss[-1].value if ss else None
            for _ in range(3):
                if isinstance(v, ast.Name) and len(stores.get(v.id, [])) == 1:
                    v = stores[v.id][0].value
            n = v.func if isinstance(v, ast.Call) else None
            n = n.attr if isinstance(n, ast.Attribute) else n.id if isinstance(n, ast.Name) else None
            if n in FRESH:
                yield ok(what, f.name, c.lineno)
            elif v is None or isinstance(v, (ast.Attribute, ast.Name, ast.Subscript)) or n in ("asarray", "array", "asanyarray"):
                # numpy.array copies in C order only when asked; attributes may be strided views
                yield (unsure if n == "array" else bad)(what, f.name, c.lineno, "%s may be a strided view: native code assumes contiguous rows" % b)
            else:
                yield unsure(what, f.name, c.lineno, "contiguity of %s" % b)


@rule("P12 P13", "table pointer types", "every pointer stored in a kernel table has the element type the table's field declares")
def fields(repo):
    m = repo.module(KERNEL)
    for f in m.functions.values():
        for s in ast.walk(f):
            if not (isinstance(s, ast.Assign) and isinstance(s.targets[0], ast.Attribute) and isinstance(s.value, ast.Call)
                    and isinstance(s.value.func, ast.Name) and s.value.func.id == "__cast__"):
                continue
            t = s.targets[0]
            if not isinstance(t.value, ast.Name):
                continue
            st = f.cinfo.types.get(t.value.id, (None,))[0]
            if st not in m.structs or t.attr not in m.structs[st]:
                continue
            bt, kind = m.structs[st][t.attr]
            c = s.value.args[0].value
            if c.endswith("*") != (kind == "ptr") or c.endswith("*") and norm(c) != norm(bt):
                yield bad(ast.unparse(t), f.name, s.lineno, "field is %s%s, stored as %s" % (bt, "*" if kind == "ptr" else "", c))
            else:
                yield ok(ast.unparse(t), f.name, s.lineno)


DTYPES = {}
for _k, _v in {"int32": "int32 intc i4 <i4 int32_t", "float64": "float64 double float float_ f8 <f8 d float64_t", "int64": "int64 int int_ i8 <i8 intp long longlong int64_t",
               "uint8": "uint8 u1 ubyte bool bool_ uint8_t", "float32": "float32 single f4 f float32_t", "float16": "float16 half f2", "int16": "int16 short i2 int16_t",
               "int8": "int8 i1 byte", "uint16": "uint16 u2", "uint32": "uint32 u4 uintc", "uint64": "uint64 u8 uint64_t"}.items():
    for _n in _v.split():
        DTYPES[_n] = _k
HOLDS = {"float64": {"float64", "int32", "int16", "int8", "uint8", "uint16", "uint32", "float32", "float16"}, "int32": {"int32", "int16", "int8", "uint8", "uint16"},
         "int64": {"int64", "int32", "int16", "int8", "uint8", "uint16", "uint32"}}


def dtype(e):
    """Canonical element type named by an expression."""
    if isinstance(e, ast.Attribute):
        return DTYPES.get(e.attr)
    if isinstance(e, ast.Name):
        return DTYPES.get(e.id)
    if isinstance(e, ast.Constant) and isinstance(e.value, str):
        return DTYPES.get(e.value)
    return None


def element(e, fn, seen=()):
    """(element types an array expression can have or None where unknown, element types its values pass through)"""
    if isinstance(e, ast.IfExp):
        a, b = element(e.body, fn, seen), element(e.orelse, fn, seen)
        return a[0] | b[0], a[1] | b[1]
    if isinstance(e, ast.Subscript):
        return element(e.value, fn, seen)
    if isinstance(e, ast.Name) and e.id not in seen:
        vs = [s.value for s in ast.walk(fn) if isinstance(s, ast.Assign) and any(isinstance(t, ast.Name) and t.id == e.id for t in s.targets)]
        if vs:
            r = [element(v, fn, seen + (e.id,)) for v in vs]
            return frozenset().union(*[x[0] for x in r]), frozenset().union(*[x[1] for x in r])
    if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
        n = e.func.attr
        kw = {k.arg: k.value for k in e.keywords}
        if n == "astype" and (e.args or "dtype" in kw):
            t = dtype(e.args[0] if e.args else kw["dtype"])
            i = element(e.func.value, fn, seen)
            return frozenset([t]), i[1] | {t}
        if n in ("copy", "ravel", "flatten", "reshape") and not (isinstance(e.func.value, ast.Name) and e.func.value.id in ("np", "numpy")):
            return element(e.func.value, fn, seen)
        if n in ("zeros", "ones", "empty", "full", "array", "asarray", "ascontiguousarray", "copy"):
            pos = {"full": 2}.get(n, 1)
            d = kw.get("dtype", e.args[pos] if len(e.args) > pos and n != "copy" else None)
            inner = element(e.args[0], fn, seen) if n in ("array", "asarray", "ascontiguousarray", "copy") and e.args else (frozenset([None]), frozenset())
            if d is not None:
                return frozenset([dtype(d)]), inner[1] | {dtype(d)}
            if n in ("zeros", "ones", "empty"):
                return frozenset(["float64"]), frozenset()
            return inner
    return frozenset([None]), frozenset()


@rule("P12 P13", "table element types", "every table the compiler fills has the element type the kernel reads it with, and its values pass through no narrower type on the way")
def tables(repo):
    k = repo.module(KERNEL)
    reads = {}
    for f in k.functions.values():
        for s in ast.walk(f):
            if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name) and isinstance(s.value, ast.Call) \
                    and len(s.value.args) == 1 and isinstance(s.value.args[0], ast.Attribute) and isinstance(s.value.args[0].value, ast.Name):
                el = f.cinfo.elems.get(s.targets[0].id)
                if el in DTYPES:
                    reads[s.value.args[0].attr] = DTYPES[el], s.value.keywords
    m = repo.module("pvtrace/engine/compiler.py")
    for c in m.classes.values():
        for f in ast.walk(c):
            if not isinstance(f, ast.FunctionDef):
                continue
            for s in ast.walk(f):
                if not (isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Attribute)
                        and isinstance(s.targets[0].value, ast.Name) and s.targets[0].value.id == "self" and s.targets[0].attr in reads):
                    continue
                want, kws = reads[s.targets[0].attr]
                got, via = element(s.value, f)
                what = "self." + s.targets[0].attr
                lossy = sorted(x for x in via if x is not None and want in HOLDS and x not in ("float64",) and x != want and want not in HOLDS.get(x, ()))
                if lossy:
                    yield bad(what, f.name, s.lineno, "values read as %s pass through %s" % (want, lossy[0]))
                elif None in got:
                    yield unsure(what, f.name, s.lineno, "element type not found")
                elif got != {want} and not any(x.arg == "dtype" for x in kws):
                    yield bad(what, f.name, s.lineno, "table of %s is read as %s" % (", ".join(sorted(got)), want))
                else:
                    yield ok(what, f.name, s.lineno)


def root(e):
    while isinstance(e, ast.Subscript):
        e = e.value
    return ast.unparse(e) if isinstance(e, (ast.Name, ast.Attribute)) else None


@rule("P15 P34", "totals hold what is added", "every running total kept in an array has an element type that holds the sums added to it: 64 bits wide, and floating point where the added values are")
def totals(repo):
    k = repo.module(KERNEL)
    rec = {}
    for f in k.functions.values():
        for d in ast.walk(f):
            if isinstance(d, ast.Dict):
                for key, v in zip(d.keys, d.values):
                    if isinstance(key, ast.Constant) and isinstance(key.value, str) and key.value.startswith("rec_"):
                        names = {x.id for x in ast.walk(v) if isinstance(x, ast.Name)}
                        el = {DTYPES.get(f.cinfo.elems.get(n)) for n in names if n in f.cinfo.elems}
                        if len(el) == 1:
                            rec[key.value] = el.pop()
    for path in ("pvtrace/studio/server.py", "pvtrace/engine/tally.py"):
        m = repo.module(path)
        for scope in list(m.classes.values()) + [f for f in m.tree.body if isinstance(f, (ast.FunctionDef, ast.AsyncFunctionDef))]:
            made = {}
            for s in ast.walk(scope):
                if isinstance(s, ast.Assign) and len(s.targets) == 1:
                    made.setdefault(root(s.targets[0]), []).append(s.value)
            for s in ast.walk(scope):
                if not (isinstance(s, ast.AugAssign) and isinstance(s.op, ast.Add)):
                    continue
                n = root(s.target)
                for v in made.get(n, ()):
                    if not (isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("zeros", "empty", "zeros_like", "full")):
                        continue
                    el = element(v, scope)[0]
                    if None in el or len(el) != 1:
                        yield unsure(n, scope.name, s.lineno, "element type not found")
                        continue
                    el = next(iter(el))
                    keys = [x.value for x in ast.walk(s.value) if isinstance(x, ast.Constant) and x.value in rec]
                    whole = isinstance(s.value, ast.Constant) and isinstance(s.value.value, int)
                    need = {rec[x] for x in keys} or ({"int64"} if whole else {"float64"} if path.endswith("tally.py") else set())
                    if el not in ("int64", "float64") or need == {"float64"} and el != "float64":
                        yield bad(n, scope.name, v.lineno, "%s total of %s values" % (el, "/".join(sorted(need)) or "64-bit"))
                    else:
                        yield ok(n, scope.name, v.lineno)
            for c in ast.walk(scope):
                if path.endswith("tally.py") and isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and c.func.attr == "append" and c.args \
                        and isinstance(c.args[0], ast.Call) and isinstance(c.args[0].func, ast.Attribute) and c.args[0].func.attr in ("zeros", "empty"):
                    el = element(c.args[0], scope)[0]
                    if None in el:
                        yield unsure(ast.unparse(c.func.value), scope.name, c.lineno, "element type not found")
                    elif not el <= {"int64", "float64"}:
                        yield bad(ast.unparse(c.func.value), scope.name, c.lineno, "%s counts" % "/".join(sorted(el)))
                    else:
                        yield ok(ast.unparse(c.func.value), scope.name, c.lineno)


NARROW = {"float16", "float32", "half", "single", "int8", "int16", "uint8", "uint16", "byte", "ubyte", "short", "ushort", "csingle", "complex64",
          "f2", "f4", "i1", "i2", "u1", "u2", "<f4", "<f2", "<i2", "e", "f", "h", "b", "B", "H"}


@rule("P12 P13 P15 P19", "no narrow numbers", "nothing on the way to or from the kernel is held in numbers narrower than the tables: no half or single precision, no 8- or 16-bit integers")
def narrow(repo):
    for path in ("pvtrace/engine/compiler.py", "pvtrace/engine/emit.py", "pvtrace/engine/api.py", "pvtrace/engine/tally.py", "pvtrace/engine/recorder.py",
                 "pvtrace/material/distribution.py"):
        m = repo.module(path)
        found = False
        for x in ast.walk(m.tree):
            n = x.attr if isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id in ("np", "numpy") else None
            if isinstance(x, ast.keyword) and x.arg == "dtype" and isinstance(x.value, ast.Constant):
                n = x.value.value
            if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute) and x.func.attr in ("astype", "view", "dtype") and x.args and isinstance(x.args[0], ast.Constant):
                n = x.args[0].value
            if n in NARROW:
                found = True
                yield bad(path, path, x.lineno if hasattr(x, "lineno") else 0, "%s is narrower than the tables" % n)
        if not found:
            yield ok(path, path, 1)
