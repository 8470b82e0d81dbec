"""Constant expressions of the sources, folded."""
import ast
import operator
import sys

from pvsa.load import AnalysisError

KERNEL = "pvtrace/engine/_kernel.pyx"
OPS = {ast.Add: operator.add, ast.Sub: operator.sub, ast.Mult: operator.mul, ast.Div: operator.truediv,
       ast.FloorDiv: operator.floordiv, ast.Pow: operator.pow, ast.LShift: operator.lshift, ast.Mod: operator.mod}
EXT = {"numpy.pi": 3.141592653589793, "math.pi": 3.141592653589793, "numpy.inf": float("inf"), "math.inf": float("inf")}


class EnumMember:
    def __init__(self, cls, name, value):
        self.cls, self.name, self.value = cls, name, value


class Unknown(AnalysisError):
    pass


def fold(repo, m, e, depth=0):
    """The value of a constant expression in module m."""
    if depth > 20:
        raise Unknown("constant too deep")
    f = lambda x: fold(repo, m, x, depth + 1)
    if isinstance(e, ast.Constant):
        return e.value
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.USub):
        return -f(e.operand)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.UAdd):
        return f(e.operand)
    if isinstance(e, ast.BinOp) and type(e.op) in OPS:
        a, b = f(e.left), f(e.right)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            return OPS[type(e.op)](a, b)
    if isinstance(e, (ast.Tuple, ast.List)):
        return tuple(f(x) for x in e.elts)
    if isinstance(e, ast.Set):
        return frozenset(f(x) for x in e.elts)
    if isinstance(e, ast.Dict) and all(k is not None for k in e.keys):
        return {f(k): f(v) for k, v in zip(e.keys, e.values)}
    if isinstance(e, ast.DictComp) and len(e.generators) == 1 and not e.generators[0].ifs:
        raise Unknown("comprehension")
    if isinstance(e, ast.Name):
        return name(repo, m, e.id, depth)
    if isinstance(e, ast.Attribute):
        if ast.unparse(e).endswith("finfo(float).eps") or ast.unparse(e).endswith("float_info.epsilon"):
            return sys.float_info.epsilon
        d = dotted(repo, m, e)
        if d in EXT:
            return EXT[d]
        v = f(e.value)
        if isinstance(v, EnumMember) and e.attr in ("value", "name"):
            return getattr(v, e.attr)
        if isinstance(v, tuple) and v and v[0] == "class":
            c = v[1]
            if e.attr in c.cattrs:
                x = fold(repo, c.module, c.cattrs[e.attr], depth + 1)
                return EnumMember(c.name, e.attr, x) if enum(repo, c) else x
        if isinstance(v, tuple) and v and v[0] == "module":
            return name(repo, v[1], e.attr, depth)
    if isinstance(e, ast.Call):
        n = ast.unparse(e.func)
        if n in ("int", "float", "frozenset", "set", "tuple", "list", "dict") and len(e.args) == 1 and not e.keywords:
            v = f(e.args[0])
            return {"int": int, "float": float, "frozenset": frozenset, "set": frozenset, "tuple": tuple, "list": tuple, "dict": dict}[n](v)
    raise Unknown("not a constant: " + ast.unparse(e)[:60])


def dotted(repo, m, e):
    t = []
    while isinstance(e, ast.Attribute):
        t.append(e.attr)
        e = e.value
    if isinstance(e, ast.Name) and e.id in m.imports and m.imports[e.id][1] is None:
        return ".".join([m.imports[e.id][0]] + t[::-1])
    return None


def enum(repo, c):
    return any(ast.unparse(b).split(".")[-1] in ("Enum", "IntEnum", "IntFlag", "Flag", "StrEnum") for b in c.bases)


def name(repo, m, n, depth=0):
    if m.lang == "cy":
        if n in m.assigns:
            return fold(repo, m, m.assigns[n], depth + 1)
        raise Unknown("no constant %s in %s" % (n, m.rel))
    r = repo.resolve_import(m, n)
    if r is None:
        raise Unknown("no constant %s in %s" % (n, m.rel))
    if r[0] == "class":
        return ("class", r[1])
    if r[0] == "module":
        return ("module", r[1])
    if r[0] == "assign":
        return fold(repo, r[1][0], r[1][1], depth + 1)
    if r[0] == "ext" and r[1] in EXT:
        return EXT[r[1]]
    raise Unknown("not a constant: " + n)


def line(m, n):
    e = m.assigns.get(n)
    return getattr(e, "lineno", None)


def reassigned(m, n):
    """Is a module constant stored anywhere else?"""
    k = 0
    for s in ast.walk(m.tree):
        if isinstance(s, ast.Name) and s.id == n and isinstance(s.ctx, ast.Store):
            k += 1
    return k > 1
