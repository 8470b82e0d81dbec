"""Rays are immutable values."""
import ast
from pvsa.rules import bad, ok, rule, unsure

FIELDS = {"position", "direction", "wavelength", "travelled", "duration", "source"}


def ray_class(repo):
    for m in repo.py_modules():
        if m.rel.endswith("light/ray.py"):
            for n in m.tree.body:
                if isinstance(n, ast.ClassDef) and n.name == "Ray":
                    return m, n
    return None, None


@rule("P09", "rays are frozen", "Ray is a frozen dataclass that does not redefine attribute assignment")
def frozen(repo):
    m, c = ray_class(repo)
    if c is None:
        yield unsure("Ray", "pvtrace/light/ray.py", None, "class not found")
        return
    fz = None
    for d in c.decorator_list:
        if "dataclass" in ast.unparse(d):
            fz = isinstance(d, ast.Call) and any(k.arg == "frozen" and isinstance(k.value, ast.Constant) and k.value.value is True for k in d.keywords)
    named = any("NamedTuple" in ast.unparse(b) for b in c.bases)
    if fz is False:
        yield bad("Ray", m.rel, c.lineno, "Ray is not a frozen dataclass: its fields can be assigned")
    elif fz is None and not named:
        yield unsure("Ray", m.rel, c.lineno, "Ray is not a dataclass any more")
    else:
        yield ok("Ray", m.rel, c.lineno)
    own = [f.name for f in c.body if isinstance(f, ast.FunctionDef) and f.name in ("__setattr__", "__delattr__")]
    if own:
        yield bad("Ray." + own[0], m.rel, c.lineno, "Ray redefines %s" % own[0])


@rule("P09", "no store to a ray", "no statement assigns to a ray's field or to a component of one, and nothing bypasses the immutability (object.__setattr__, __dict__, setattr)")
def stores(repo):
    for m in repo.py_modules():
        hits = n = 0
        for f in [x for x in ast.walk(m.tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda))]:
            for s in ast.walk(f):
                ts = s.targets if isinstance(s, (ast.Assign, ast.Delete)) else [s.target] if isinstance(s, (ast.AugAssign, ast.AnnAssign)) else []
                flat = []
                for t in ts:
                    flat += t.elts if isinstance(t, (ast.Tuple, ast.List)) else [t]
                for t in flat:
                    b = t
                    while isinstance(b, ast.Subscript):
                        b = b.value
                    n += 1
                    if isinstance(b, ast.Attribute) and b.attr in FIELDS and not (isinstance(b.value, ast.Name) and b.value.id in ("self", "cls")):
                        base = ast.unparse(b.value)
                        if "ray" in base.lower() or isinstance(b.value, ast.Name):
                            hits += 1
                            yield bad("%s %s.%s" % (m.rel, base, b.attr), m.rel, s.lineno, "assigns to %s" % ast.unparse(t))
                    if isinstance(t, ast.Subscript) and isinstance(t.value, ast.Attribute) and t.value.attr == "__dict__" and "ray" in ast.unparse(t.value.value).lower():
                        hits += 1
                        yield bad("%s __dict__" % m.rel, m.rel, s.lineno, "writes through %s" % ast.unparse(t))
                if isinstance(s, ast.Call) and isinstance(s.func, ast.Attribute) and s.func.attr == "__setattr__" and isinstance(s.func.value, ast.Name) and s.func.value.id in ("object", "super"):
                    a = s.args[0] if s.args else None
                    if "ray" in m.rel or not (isinstance(a, ast.Name) and a.id == "self"):
                        hits += 1
                        yield bad("%s object.__setattr__" % m.rel, m.rel, s.lineno, ast.unparse(s))
                if isinstance(s, ast.Call) and isinstance(s.func, ast.Name) and s.func.id == "setattr" and s.args and "ray" in ast.unparse(s.args[0]).lower():
                    hits += 1
                    yield bad("%s setattr" % m.rel, m.rel, s.lineno, ast.unparse(s))
        if not hits:
            yield ok("%s (%d assignments)" % (m.rel, n), m.rel)
