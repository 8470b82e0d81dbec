"""Interned terms of the gated value graph."""


class T:
    __slots__ = ("op", "a", "id", "deps", "__weakref__")

    def __repr__(self):
        return show(self)


_tab = {}
_n = 0
EMPTY = frozenset()


def mk(op, *a):
    """Interned term; `deps` is the set of loops whose iteration it depends on."""
    global _n
    key = (op,) + tuple(_k(x) for x in a)
    t = _tab.get(key)
    if t is None:
        t = T()
        t.op, t.a = op, a
        _n += 1
        t.id = _n
        if op in ("phi", "tick"):
            d = frozenset([a[0]])
        elif op == "eff":
            d = a[0].loops
        elif op in ("eta", "lexit", "lval", "lbrk"):
            d = a[0].outer
        else:
            d = EMPTY
            for x in a:
                d = _d(x, d)
        t.deps = d
        _tab[key] = t
    return t


def _k(x):
    if isinstance(x, T):
        return ("#", x.id)
    if isinstance(x, tuple):
        return tuple(_k(y) for y in x)
    if isinstance(x, (bool, float)):
        return (type(x).__name__, repr(x))
    if isinstance(x, (int, str, type(None))):
        return (type(x).__name__, x)
    return ("o", id(x))


def _d(x, d):
    if isinstance(x, T):
        if x.deps:
            return d | x.deps
        return d
    if isinstance(x, tuple):
        for y in x:
            d = _d(y, d)
    return d


def const(v):
    return mk("const", v)


TRUE = const(True)
FALSE = const(False)
NONE = const(None)
UNDEF = mk("undef")


def is_const(t):
    return t.op == "const"


def not_(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.a[0]
    return mk("not", a)


def and_(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE or a is b:
        return a
    return mk("and", a, b)


def or_(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE or a is b:
        return a
    return mk("or", a, b)


def ite(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if c.op == "not":
        return ite(c.a[0], b, a)
    return mk("ite", c, a, b)


def walk(t, seen=None):
    """Every subterm (not entering loops)."""
    if seen is None:
        seen = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, T):
            if x.id in seen:
                continue
            seen.add(x.id)
            yield x
            todo.extend(x.a)
        elif isinstance(x, tuple):
            todo.extend(x)


def show(t, depth=5):
    if isinstance(t, tuple):
        return "(" + ", ".join(show(x, depth) for x in t) + ")"
    if not isinstance(t, T):
        return str(t)
    if t.op == "const":
        return repr(t.a[0])
    if t.op == "sym":
        return t.a[0]
    if depth <= 0:
        return "…"
    if t.op == "attr":
        return show(t.a[0], depth) + "." + t.a[1]
    if t.op == "bin":
        return "(" + show(t.a[1], depth - 1) + " " + t.a[0] + " " + show(t.a[2], depth - 1) + ")"
    return t.op + "(" + ", ".join(show(x, depth - 1) for x in t.a) + ")"
