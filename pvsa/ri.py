"""Random interpretation of value graphs (Gulwani and Necula).

Two value graphs are compared by interpreting both in the same randomly chosen
model: known operators (arithmetic, tuples, dicts, strings, gates, loops) get
their meaning, everything else is an uninterpreted function whose values are
drawn from the model.  Equal graphs agree in every model; graphs that disagree
in a model are different functions of the same inputs.  No code of the project
is imported or executed, and no path is enumerated: the graph is evaluated as a
whole in each model.
"""
import hashlib
import math
import posixpath
import string
import sys

from . import sql
from .ev import Binder, ClassRef, Effect, FuncRef, Loop, ModRef
from .terms import T, NONE, TRUE

sys.setrecursionlimit(200000)


class Undef(Exception):
    """The term has no value in this model."""


class Unfinished(Undef):
    pass


class Restart(Exception):
    """The model was refined while it was being used."""


class Num(float):
    __slots__ = ("sig",)


class Int(int):
    pass


class Str(str):
    pass


class Opq:
    __slots__ = ("h", "sig", "cls", "info")

    def __init__(self, h, sig, cls=None, info=None):
        self.h, self.sig, self.cls, self.info = h, sig, cls, info

    def __repr__(self):
        return f"<{self.cls or self.sig[-1] if self.sig else ''}:{self.h % 10000}>"


class Ptr:
    __slots__ = ("base", "off", "sig")

    def __init__(self, base, off, sig):
        self.base, self.off, self.sig = base, off, sig

    def __repr__(self):
        return f"&{self.base}+{self.off}"


EVENT_NAMES = ("GENERATE", "REFLECT", "TRANSMIT", "ABSORB", "NONRADIATIVE", "SCATTER", "EMIT", "EXIT", "REACT", "KILL")


class Enum:
    __slots__ = ("cls", "name")

    def __init__(self, cls, name):
        self.cls, self.name = cls, name

    def __repr__(self):
        return f"{self.cls}.{self.name}"


class Rec:
    __slots__ = ("cls", "fields")

    def __init__(self, cls, fields):
        self.cls, self.fields = cls, fields

    def __repr__(self):
        return f"{self.cls.name}({self.fields})"


class With:
    __slots__ = ("base", "fields")

    def __init__(self, base, fields):
        self.base, self.fields = base, fields

    def __repr__(self):
        return f"replace({self.base}, {self.fields})"


class Dict:
    __slots__ = ("items",)

    def __init__(self, items):
        self.items = items      # key(k) -> (k, v)

    def __repr__(self):
        return repr({k: v for k, v in self.items.values()})


class Slice:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


class Range:
    __slots__ = ("a",)

    def __init__(self, a):
        self.a = a


VEC = {"position", "direction", "normal", "location", "pos", "vec", "axis_vec"}


def h64(x):
    return int.from_bytes(hashlib.blake2b(repr(x).encode(), digest_size=8).digest(), "big")


DRAWMAP = None    # permutation of the first random numbers
GATES = None      # set to a dictionary to count how often each condition held


class Sigs:
    """What is known about the values of each uninterpreted symbol."""
    def __init__(self, repo, domains=None):
        self.repo = repo
        self.num, self.none, self.seq, self.truthy = set(), set(), set(), set()
        self.consts, self.classes, self.ints, self.inf = {}, {}, set(), set()
        self.names = {}
        self.group = {}
        self.vec = set()
        self.pairs = set()
        self.changed = False
        self.domains = domains or {}

    def add(self, s, x):
        if x not in s:
            s.add(x)
            self.changed = True

    def const(self, sig, c):
        d = self.consts.setdefault(sig, [])
        if c not in [x for x in d if type(x) is type(c)] and len(d) < 24:
            d.append(c)
            self.changed = True

    def cls(self, sig, c):
        d = self.classes.setdefault(sig, [])
        if c not in d:
            d.append(c)
            self.changed = True

    def name(self, sig, n):
        d = self.names.setdefault(sig, [])
        if n not in d:
            d.append(n)
            self.changed = True

    def find(self, s):
        while self.group.get(s, s) != s:
            s = self.group[s]
        return s

    def union(self, a, b):
        x, y = self.find(a), self.find(b)
        if x != y or a not in self.group:
            self.group.setdefault(a, a)
            self.group.setdefault(b, b)
            if x != y:
                self.group[max(x, y, key=repr)] = min(x, y, key=repr)
            self.changed = True


MODES = ("gen", "pos", "unit", "gen", "tie", "pos", "near", "unit", "tie", "wide")


class RNG:
    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s

    def n(self):
        self.s = (self.s * 6364136223846793005 + 1442695040888963407) & 0xFFFFFFFFFFFFFFFF
        x = self.s
        x ^= x >> 33
        x = (x * 0xff51afd7ed558ccd) & 0xFFFFFFFFFFFFFFFF
        x ^= x >> 33
        return x

    def u(self):
        return self.n() / 18446744073709551616.0

    def i(self, n):
        return self.n() % n


SCHEMA = {}      # set when the repository is loaded


def sqlpair(v):
    """Position of a statement followed by the tuple of its values."""
    for i in range(len(v) - 1):
        if isinstance(v[i], str) and type(v[i + 1]) is tuple and sql.looks(v[i]):
            return i
    return None


def chosen(q):
    """Rows or columns listed by number."""
    return type(q) is tuple and q and all(isinstance(z, int) and not isinstance(z, bool) for z in q)


class Model:
    """One randomly chosen interpretation."""

    def __init__(self, sigs, seed, mode=None, grid=0.0):
        self.sigs, self.seed, self.grid = sigs, seed, grid
        self.mode = mode if mode is not None else MODES[seed % len(MODES)]
        self.memo = {}
        self.maxlen = 3
        self.longs = {}
        self.novel, self.long = (), None        # numbers and a length to be tried
        self.words = ()                         # strings to be tried
        self.used = []
        self.touched = set()        # names of what was chosen at random

    # ---- keys
    def sqlkey(self, text, args):
        """Normal form of a statement, its bound values in the order of the normal form."""
        try:
            st, n = sql.parse(text, SCHEMA)
        except sql.Unknown as e:
            raise Undef("sql: %s" % e)
        if args is None:
            return repr(st) if n < 2 else repr(sql.strip(st)) + repr(sql.params(st, []))
        if n != len(args):
            return ("%d values bound to %d placeholders" % (len(args), n), text)
        return repr(sql.strip(st)), tuple(self.key(args[i]) for i in sql.params(st, []))

    def key(self, v):
        t = type(v)
        if t is float or t is Num:
            return self.fkey(v)
        if t is int or t is bool or t is Int:
            return ("n", float(v)) if abs(v) < 1e15 else ("i", int(v))
        if v is None or isinstance(v, str):
            if v is not None and sql.looks(v):
                return ("sql", self.sqlkey(str(v), None))
            return ("c", None if v is None else str(v))
        if t is tuple:
            i = sqlpair(v)
            if i is not None:
                return ("t",) + tuple(self.key(x) for x in v[:i]) + (("sql", self.sqlkey(str(v[i]), v[i + 1])),) + tuple(self.key(x) for x in v[i + 2:])
            return ("t",) + tuple(self.key(x) for x in v)
        if t is Opq:
            return ("o", v.h)
        if t is Rec:
            return ("r", v.cls.name) + tuple((k, self.key(x)) for k, x in sorted(v.fields.items()))
        if t is With:
            fs = self.withfields(v)
            if not fs:
                return self.key(v.base)
            return ("w", self.key(v.base)) + tuple((k, self.key(x)) for k, x in sorted(fs.items()))
        if t is Enum:
            return ("e", v.cls, v.name)
        if t is Dict:
            return ("d",) + tuple(sorted(((k, self.key(x[1])) for k, x in v.items.items()), key=repr))
        if t is Ptr:
            return ("p", v.base, self.key(v.off))
        if t is Slice or t is Range:
            return ("s",) + tuple(self.key(x) for x in v.a)
        raise Undef("key")

    def fkey(self, v):
        if v != v:
            raise Undef("nan")
        if v == 0 or math.isinf(v):
            return ("n", v + 0.0)
        if v == int(v) and abs(v) < 1e6:
            return ("n", v + 0.0)
        e = math.floor(math.log10(abs(v) * (1 + 0.37 * self.grid)))
        # values near an integer round to it
        r = round(v)
        if abs(v - r) < 1e-9 * max(1.0, abs(v)) and abs(v) < 1e6:
            return ("n", float(r))
        q = v / 10.0 ** e
        return ("n", math.floor(q * 1e9 + 0.5 + self.grid), e)

    def withfields(self, v):
        out = {}
        for k, x in v.fields.items():
            try:
                if self.eq(self.attr(v.base, k), x):
                    continue
            except Undef:
                pass
            out[k] = x
        return out

    # ---- uninterpreted functions
    def pick(self, sig, args, info=None):
        try:
            k = (sig, tuple(self.key(a) for a in args))
        except RecursionError:
            raise Undef("deep")
        v = self.memo.get(k, self)
        if v is self:
            v = self.choose(sig, h64((self.seed, k)), info, args)
            self.memo[k] = v
        return v

    def unusual(self, dom, r, sig):
        """A value near one of the numbers to be tried, where the domain has it."""
        if not self.novel or r.i(5) > 1:
            return None
        c = self.novel[r.i(len(self.novel))]
        if dom == "$int" or sig in self.sigs.ints:
            v = int(c) * (1 if self.long else [1, 1, 1, 1, 2, 10][r.i(6)]) + [0, 1, -1, 2, -2, 3][r.i(6)]
            return self.mkint(v, sig) if v >= 0 or dom != "$int" else None
        v = c * (1 + [0, 1e-3, -1e-3, .3, -.3, 2][r.i(6)]) if not self.long else c + [0, 0, 1, -1, 2, 0.5][r.i(6)]
        if dom == "$unit" and not 0 <= v < 1 or dom == "$pos" and v <= 0:
            return None
        if isinstance(dom, tuple) and not dom[1] <= v <= dom[2]:
            return None
        return self.mknum(v, sig)

    def many(self, sig, h):
        """Is the sequence to be a long one?"""
        if self.long is None:
            return False
        x = self.longs.get(h)
        if x is None:
            n = len(self.longs)
            x = self.longs[h] = (n if self.long > 32 else n % 6) == self.seed % 6
        return x

    def number(self, r, sig):
        m = self.mode
        if self.novel:
            x = self.unusual("$num", r, sig)
            if x is not None:
                return x
        if sig in self.sigs.ints:
            return self.mkint([0, 1, 2, 3, 1, 2, -1, 5][r.i(8)], sig)
        if m == "unit":
            x = r.u()
        elif m == "pos":
            x = 0.05 + 3 * r.u()
        elif m == "tie":
            x = [0.0, 0.5, 1.0, 2.0, -1.0, -0.5, 1.0, 1.5][r.i(8)]
        elif m == "near":
            x = [0.0, 0.5, 1.0, -1.0][r.i(4)] + [0, 1, -1, 1][r.i(4)] * 10.0 ** (-1.5 - 7.5 * r.u())
        elif m == "wide":
            x = [1, 1, -1][r.i(3)] * 10.0 ** (-7 + 11 * r.u())
        else:
            x = 6 * r.u() - 3
        return self.mknum(x, sig)

    @staticmethod
    def mknum(x, sig):
        v = Num(x)
        v.sig = sig
        return v

    @staticmethod
    def mkint(x, sig):
        v = Int(x)
        v.sig = sig
        return v

    def choose(self, sig, h, info, args):
        S = self.sigs
        r = RNG(h)
        dom = S.domains.get(sig)
        if dom is None and sig[0] == "idx" and len(sig) == 3:
            dom = S.domains.get(("idx", sig[2])) or S.domains.get(("idx", sig[1]) if isinstance(sig[1], str) else None)
        if dom is None:
            dom = S.domains.get(sig[-1] if isinstance(sig[-1], str) else None)
        if dom is None and sig[0] == "mem" and isinstance(sig[1], tuple):
            dom = S.domains.get(("mem", sig[1][-1]))
        if dom is not None:
            return self.fromdomain(dom, r, sig, h, args)
        if info is not None:
            return self.fromdomain(info, r, sig, h, args)
        opts = []
        cs = S.consts.get(sig, ())
        for c in cs:
            opts.append(("c", c))
        if sig in S.none:
            opts.append(("c", None))
        for c in S.names.get(sig, ()):
            opts.append(("n", c))
        for c in S.classes.get(sig, ()):
            opts.append(("k", c))
            if len(S.classes[sig]) == 1:
                opts.append(("k", "*other"))
        if sig in S.truthy and not cs and sig not in S.num and sig not in S.classes:
            opts.append(("c", False))
            opts.append(("c", True))
        if sig in S.inf:
            opts.append(("c", math.inf))
        if opts and r.u() < (0.5 if sig in S.num and not S.classes.get(sig) else 0.7):
            k, c = opts[r.i(len(opts))]
            if k == "c":
                return self.tag(c, sig, r)
            if k == "n":
                return Enum(*c[1:]) if c[0] == "enum" else Opq(h64(("named",) + c), c, "*" + c[0])
            return self.instance(c, r, sig, h)
        if sig in S.group and sig not in S.num and r.u() < 0.6:
            g = S.find(sig)
            j = r.i(3)
            return Opq(h64((self.seed, "g", g, j)), ("group",) + (g,), None)
        if sig in S.num:
            if sig in S.vec:
                return tuple(self.number(RNG(h64((h, i))), sig) for i in range(3))
            if sig in S.group and r.u() < 0.35:
                return self.number(RNG(h64((self.seed, "gn", S.find(sig), r.i(2)))), sig)
            return self.number(r, sig)
        if sig in S.pairs:
            return (self.number(r, sig), self.number(r, sig))
        return Opq(h, sig)

    def tag(self, c, sig, r):
        if isinstance(c, bool) or c is None:
            return c
        if isinstance(c, str):
            v = Str(c)
            v.sig = sig
            return v
        if isinstance(c, int):
            d = c + [0, 0, 0, 1, -1][r.i(5)]
            if sig in self.sigs.num and sig not in self.sigs.ints and r.i(4) == 0:
                return self.mknum(c * (1 + [1e-3, -1e-3, .5, -.5][r.i(4)]), sig)
            return self.mkint(d, sig)
        if isinstance(c, float):
            if math.isinf(c):
                return c
            return self.mknum(c * (1 + [0, 0, 1e-3, -1e-3, .5, -.5][r.i(6)]), sig)
        return c

    def instance(self, c, r, sig, h):
        if c in ("int", "numpy.integer", "numbers.Integral"):
            return self.mkint(r.i(5) - 1, sig)
        if c in ("float", "numbers.Number", "numbers.Real", "numpy.floating"):
            return self.number(r, ("f",) + tuple(sig))
        if c == "bool":
            return r.i(2) == 0
        if c == "str":
            s = Str("s%d" % (h % 7))
            s.sig = sig
            return s
        if c in ("list", "tuple", "collections.abc.Sequence", "Sequence", "numpy.ndarray"):
            return Opq(h, sig, c)
        return Opq(h, sig, c)

    def ascbase(self):
        return round(3 * RNG(h64((self.seed, "asc"))).u(), 1)

    def setof(self, xs):
        d = {}
        for x in xs:
            d[self.key(x)] = x
        xs = tuple(d[k] for k in sorted(d, key=repr))
        return Opq(h64(("set",) + tuple(self.key(x) for x in xs)), ("fn", "set"), "set", {"$set": xs, "$len": len(xs)})

    @staticmethod
    def isset(v):
        return type(v) is Opq and type(v.info) is dict and "$set" in v.info

    def setop(self, op, a, b):
        x = {self.key(v): v for v in self.seq(a)}
        y = {self.key(v): v for v in self.seq(b)}
        if op == "|":
            return self.setof(list(x.values()) + list(y.values()))
        if op == "&":
            return self.setof([v for k, v in x.items() if k in y])
        if op == "-":
            return self.setof([v for k, v in x.items() if k not in y])
        if op == "^":
            return self.setof([v for k, v in x.items() if k not in y] + [v for k, v in y.items() if k not in x])
        if op == "<=":
            return all(k in y for k in x)
        if op == "disjoint":
            return not any(k in y for k in x)
        raise Undef("set " + op)

    def fromdomain(self, dom, r, sig, h, args):
        if callable(dom):
            return dom(self, r, sig, h, args)
        if self.novel and (dom in ("$unit", "$pos", "$int") if isinstance(dom, str) else isinstance(dom, tuple) and dom[:1] == ("range",)):
            v = self.unusual(dom, r, sig)
            if v is not None:
                return v
        if isinstance(dom, tuple) and dom and dom[0] == "range":
            v = dom[1] + (dom[2] - dom[1]) * r.u()
            return self.mknum(v, sig)
        if isinstance(dom, tuple) and dom and dom[0] == "sizes":    # one of these, or any other size worth trying
            v = self.unusual("$int", r, sig) if self.novel else None
            return v if v is not None else self.mkint(dom[1 + r.i(len(dom) - 1)], sig)
        if isinstance(dom, tuple) and dom and dom[0] == "near":
            return self.mknum(dom[1 + r.i(len(dom) - 1)] + [0, 1, -1][r.i(3)] * 10.0 ** (-1.5 - 7 * r.u()), sig)
        if isinstance(dom, tuple) and dom and dom[0] == "tuple":
            return tuple(self.fromdomain(d, RNG(h64((h, i))), ("el", sig, i), h64((h, "el", i)), args)
                         for i, d in enumerate(dom[1:]))
        if isinstance(dom, dict):       # "key?" may be absent; the order is arbitrary
            out = {}
            for k, d in sorted(dom.items(), key=lambda kd: h64((h, "order", kd[0]))):
                n = k.rstrip("?")
                x = RNG(h64((h, "key", k)))
                if k.endswith("?") and x.i(3) == 0:
                    continue
                kv = Str(n)
                out[self.key(kv)] = (kv, self.fromdomain(d, x, ("item", sig, n), h64((h, "item", n)), args))
            if self.words and r.i(2):
                kv = Str(self.words[r.i(len(self.words))])
                out.setdefault(self.key(kv), (kv, Opq(h64((h, "item", kv)), ("item", sig, "*"))))
            return Dict(out)
        if isinstance(dom, tuple) and dom and dom[0] == "map":      # up to maxlen arbitrary keys
            out = {}
            for i in range(r.i(self.maxlen + 1)):
                x = RNG(h64((h, "key", i)))
                kv = self.fromdomain(dom[1], x, ("keys", sig), h64((h, "keys", i)), args)
                out[self.key(kv)] = (kv, self.fromdomain(dom[2], x, ("item", sig, "*"), h64((h, "item", self.key(kv))), args))
            return Dict(out)
        if isinstance(dom, tuple) and dom and dom[0] == "self":    # ("self", of self, of anything else)
            o = args[0] if args else None
            return self.fromdomain(dom[1 if type(o) is Opq and o.sig == ("sym", "self") else 2], r, sig, h, args)
        if isinstance(dom, tuple) and dom and dom[0] == "is":
            return self.instance(dom[1 + r.i(len(dom) - 1)], r, sig, h)
        if isinstance(dom, tuple) and dom and dom[0] == "seq":
            v = [self.fromdomain(dom[1], RNG(h64((h, i))), ("els", sig), h64((h, "els", i)), args)
                 for i in range(self.long + r.i(3) if self.many(sig, h) else r.i(self.maxlen + 1))]
            if len(v) > 1 and type(v[0]) is Opq and r.i(8) == 0:
                v[-1] = v[r.i(len(v) - 1)]      # the same object twice
            return tuple(v)
        if isinstance(dom, tuple) and dom and dom[0] == "set":      # ("set", elements, number of draws if fixed)
            return self.setof([self.fromdomain(dom[1], RNG(h64((h, i))), ("els", sig), h64((h, "els", i)), args)
                               for i in range(dom[2] if len(dom) > 2 else r.i(self.maxlen + 1))])
        if dom == "$any":
            return self.pick(("any", sig) if sig in self.sigs.domains or sig[-1] in self.sigs.domains else sig, (h,))
        if isinstance(dom, list):
            if self.novel and len(dom) > 3 and all(type(x) is int for x in dom) and sorted(set(dom)) != list(range(len(set(dom)))):
                v = self.unusual("$int", r, sig)        # sizes, not codes
                if v is not None and v > max(dom):
                    return v
            c = dom[r.i(len(dom))]
            if self.words and type(c) is str and not c.startswith("$") and r.i(3) == 0 and (len(dom) > 7 or any(type(x) is str and len(x) < 3 for x in dom)):
                w = self.words[r.i(len(self.words))]
                c = [w, c + w, w + c][r.i(3)]
            if isinstance(c, (tuple, dict)):
                return self.fromdomain(c, r, sig, h, args)
            if isinstance(c, str) and c.startswith("$"):
                return self.fromdomain(c, r, sig, h, args)
            if isinstance(c, bool) or c is None:
                return c
            if isinstance(c, str):
                return Str(c)
            return self.mkint(c, sig) if isinstance(c, int) else self.mknum(c, sig)
        if dom == "$num":
            return self.number(r, sig)
        if dom in ("$asc", "$nums", "$asc3", "$nums3", "$pos3", "$cdf3", "$pair"):
            n = 3 if dom.endswith("3") else 2 if dom == "$pair" else 2 + r.i(3)
            v = [self.number(RNG(h64((h, i))), sig) for i in range(n)]
            if dom in ("$asc", "$asc3", "$pair"):
                v = [0.3 * i + 0.05 * r.i(4) + self.ascbase() for i in range(n)]
            elif dom in ("$nums", "$nums3") and r.i(8) == 0:      # all the same
                v = v[:1] * n
            elif dom == "$pos3":
                v = [0.05 + 3 * r.u() for i in range(n)]
            elif dom == "$cdf3":
                v = [0.0, 0.2 + 0.6 * r.u(), 1.0]
            return tuple(v)
        if dom == "$edge":          # at, or close to, a value of an ascending table
            return self.mknum(self.ascbase() + 0.05 * r.i(16) + [0, 1, -1][r.i(3)] * 10.0 ** (-1.5 - 7 * r.u()), sig)
        if dom == "$like":          # as many numbers as the last argument has
            try:
                n = len(self.seq(args[-1]))
            except (Undef, IndexError):
                return self.number(r, sig)
            return tuple(self.number(RNG(h64((h, i))), sig) for i in range(n))
        if dom == "$inf":
            return math.inf
        if dom in ("$unit", "$pos") and self.mode == "near" and r.i(2):     # close to the others, never equal to them
            return self.mknum((0.5 if dom == "$unit" else [0.5, 1.0][r.i(2)]) + [1, -1][r.i(2)] * 10.0 ** (-1.5 - 3 * r.u()), sig)
        if dom == "$unit":
            return self.mknum(r.u(), sig)
        if dom == "$pos":
            return self.mknum(0.05 + 3 * r.u(), sig)
        if isinstance(dom, tuple) and dom and dom[0] == "range3":
            return tuple(self.mknum(dom[1] + (dom[2] - dom[1]) * r.u(), sig) for _ in range(3))
        if dom == "$affine":
            return tuple(tuple(self.number(RNG(h64((h, i, j))), sig) for j in range(4)) for i in range(3)) + ((0.0, 0.0, 0.0, 1.0),)
        if dom == "$event":
            return Enum("Event", EVENT_NAMES[r.i(len(EVENT_NAMES))])
        if dom == "$int":
            return self.mkint([0, 1, 2, 3][r.i(4)], sig)
        if dom == "$bool":
            return r.i(2) == 0
        if dom == "$vec":
            return tuple(self.number(RNG(h64((h, i))), sig) for i in range(3))
        if dom == "$uvec":
            v = [self.number(RNG(h64((h, i))), sig) for i in range(3)]
            n = math.sqrt(sum(x * x for x in v))
            if n < 1e-3:
                v, n = [0.0, 0.0, 1.0], 1.0
            return tuple(x / n for x in v)
        if dom == "$axis":      # unit vector, often along an axis
            j = r.i(9)
            if j < 6:
                v = [0.0, 0.0, 0.0]
                v[j % 3] = 1.0 if j < 3 else -1.0
                return tuple(v)
            return self.fromdomain("$uvec", r, sig, h, args)
        if dom == "$rigid":     # rotation and translation
            a, b = [6.2 * RNG(h64((h, i))).u() for i in range(2)]
            if r.i(4) == 0:
                a = 0.0
            ca, sa, cb, sb = math.cos(a), math.sin(a), math.cos(b), math.sin(b)
            t = [self.number(RNG(h64((h, i, "t"))), sig) for i in range(3)]
            return ((ca * cb, -sa, ca * sb, t[0]), (sa * cb, ca, sa * sb, t[1]), (-sb, 0.0, cb, t[2]), (0.0, 0.0, 0.0, 1.0))
        if dom == "$nearrigid":
            v = [list(x) for x in self.fromdomain("$rigid", r, sig, h, args)]
            e = 10.0 ** (-2 - 9 * RNG(h64((h, "e"))).u())
            i, j = r.i(3), r.i(3)
            v[i][j] += e
            return tuple(tuple(x) for x in v)
        if dom == "$mat4":
            return tuple(tuple(self.number(RNG(h64((h, i, j))), sig) for j in range(4)) for i in range(4))
        if dom == "$opq":
            return Opq(h, sig)
        if dom == "$seq":
            n = r.i(4)
            return tuple(self.pick(("idx", sig, "*"), (Opq(h, sig), i)) for i in range(n))
        if dom == "$ptr":
            return Ptr(("P", sig, h), 0, sig)
        if dom == "$obj":
            return Opq(h, sig)
        raise AssertionError(dom)

    def fn(self, name, *args):
        return self.pick(("fn", name), args)

    # ---- attributes, items
    def attr(self, b, name):
        if type(b) is Rec:
            if name in b.fields:
                return b.fields[name]
        if type(b) is With:
            if name in b.fields:
                return b.fields[name]
            return self.attr(b.base, name)
        if type(b) is Opq:
            self.touched.add("attr:" + name)
            if b.info is not None and name in b.info:
                return b.info[name]
            if name == "is_root":               # of a tree of nodes
                return self.attr(b, "parent") is None
            if name == "is_leaf":
                return self.len(self.attr(b, "children")) == 0
        if b is None:
            raise Undef("attribute of None")
        if isinstance(b, str):
            raise Undef("attribute of str")
        if type(b) is tuple:
            if name == "T":
                if b and all(type(x) is tuple for x in b):
                    return tuple(zip(*b))
                return b
            if name == "size":
                return len(self.flat(b))
            if name == "shape":
                return self.shape(b)
            if name == "ndim":
                return len(self.shape(b))
        if isinstance(b, (float, int)) and not isinstance(b, bool):
            if name in ("T", "real"):
                return b
        self.touched.add("attr:" + name)
        return self.pick(("attr", name), (b,))

    def shape(self, b):
        s = [len(b)]
        while b and type(b[0]) is tuple:
            b = b[0]
            s.append(len(b))
        return tuple(s)

    def flat(self, b):
        out = []
        for x in b:
            out.extend(self.flat(x) if type(x) is tuple else [x])
        return out

    @staticmethod
    def sigof(v):
        if type(v) is Opq:
            return v.sig
        if type(v) in (Num, Int, Str):
            return getattr(v, "sig", None)
        return None

    def root(self, v):
        s = self.sigof(v)
        if s is None:
            return "?"
        return s

    def len(self, v):
        if type(v) is tuple:
            return len(v)
        if isinstance(v, str):
            return len(v)
        if type(v) is Dict:
            return len(v.items)
        if type(v) is Range:
            return len(self.seq(v))
        if type(v) is Opq:
            if type(v.info) is dict and "$len" in v.info:
                return v.info["$len"]
            if v.sig in self.sigs.vec:
                return 3
            if self.many(v.sig, v.h):
                return self.long + v.h % 3
            return RNG(h64((self.seed, "len", v.h))).i(self.maxlen + 1)
        if type(v) in (Num, Int):
            self.sigs.add(self.sigs.seq, v.sig)
            raise Undef("len of number")
        raise Undef("len")

    def idx(self, b, i):
        if type(i) is Slice:
            return self.slice(b, i)
        if type(b) is Opq and type(b.info) is dict and "$set" in b.info:
            b = b.info["$set"]
        if type(b) is tuple:
            if isinstance(i, bool):
                i = int(i)
            if isinstance(i, float) and i == int(i):
                i = int(i)
            if isinstance(i, int):
                if -len(b) <= i < len(b):
                    return b[int(i)]
                raise Undef("index")
            if type(i) is tuple and i:
                if all(isinstance(x, bool) for x in i) and len(i) == len(b):
                    return tuple(x for x, c in zip(b, i) if c)
                if len(i) == 2 and any(type(x) is Slice for x in i) and any(chosen(x) for x in i):
                    if type(i[0]) is Slice:
                        return tuple(tuple(self.idx(x, j) for j in i[1]) for x in self.slice(b, i[0]))
                    return tuple(self.slice(self.idx(b, j), i[1]) for j in i[0])
                if type(i[0]) is Slice and i[0].a == (None, None, None):
                    return tuple(self.idx(x, i[1] if len(i) == 2 else i[1:]) for x in b)
                if type(i[0]) is Slice and len(i) > 1:
                    return tuple(self.idx(x, i[1] if len(i) == 2 else i[1:]) for x in self.slice(b, i[0]))
                x = self.idx(b, i[0])
                return self.idx(x, i[1] if len(i) == 2 else i[1:]) if len(i) > 1 else x
            return self.pick(("idx", "seq", "*"), (b, i))
        if type(b) is Dict:
            k = self.key(i)
            if k in b.items:
                return b.items[k][1]
            raise Undef("missing key")
        if type(b) is Range:
            return self.idx(tuple(self.seq(b)), i)
        if isinstance(b, str):
            if isinstance(i, int) and -len(b) <= i < len(b):
                return b[i]
            raise Undef("str index")
        if b is None:
            raise Undef("None index")
        if type(b) is Enum:
            raise Undef("enum index")
        if type(b) is With or type(b) is Rec:
            raise Undef("record index")
        if isinstance(i, float) and i == int(i):
            i = int(i)
        if type(b) in (Num, Int) and isinstance(i, int):
            if 0 <= i <= 2 and type(b) is Num:
                self.sigs.add(self.sigs.vec, b.sig)
            raise Undef("index of number")
        if isinstance(i, int) and i < 0 and type(b) is Opq:
            n = self.len(b)
            if -i > n:
                raise Undef("index")
            i = n + i
        if type(i) is tuple and type(b) is Opq:
            # m[a, b] is m[a][b]
            if i and not any(type(x) is Slice for x in i):
                r = b
                for x in i:
                    r = self.idx(r, x)
                return r
        kn = i if isinstance(i, str) else "*"
        rt = self.root(b)
        if isinstance(i, int) and not isinstance(i, bool) and type(b) is Opq:
            if rt and rt[0] == "idx" and False:
                pass
        return self.pick(("idx", rt if len(repr(rt)) < 200 else "?", str(kn)), (b, i))

    def slice(self, b, s):
        if all(x is None for x in s.a):
            return b
        if type(b) is Opq and all(x is None or isinstance(x, int) for x in s.a):
            b = tuple(self.seq(b))
        if type(b) in (tuple, Str, str):
            a = []
            for x in s.a:
                if isinstance(x, float) and x == int(x):
                    x = int(x)
                if x is not None and not isinstance(x, int):
                    return self.pick(("slice",), (b,) + s.a)
                a.append(None if x is None else int(x))
            return b[slice(*a)]
        return self.pick(("slice",), (b,) + s.a)

    def seq(self, v):
        """The elements of an iterable value."""
        if type(v) is tuple:
            return list(v)
        if type(v) is Dict:
            return [k for k, _ in v.items.values()]
        if type(v) is Range:
            a = []
            for x in v.a:
                if isinstance(x, float) and x == int(x):
                    x = int(x)
                if not isinstance(x, int):
                    raise Undef("range")
                a.append(int(x))
            if a[2] == 0:
                raise Undef("range")
            r = range(*a)
            if len(r) > max(64, (self.long or 0) + 64):
                raise Undef("long range")
            return list(r)
        if type(v) is Opq:
            if v.info is not None and "$set" in v.info:
                return list(v.info["$set"])
            return [self.idx(v, i) for i in range(self.len(v))]
        if type(v) in (Num, Int):
            self.sigs.add(self.sigs.seq, v.sig)
        if isinstance(v, str):
            return list(v)
        raise Undef("not iterable")

    # ---- numbers
    def num(self, v):
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, (float, int)):
            return v
        if type(v) is Opq:
            if v.sig and v.cls is None and v.sig[0] != "group":
                self.sigs.add(self.sigs.num, v.sig)
            return self.number(RNG(h64((v.h, "num"))), None)
        if type(v) is complex:
            return v.real
        if v is None:
            raise Undef("number None")
        raise Undef("not a number")

    def lift(self, f, *vs):
        if any(type(v) is tuple for v in vs):
            n = max(len(v) for v in vs if type(v) is tuple)
            out = []
            for i in range(n):
                row = []
                for v in vs:
                    if type(v) is tuple:
                        if len(v) == n:
                            row.append(v[i])
                        elif len(v) == 1:
                            row.append(v[0])
                        else:
                            raise Undef("shapes")
                    else:
                        row.append(v)
                out.append(self.lift(f, *row))
            return tuple(out)
        return f(*[self.num(v) for v in vs])

    @staticmethod
    def ck(x):
        if isinstance(x, complex) or x != x:
            raise Undef("nan")
        return x

    def bin(self, op, a, b):
        if type(a) is Ptr or type(b) is Ptr:
            if op == "+":
                p, o = (a, b) if type(a) is Ptr else (b, a)
                if type(o) is Ptr:
                    raise Undef("ptr+ptr")
                return Ptr(p.base, p.off + self.num(o), p.sig)
            if op == "-" and type(a) is Ptr:
                if type(b) is Ptr:
                    if a.base == b.base:
                        return a.off - b.off
                    raise Undef("ptr")
                return Ptr(a.base, a.off - self.num(b), a.sig)
            raise Undef("ptr op")
        if op == "+":
            if isinstance(a, str) and isinstance(b, str):
                return str(a) + str(b)
            if type(a) is tuple and type(b) is tuple and not (
                    len(a) == len(b) and all(self.isnum(x) or type(x) is tuple for x in a + b)):
                return a + b
            if isinstance(a, str) or isinstance(b, str):
                if type(a) is Opq or type(b) is Opq:
                    return (str(a) if isinstance(a, str) else "«%x»" % (h64(self.key(a)) & 0xffffff)) + \
                        (str(b) if isinstance(b, str) else "«%x»" % (h64(self.key(b)) & 0xffffff))
                raise Undef("str+")
        if op == "*" and (isinstance(a, str) or isinstance(b, str)):
            s, n = (a, b) if isinstance(a, str) else (b, a)
            if isinstance(n, int) and n < 20:
                return str(s) * n
            raise Undef("str*")
        if op == "%" and isinstance(a, str):
            return self.fn("strfmt", a, b)
        if op == "@":
            return self.dot(a, b)
        if op in ("|", "&", "^", "-") and self.isset(a) and self.isset(b):
            return self.setop(op, a, b)
        if op in ("|", "&", "^") and (type(a) in (Dict,) or type(b) in (Dict,)):
            return self.fn("d" + op, a, b)
        if op in ("|", "&", "^") and isinstance(a, bool) and isinstance(b, bool):
            return (a or b) if op == "|" else (a and b) if op == "&" else a != b
        if type(a) is Opq and op == "/" and isinstance(b, str):      # pathlib
            return self.fn("path/", a, b)
        try:
            return self.lift(self.BIN[op], a, b)
        except (ZeroDivisionError, OverflowError, ValueError, TypeError):
            raise Undef(op)

    @staticmethod
    def isnum(x):
        return isinstance(x, (int, float)) or type(x) is Opq

    def _ib(f):
        def g(a, b):
            if isinstance(a, float) and a == int(a):
                a = int(a)
            if isinstance(b, float) and b == int(b):
                b = int(b)
            return f(a, b)
        return g

    BIN = {"+": lambda a, b: Model.ck(a + b), "-": lambda a, b: Model.ck(a - b),
           "*": lambda a, b: Model.ck(a * b), "/": lambda a, b: Model.ck(a / b),
           "n/": lambda a, b: a / b if b else math.nan if a == 0 or a != a else math.copysign(math.inf, a) * math.copysign(1, b),
           "//": lambda a, b: a // b, "%": lambda a, b: Model.ck(a % b),
           "**": lambda a, b: Model.ck(float(a) ** b if not isinstance(a, int) or b < 0 else a ** b),
           "<<": _ib(lambda a, b: (a << b) if 0 <= b < 128 else Model.ck(math.nan)),
           ">>": _ib(lambda a, b: (a >> b) if 0 <= b < 128 else Model.ck(math.nan)),
           "|": _ib(lambda a, b: a | b), "&": _ib(lambda a, b: a & b), "^": _ib(lambda a, b: a ^ b)}

    def dot(self, a, b):
        if type(a) is tuple and type(b) is tuple and a and b:
            if type(a[0]) is tuple and type(b[0]) is tuple:
                cols = list(zip(*b))
                if len(a[0]) != len(b):
                    raise Undef("shapes")
                return tuple(tuple(self.dot(r, c) for c in cols) for r in a)
            if type(a[0]) is tuple:
                return tuple(self.dot(r, b) for r in a)
            if type(b[0]) is tuple:
                return tuple(self.dot(a, c) for c in zip(*b))
            if len(a) != len(b):
                raise Undef("shapes")
            return sum(self.num(x) * self.num(y) for x, y in zip(a, b))
        if self.isnum(a) and type(a) is not Opq and self.isnum(b) and type(b) is not Opq:
            return a * b
        return self.fn("dot", a, b)

    # ---- relations
    def eq(self, a, b):
        if a is b:
            return True
        na, nb = isinstance(a, (int, float)), isinstance(b, (int, float))
        if na and nb:
            if a == b:
                return True
            if isinstance(a, float) or isinstance(b, float):
                d = abs(a - b)
                if d <= 1e-11 * max(abs(a), abs(b), 1e-4) and d == d and not math.isinf(a) and not math.isinf(b):
                    raise Undef("fragile")
            return False
        if type(a) is tuple and type(b) is tuple:
            if sqlpair(a) is not None and sqlpair(b) is not None:
                return self.key(a) == self.key(b)
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        if isinstance(a, str) and isinstance(b, str):
            return str(a) == str(b)
        if a is None or b is None:
            return False
        if na != nb and (type(a) is not Opq and type(b) is not Opq):
            return False
        return self.key(a) == self.key(b)

    def learn_eq(self, a, b):
        """Refines the model when a symbol is compared."""
        for x, y in ((a, b), (b, a)):
            sx = self.sigof(x)
            if sx is None or type(y) is Opq:
                continue
            if sx[0] == "group":
                continue
            if y is None:
                if type(x) is Opq and x.cls is None:
                    self.sigs.add(self.sigs.none, sx)
            elif type(y) in (int, float, str, bool):
                self.sigs.const(sx, y)
            elif type(y) is Enum and type(x) is Opq and x.cls is None:
                self.sigs.name(sx, ("enum", y.cls, y.name))
        sa, sb = self.sigof(a), self.sigof(b)
        if sa is not None and sb is not None and sa[0] != "group" and sb[0] != "group":
            self.sigs.union(sa, sb)

    def lt(self, a, b, strict):
        if isinstance(a, str) and isinstance(b, str):
            return a < b if strict else a <= b
        if type(a) is tuple and type(b) is tuple:
            if any(type(x) is tuple for x in a + b):
                raise Undef("cmp")
            return tuple(self.lt(x, y, strict) for x, y in zip(a, b)) if False else self.lift(
                lambda x, y: self.lt1(x, y, strict), a, b)
        if type(a) is tuple or type(b) is tuple:
            return self.lift(lambda x, y: self.lt1(x, y, strict), a, b)
        for x, y in ((a, b), (b, a)):
            s = self.sigof(x)
            if s is not None and type(y) in (int, float) and s[0] != "group":
                if type(y) is int and type(x) is not Num:
                    self.sigs.const(s, y)
                elif not math.isinf(y):
                    self.sigs.const(s, y)
        if type(a) is Ptr and type(b) is Ptr and a.base == b.base:
            return a.off < b.off if strict else a.off <= b.off
        return self.lt1(self.num(a), self.num(b), strict)

    def lt1(self, x, y, strict):
        if x != x or y != y:
            raise Undef("nan")
        if x != y and (isinstance(x, float) or isinstance(y, float)):
            if not math.isinf(x) and not math.isinf(y) and abs(x - y) <= 1e-11 * max(abs(x), abs(y), 1e-4) \
                    and not (x * y == 0 and abs(x + y) < 1e-200):
                raise Undef("fragile")
        return x < y if strict else x <= y

    def truth(self, v):
        if isinstance(v, (bool, int, float)):
            return v != 0
        if v is None:
            return False
        if isinstance(v, str):
            return len(v) > 0
        if type(v) is tuple:
            return len(v) > 0
        if type(v) is Dict:
            return len(v.items) > 0
        if type(v) is Opq:
            if v.info is not None and "$set" in v.info:
                return len(v.info["$set"]) > 0
            if v.cls is not None or v.sig[0] == "group":
                return True
            self.sigs.add(self.sigs.truthy, v.sig)
            if v.sig in self.sigs.none or v.sig in self.sigs.classes:
                return True
            return h64((v.h, "truth")) % 4 != 0
        return True

    def same(self, a, b):
        """Equality up to rounding, of final values."""
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            if a == b or a != a and b != b:
                return True
            if math.isinf(a) or math.isinf(b):
                return False
            return abs(a - b) <= 1e-6 * max(abs(a), abs(b)) + 1e-9
        if type(a) is tuple and type(b) is tuple:
            return len(a) == len(b) and all(self.same(x, y) for x, y in zip(a, b))
        if type(a) is Rec and type(b) is Rec:
            return a.cls is b.cls and a.fields.keys() == b.fields.keys() and \
                all(self.same(v, b.fields[k]) for k, v in a.fields.items())
        if type(a) is With and type(b) is With and self.same(a.base, b.base):
            fa, fb = a.fields, b.fields
            for k in set(fa) | set(fb):
                if not self.same(fa[k] if k in fa else self.attr(a.base, k),
                                 fb[k] if k in fb else self.attr(b.base, k)):
                    return False
            return True
        if type(a) is Dict and type(b) is Dict:
            return a.items.keys() == b.items.keys() and all(self.same(v[1], b.items[k][1]) for k, v in a.items.items())
        try:
            return self.key(a) == self.key(b)
        except Undef:
            return False


class Iter:
    __slots__ = ("uid", "st", "n", "L")


class Run:
    __slots__ = ("how", "vals", "value", "n")


_fixed = {}


def fixed(t):
    """Is the term made of constants only?"""
    r = _fixed.get(t.id)
    if r is None:
        if t.op in ("sym", "phi", "eta", "eff", "lval", "ref", "binder", "draw", "glob", "pcall", "func", "lam", "mem", "undef"):
            r = False
        else:
            r = all(fixed(x) if isinstance(x, T) else all(fixed(y) for y in x if isinstance(y, T)) if isinstance(x, tuple) else True for x in t.a)
        _fixed[t.id] = r
    return r


class Interp:
    """Evaluates one summary in a model."""

    def __init__(self, model, rounds=4):
        self.m = model
        self.memo = {}
        self.env = {}
        self.runs = {}
        self.uid = 0
        self.rounds = rounds
        self.trace = []
        self.counts = {}
        self.effval = {}
        self.truncated = False
        self.gates = GATES

    # -------------------------------------------------- evaluation
    def ekey(self, deps):
        if not deps:
            return 0
        if len(deps) == 1:
            for L in deps:
                e = self.env.get(L)
                return e.uid if e is not None else -1
        r = []
        for L in deps:
            e = self.env.get(L)
            r.append((id(L), e.uid if e is not None else -1))
        return tuple(sorted(r))

    def v(self, t):
        if t.op == "const":
            return t.a[0]
        k = (t.id, self.ekey(t.deps)) if t.deps else t.id
        r = self.memo.get(k, self)
        if r is self:
            try:
                r = getattr(self, "o_" + t.op)(t)
            except Undef as x:
                self.memo[k] = x
                raise
            except AttributeError as x:
                if "o_" + t.op in str(x):
                    raise NotImplementedError(t.op)
                raise
            self.memo[k] = r
            return r
        if isinstance(r, Undef):
            raise r
        return r

    def vs(self, ts):
        out = []
        for x in ts:
            if x.op == "star":
                v = self.v(x.a[0])
                if type(v) is tuple:
                    out.extend(v)
                    continue
                out.append(("*", v))
            else:
                out.append(self.v(x))
        return tuple(out)

    def b(self, t):
        """Truth of a condition term."""
        r = self.v(t)
        if r is True or r is False:
            pass
        elif type(r) is tuple:
            if len(r) == 1:
                r = self.m.truth(r[0])
            elif r and all(isinstance(x, bool) for x in r):
                raise Undef("array truth")
            else:
                r = len(r) > 0
        else:
            r = self.m.truth(r)
        if self.gates is not None:
            g = self.gates.setdefault(t.id, [0, 0, t])
            g[1 if r else 0] += 1
        return r

    def o_undef(self, t):
        raise Undef("undef")

    def o_ref(self, t):
        raise Undef("ref")

    def o_garbage(self, t):
        return Opq(h64("garbage"), ("garbage",))

    def o_cycle(self, t):
        raise Undef("cycle")

    def o_sym(self, t):
        info = None
        if len(t.a) > 1:
            x = t.a[1]
            if isinstance(x, ClassRef):
                return Opq(h64((self.m.seed, "sym", t.a[0])), ("sym", t.a[0]), x.name)
            info = x
        return self.m.pick(("sym", t.a[0]), (), info)

    def o_attr(self, t):
        return self.m.attr(self.v(t.a[0]), t.a[1])

    def o_idx(self, t):
        if t.a[1].op == "tick":
            b = self.v(t.a[0])
            if type(b) is Dict:         # iteration over a dictionary yields its keys
                i = self.v(t.a[1])
                if i < len(b.items):
                    return list(b.items.values())[i][0]
                raise Undef("index")
        return self.m.idx(self.v(t.a[0]), self.v(t.a[1]))

    def o_slice(self, t):
        return Slice(self.vs(t.a))

    def o_tuple(self, t):
        return self.vs(t.a[0])

    o_list = o_tuple

    def o_set(self, t):
        return self.setof(self.vs(t.a[0]))

    def setof(self, xs):
        return self.m.setof(xs)

    def o_dict(self, t):
        d = {}
        for k, v in t.a[0]:
            kv = self.v(k)
            d[self.m.key(kv)] = (kv, self.v(v))
        return Dict(d)

    def o_dmerge(self, t):
        a, b = self.v(t.a[0]), self.v(t.a[1])
        if type(a) is Dict and type(b) is Dict:
            d = dict(a.items)
            d.update(b.items)
            return Dict(d)
        return self.m.fn("dmerge", a, b)

    def o_kwget(self, t):
        d = self.v(t.a[0])
        if type(d) is Dict:
            k = self.m.key(t.a[1])
            if k in d.items:
                return d.items[k][1]
            raise Undef("kw")
        return self.m.idx(d, t.a[1])

    def o_range(self, t):
        return Range(self.vs(t.a))

    def o_enumerate(self, t):
        s = self.m.num(self.v(t.a[1]))
        return tuple((i + s, x) for i, x in enumerate(self.m.seq(self.v(t.a[0]))))

    def o_zip(self, t):
        xs = []
        for x in t.a[0]:
            if x.op == "star":
                xs.extend(self.m.seq(self.v(x.a[0])))
            else:
                xs.append(self.v(x))
        return tuple(zip(*[self.m.seq(x) for x in xs]))

    def o_items(self, t):
        d = self.v(t.a[0])
        if type(d) is Dict:
            return tuple(d.items.values())
        n = self.m.len(d)
        out = []
        for i in range(n):
            k = self.m.pick(("key", self.m.root(d)), (d, i))
            out.append((k, self.m.idx(d, k)))
        return tuple(out)

    def o_len(self, t):
        return self.m.len(self.v(t.a[0]))

    def o_bin(self, t):
        return self.m.bin(t.a[0], self.v(t.a[1]), self.v(t.a[2]))

    def o_neg(self, t):
        return self.m.lift(lambda x: -x, self.v(t.a[0]))

    def o_inv(self, t):
        x = self.v(t.a[0])
        if type(x) is tuple and all(isinstance(y, bool) for y in x):
            return tuple(not y for y in x)
        return self.m.fn("inv", x)

    def o_cmp(self, t):
        op, m = t.a[0], self.m
        a, b = self.v(t.a[1]), self.v(t.a[2])
        if op == "==":
            for x, y, v in ((t.a[1], t.a[2], a), (t.a[2], t.a[1], b)):
                if x.op == "typeof" and y.op == "class":
                    g = m.sigof(self.v(x.a[0]))
                    if g is not None and g[0] not in ("group", "f"):
                        m.sigs.cls(g, y.a[0].name)
                        m.sigs.cls(g, "*sub:" + y.a[0].name)
                elif y.op in ("class", "func") and type(v) is Opq and v.sig is not None and (v.cls is None) \
                        and v.sig[0] not in ("group", "f", "fn", "named"):
                    m.sigs.name(v.sig, (y.op, y.a[0].name))
            m.learn_eq(a, b)
            if type(a) is tuple and isinstance(b, (int, float, str)) or type(b) is tuple and isinstance(a, (int, float, str)):
                v, c = (a, b) if type(a) is tuple else (b, a)
                return tuple(m.eq(x, c) for x in v)
            return m.eq(a, b)
        if op == "<":
            return m.lt(a, b, True)
        if op == "<=":
            return m.lt(a, b, False)
        if op == "in":
            return self.contains(b, a)
        raise NotImplementedError(op)

    def contains(self, b, a):
        m = self.m
        if type(b) is Dict:
            return m.key(a) in b.items
        if type(b) is tuple:
            r = False
            for x in b:
                m.learn_eq(a, x)
                r = r or m.eq(a, x)
            return r
        if isinstance(b, str) and isinstance(a, str):
            return a in b
        if type(b) is Range:
            return a in m.seq(b)
        if type(b) is Opq:
            if b.info is not None and "$set" in b.info:
                return self.contains(b.info["$set"], a)
            if b.info is not None and "$has" in b.info:
                return m.key(a) in b.info["$has"]
            r = self.m.pick(("in", m.root(b)), (b, a), "$bool")
            return r
        raise Undef("in")

    def o_not(self, t):
        x = t.a[0]
        r = self.v(x)
        if type(r) is tuple and r and all(isinstance(y, bool) for y in r):
            return tuple(not y for y in r)
        return not self.b(x)

    def arr(self, r):
        return type(r) is tuple and len(r) > 0 and all(isinstance(y, bool) for y in r)

    def o_and(self, t):
        x = self.v(t.a[0])
        if self.arr(x):
            y = self.v(t.a[1])
            return self.m.lift(lambda p, q: bool(p) and bool(q), x, y)
        if not self.b(t.a[0]):
            return False
        y = self.v(t.a[1])
        return y if self.arr(y) else self.b(t.a[1])

    def o_or(self, t):
        x = self.v(t.a[0])
        if self.arr(x):
            y = self.v(t.a[1])
            return self.m.lift(lambda p, q: bool(p) or bool(q), x, y)
        if self.b(t.a[0]):
            return True
        y = self.v(t.a[1])
        return y if self.arr(y) else self.b(t.a[1])

    def o_ite(self, t):
        c = self.v(t.a[0])
        if self.arr(c) and len(c) > 1:
            x, y = self.v(t.a[1]), self.v(t.a[2])
            n = len(c)
            g = lambda z, i: z[i] if type(z) is tuple and len(z) == n else z
            return tuple(g(x, i) if c[i] else g(y, i) for i in range(n))
        return self.v(t.a[1]) if self.b(t.a[0]) else self.v(t.a[2])

    def o_truth(self, t):
        r = self.v(t.a[0])
        if self.arr(r) and len(r) > 1:
            return r
        return self.m.truth(r)

    PYT = {"int": int, "float": float, "str": str, "bool": bool}

    def o_isinst(self, t):
        v, n = self.v(t.a[0]), t.a[1]
        m = self.m
        s = m.sigof(v)
        if s is not None and s[0] not in ("group", "f"):
            m.sigs.cls(s, n)
        if type(v) is Opq:
            if v.cls is None or v.cls == "*other":
                return False
            return self.subclass(v.cls, n)
        if type(v) is Rec:
            return self.subclass(v.cls.name, n)
        if type(v) is With:
            raise Undef("isinst")
        if type(v) is Enum:
            return v.cls == n
        if isinstance(v, bool):
            return n in ("bool", "int", "numbers.Integral", "numbers.Number")
        if isinstance(v, int):
            return n in ("int", "numpy.integer", "numbers.Integral", "numbers.Number", "numbers.Real")
        if isinstance(v, float):
            return n in ("float", "numbers.Number", "numbers.Real", "numpy.floating")
        if isinstance(v, str):
            return n == "str"
        if type(v) is tuple:
            return n in ("list", "tuple", "numpy.ndarray", "collections.abc.Sequence")
        if type(v) is Dict:
            return n in ("dict", "collections.abc.Mapping")
        if v is None:
            return False
        raise Undef("isinst")

    def subclass(self, c, n):
        if c == n:
            return True
        if c.startswith("*sub:"):
            return self.subclass(c[5:], n)
        if n in ("collections.abc.Sequence", "Sequence"):
            return c in ("list", "tuple")
        d = self.m.sigs.repo.class_index.get(c)
        if d:
            return any(k.name == n for k in self.m.sigs.repo.mro(d[0]))
        return False

    FN1 = {"sqrt": math.sqrt, "sin": math.sin, "cos": math.cos, "tan": math.tan, "arcsin": math.asin,
           "arccos": math.acos, "log": math.log, "exp": math.exp, "floor": math.floor, "ceil": math.ceil,
           "abs": abs, "arctan": math.atan, "sinh": math.sinh, "cosh": math.cosh, "tanh": math.tanh, "arcsinh": math.asinh,
           "arccosh": math.acosh, "arctanh": math.atanh, "log10": math.log10, "log2": math.log2, "log1p": math.log1p,
           "expm1": math.expm1, "exp2": lambda x: 2.0 ** x, "cbrt": lambda x: math.copysign(abs(x) ** (1 / 3), x),
           "trunc": math.trunc, "rint": round}
    FN2 = {"arctan2": math.atan2, "hypot": math.hypot, "fmod": math.fmod}

    def o_fn(self, t):
        n = t.a[0]
        m = self.m
        a = self.vs(t.a[1:])
        try:
            if n in self.FN1 and len(a) == 1:
                return m.lift(self.FN1[n], a[0])
            if n in self.FN2 and len(a) == 2:
                return m.lift(self.FN2[n], *a)
            if n == "hypot":
                return math.sqrt(sum(m.num(x) ** 2 for x in a))
            if n in ("min", "max"):
                xs = m.seq(a[0])
                if type(a[0]) is tuple and xs and all(type(x) is tuple for x in xs):
                    xs = m.flat(tuple(xs))
                if not xs:
                    raise Undef("empty")
                if all(type(x) is tuple for x in xs):
                    return m.lift(min if n == "min" else max, *xs)
                r = xs[0]
                for x in xs[1:]:
                    if n == "min" and m.lt(x, r, True) or n == "max" and m.lt(r, x, True):
                        r = x
                return r
            if n == "sum":
                xs = m.seq(a[0])
                r = 0
                for x in xs:
                    if self.arr(x):
                        x = tuple(int(y) for y in x)
                    r = m.bin("+", r, int(x) if isinstance(x, bool) else x)
                if type(r) is tuple:
                    return m.num(0) + sum(m.num(y) for y in m.flat(r))
                return r
            if n == "prod":
                r = 1
                for x in m.seq(a[0]):
                    r = m.bin("*", r, x)
                return r
            if n == "dot":
                return m.dot(*a)
            if n == "norm":
                return math.sqrt(sum(m.num(x) ** 2 for x in m.flat(tuple(m.seq(a[0])))))
            if n == "rotfrommat":
                try:
                    return self.rotfrommat(a[0])
                except IndexError:
                    raise Undef(n)
            if n == "cross":
                x, y = [m.seq(z) for z in a]
                x, y = [[m.num(q) for q in z] for z in (x, y)]
                return (x[1] * y[2] - x[2] * y[1], x[2] * y[0] - x[0] * y[2], x[0] * y[1] - x[1] * y[0])
        except (ValueError, OverflowError, ZeroDivisionError):
            raise Undef(n)
        return m.fn(n, *a)

    def rotfrommat(self, M):
        """(angle, axis, point) of a rotation about an axis through the origin."""
        R = [[self.m.num(x) for x in self.m.seq(row)] for row in self.m.seq(M)]
        v = (R[2][1] - R[1][2], R[0][2] - R[2][0], R[1][0] - R[0][1])
        s = math.sqrt(sum(x * x for x in v)) / 2
        c = (R[0][0] + R[1][1] + R[2][2] - 1) / 2
        if abs(s * s + c * c - 1) > 1e-6:
            raise Undef("not a rotation")
        if s < 1e-12:
            if c < 0:
                raise Undef("half turn")
            return (0.0, (0.0, 0.0, 1.0), (0.0, 0.0, 0.0))
        return (math.atan2(s, c), tuple(x / (2 * s) for x in v), (0.0, 0.0, 0.0))

    def matrix(self, x):
        r = [[self.m.num(y) for y in self.m.seq(row)] for row in self.m.seq(x)]
        if not r or len({len(q) for q in r}) != 1 or len(r) > 8:
            raise Undef("shape")
        return r

    def x_numpy_linalg_inv(self, a, kw):
        A = self.matrix(a[0])
        n = len(A)
        if len(A[0]) != n:
            raise Undef("shape")
        A = [row + [1.0 if i == j else 0.0 for j in range(n)] for i, row in enumerate(A)]
        for i in range(n):
            p = max(range(i, n), key=lambda k: abs(A[k][i]))
            if abs(A[p][i]) < 1e-6:
                raise Undef("singular")
            A[i], A[p] = A[p], A[i]
            A[i] = [x / A[i][i] for x in A[i]]
            for k in range(n):
                if k != i:
                    f = A[k][i]
                    A[k] = [x - f * y for x, y in zip(A[k], A[i])]
        return tuple(tuple(row[n:]) for row in A)

    def x_numpy_linalg_eig(self, a, kw):
        """Of a rotation (3 by 3, or 4 by 4 about the origin): one eigenvector along the axis, a complex pair, and the fourth."""
        A = self.matrix(a[0])
        n = len(A)
        if n not in (3, 4) or len(A[0]) != n or n == 4 and any(A[i][3] or A[3][i] for i in range(3)):
            raise Undef("eig")
        angle, axis, _ = self.rotfrommat(a[0])
        if abs(math.sin(angle)) < 1e-6:
            raise Undef("eig")
        w = [complex(math.cos(angle), math.sin(angle)), complex(math.cos(angle), -math.sin(angle)), 1.0]
        x, y, z = axis
        k = min(range(3), key=lambda i: abs(axis[i]))
        e = [1.0 if i == k else 0.0 for i in range(3)]
        u = (y * e[2] - z * e[1], z * e[0] - x * e[2], x * e[1] - y * e[0])
        l = math.sqrt(sum(q * q for q in u)) * math.sqrt(2)
        u = tuple(q / l for q in u)
        v = (y * u[2] - z * u[1], z * u[0] - x * u[2], x * u[1] - y * u[0])
        W = [[complex(u[i], -v[i]), complex(u[i], v[i]), axis[i]] for i in range(3)]
        if n == 4:
            w.append(1.0)
            W = [row + [0.0] for row in W] + [[0.0, 0.0, 0.0, 1.0]]
        return (tuple(w), tuple(tuple(row) for row in W))

    def x_numpy_real(self, a, kw):
        def f(x):
            return tuple(f(y) for y in x) if type(x) is tuple else x.real if isinstance(x, complex) else self.m.num(x)
        return f(a[0])

    def x_numpy_linalg_solve(self, a, kw):
        return self.m.dot(self.x_numpy_linalg_inv(a[:1], {}), a[1])

    def x_numpy_linalg_multi_dot(self, a, kw):
        xs = self.m.seq(a[0])
        if len(xs) < 2:
            raise Undef("multi_dot")
        r = xs[0]
        for x in xs[1:]:
            r = self.m.dot(r, x)
        return r

    def x_numpy_matmul(self, a, kw):
        return self.m.dot(*a)

    def x_numpy_sum(self, a, kw):
        ax = kw.get("axis", a[1] if len(a) > 1 else None)
        x = a[0]
        if isinstance(x, (int, float)) and ax is None and not kw:
            return x
        if type(x) is not tuple or set(kw) - {"axis"}:
            return NotImplemented
        if ax is None or ax in (0, -1) and not any(type(y) is tuple for y in x):
            r = 0
            for y in self.m.flat(x):
                r = self.m.bin("+", r, int(y) if isinstance(y, bool) else y)
            return r
        if ax == 0:
            r = x[0]
            for y in x[1:]:
                r = self.m.bin("+", r, y)
            return r
        if ax in (1, -1) and all(type(y) is tuple and not any(type(z) is tuple for z in y) for y in x):
            return tuple(self.x_numpy_sum((y,), {}) for y in x)
        return NotImplemented

    def x_numpy_roots(self, a, kw):
        c = [self.m.num(x) for x in self.m.seq(a[0])]
        while c and abs(c[0]) < 1e-12:
            c = c[1:]
        if len(c) <= 1:
            return ()
        if len(c) == 2:
            return (-c[1] / c[0],)
        if len(c) == 3:
            d = c[1] ** 2 - 4 * c[0] * c[2]
            if d < 0:
                z = complex(0, math.sqrt(-d))
                return ((-c[1] - z) / (2 * c[0]), (-c[1] + z) / (2 * c[0]))
            return ((-c[1] - math.sqrt(d)) / (2 * c[0]), (-c[1] + math.sqrt(d)) / (2 * c[0]))
        return NotImplemented

    def x_numpy_isreal(self, a, kw):
        return tuple(type(x) is not complex for x in a[0]) if type(a[0]) is tuple else type(a[0]) is not complex

    x_numpy_real = lambda self, a, kw: self.m.lift(lambda x: x, a[0])

    def x_numpy_sort(self, a, kw):
        return tuple(sorted(self.m.num(x) for x in self.m.seq(a[0])))

    def x_numpy_outer(self, a, kw):
        x, y = [[self.m.num(q) for q in self.m.seq(z)] for z in a]
        return tuple(tuple(p * q for q in y) for p in x)

    def x_numpy_diag(self, a, kw):
        x = [self.m.seq(z) if type(z) is tuple else z for z in self.m.seq(a[0])]
        if x and type(x[0]) in (tuple, list):
            return tuple(r[i] for i, r in enumerate(x))
        return tuple(tuple(x[i] if i == j else 0.0 for j in range(len(x))) for i in range(len(x)))

    def x_numpy_trace(self, a, kw):
        A = self.matrix(a[0])
        return sum(A[i][i] for i in range(len(A)))

    def kws(self, kw):
        return tuple((k, self.v(v)) for k, v in kw)

    def o_call(self, t):
        f, a, kw = t.a
        a = self.vs(a)
        kw = self.kws(kw)
        m = self.m
        if f.op in ("ext", "bi"):
            n = f.a[0]
            h = getattr(self, "x_" + n.replace(".", "_"), None)
            if h is not None:
                try:
                    r = h(a, dict(kw))
                except (IndexError, TypeError, ValueError, ZeroDivisionError, OverflowError, KeyError):
                    raise Undef(n)
                if r is not NotImplemented:
                    return r
            m.touched.add(f.op + ":" + n)
            return m.pick(("call", n), a + tuple(x for p in kw for x in p))
        return m.pick(("call", "?"), (self.v(f),) + a + tuple(x for p in kw for x in p))

    # library functions with a meaning
    def x_set(self, a, kw):
        if not a:
            return self.setof(())
        return self.setof(self.m.seq(a[0]))

    def x_list(self, a, kw):
        return tuple(self.m.seq(a[0])) if len(a) == 1 and not kw else NotImplemented

    def x_bool(self, a, kw):
        return self.m.truth(a[0])

    def x_hasattr(self, a, kw):
        if type(a[0]) is Opq:
            return self.m.pick(("hasattr", a[1]), a, "$bool")
        return NotImplemented

    def x_round(self, a, kw):
        if len(a) == 1:
            return round(self.m.num(a[0]))
        return round(self.m.num(a[0]), int(a[1]))

    def x_numpy_ptp(self, a, kw):
        if len(a) != 1 or kw:
            return NotImplemented
        v = [self.m.num(x) for x in self.m.flat(a[0])]
        if not v:
            raise Undef("empty")
        return max(v) - min(v)

    def x_numpy_linalg_norm(self, a, kw):
        ax = kw.get("axis", a[2] if len(a) > 2 else None)
        if set(kw) - {"axis", "ord"} or (kw.get("ord") if "ord" in kw else a[1] if len(a) > 1 else None) not in (None, 2):
            return NotImplemented
        M = self.m.seq(a[0])
        if not M or type(M[0]) is not tuple:
            return math.sqrt(sum(self.m.num(x) ** 2 for x in self.m.flat(tuple(M)))) if ax in (None, 0, -1) else NotImplemented
        M = self.matrix(a[0])
        if ax in (1, -1):
            return tuple(math.sqrt(sum(x * x for x in row)) for row in M)
        if ax == 0:
            return tuple(math.sqrt(sum(row[j] ** 2 for row in M)) for j in range(len(M[0])))
        return NotImplemented

    def x_numpy_linalg_det(self, a, kw):
        if len(a) != 1 or kw or type(a[0]) is not tuple or self.m.shape(a[0]) not in ((2, 2), (3, 3), (4, 4)):
            return NotImplemented

        def det(M):
            return M[0][0] if len(M) == 1 else sum((-1) ** j * M[0][j] * det([row[:j] + row[j + 1:] for row in M[1:]]) for j in range(len(M)))
        return det([[self.m.num(x) for x in row] for row in a[0]])

    def x_numpy_round(self, a, kw):
        d = kw.get("decimals", a[1] if len(a) > 1 else 0)
        return self.m.lift(lambda x: round(x, int(d)), a[0])

    x_numpy_around = x_numpy_round

    def x_numpy_clip(self, a, kw):
        lo = a[1] if len(a) > 1 else kw.get("a_min", kw.get("min"))
        hi = a[2] if len(a) > 2 else kw.get("a_max", kw.get("max"))
        f = lambda x: x
        r = a[0]
        if lo is not None:
            r = self.m.lift(lambda x, y: y if x < y else x, r, lo)
        if hi is not None:
            r = self.m.lift(lambda x, y: y if x > y else x, r, hi)
        return r

    def x_numpy_sign(self, a, kw):
        return self.m.lift(lambda x: (x > 0) - (x < 0), a[0])

    def x_numpy_degrees(self, a, kw):
        return self.m.lift(math.degrees, a[0])

    def x_numpy_radians(self, a, kw):
        return self.m.lift(math.radians, a[0])

    x_numpy_rad2deg = x_math_degrees = x_numpy_degrees
    x_numpy_deg2rad = x_math_radians = x_numpy_radians

    def x_math_pow(self, a, kw):
        return self.m.bin("**", *a)

    x_pow = x_numpy_power = x_math_pow

    def x_numpy_append(self, a, kw):
        if len(a) == 2 and not kw and type(a[0]) in (tuple,):
            b = a[1] if type(a[1]) is tuple else (a[1],)
            return a[0] + b
        return NotImplemented

    def x_numpy_concatenate(self, a, kw):
        if not kw and len(a) == 1 and type(a[0]) is tuple and all(type(x) is tuple for x in a[0]):
            return tuple(y for x in a[0] for y in x)
        return NotImplemented

    def x_numpy_hstack(self, a, kw):
        if not kw and len(a) == 1 and type(a[0]) is tuple and any(type(x) is tuple for x in a[0]) and \
                all(type(x) is tuple or isinstance(x, (int, float)) for x in a[0]):
            return tuple(y for x in a[0] for y in (x if type(x) is tuple else (x,)))
        return NotImplemented

    def x_numpy_atleast_1d(self, a, kw):
        return a[0] if type(a[0]) is tuple else (a[0],) if isinstance(a[0], (int, float)) else NotImplemented

    def x_numpy_insert(self, a, kw):
        if kw or len(a) != 3 or type(a[0]) is not tuple or not isinstance(a[1], int):
            return NotImplemented
        x = list(a[0])
        x[int(a[1]):int(a[1])] = list(a[2]) if type(a[2]) is tuple else [a[2]]
        return tuple(x)

    def x_numpy_searchsorted(self, a, kw):
        m = self.m
        if len(a) != 2 or type(a[0]) is not tuple or set(kw) - {"side"}:
            return NotImplemented
        right = kw.get("side", "left") == "right"

        def f(x):
            n = 0
            for q in a[0]:
                if m.lt1(m.num(q), x, not right):
                    n += 1
            return n
        return m.lift(f, a[1])

    def x_numpy_where(self, a, kw):
        if len(a) == 1 and not kw:
            v = a[0]
            if isinstance(v, bool):
                v = (v,)
            if self.arr(v) or v == ():
                return (tuple(i for i, x in enumerate(v) if x),)
        return NotImplemented

    x_numpy_nonzero = x_numpy_where

    def x_numpy_heaviside(self, a, kw):
        return self.m.lift(lambda x, h: h if x == 0 else (1.0 if self.m.lt1(0, x, True) else 0.0), *a)

    def x_numpy_interp(self, a, kw):
        m = self.m
        a = tuple(tuple(m.seq(q)) if type(q) is Range else q for q in a)
        if len(a) != 3 or type(a[1]) is not tuple or type(a[2]) is not tuple or not isinstance(a[0], (int, float)):
            return NotImplemented
        xs, ys, x = [m.num(q) for q in a[1]], [m.num(q) for q in a[2]], a[0]
        if not xs or len(xs) != len(ys):
            raise Undef("interp")
        if m.lt1(x, xs[0], True):
            return m.num(kw.get("left", ys[0])) if "left" not in kw else m.ck(m.num(kw["left"]))
        if m.lt1(xs[-1], x, True):
            return m.ck(m.num(kw.get("right", ys[-1])))
        j = 0
        for i, q in enumerate(xs):
            if m.lt1(q, x, False):
                j = i
        if j == len(xs) - 1 or x == xs[j]:
            return ys[j]
        return ys[j] + (ys[j + 1] - ys[j]) * ((x - xs[j]) / (xs[j + 1] - xs[j]))

    def x_numpy_stack(self, a, kw):
        if len(a) == 1 and not kw and type(a[0]) is tuple:
            return a[0]
        return NotImplemented

    x_numpy_vstack = x_numpy_stack

    def x_numpy_transpose(self, a, kw):
        return self.m.attr(a[0], "T")

    def x_itertools_chain(self, a, kw):
        return tuple(y for x in a for y in self.m.seq(x))

    def x_itertools_chain_from_iterable(self, a, kw):
        return tuple(y for x in self.m.seq(a[0]) for y in self.m.seq(x))

    def x_numpy_isinf(self, a, kw):
        return self.m.lift(lambda x: math.isinf(x), a[0])

    x_math_isinf = x_numpy_isinf

    def x_numpy_isnan(self, a, kw):
        return self.m.lift(lambda x: x != x, a[0])

    x_math_isnan = x_numpy_isnan

    def x_numpy_flatnonzero(self, a, kw):
        if self.arr(a[0]):
            return tuple(i for i, x in enumerate(a[0]) if x)
        return NotImplemented

    def x_numpy_argmin(self, a, kw):
        xs = [self.m.num(x) for x in self.m.seq(a[0])]
        if not xs or kw:
            raise Undef("empty")
        for i, x in enumerate(xs):
            for y in xs[:i]:
                self.m.lt1(x, y, True)
        return xs.index(min(xs))

    def x_numpy_argmax(self, a, kw):
        xs = [self.m.num(x) for x in self.m.seq(a[0])]
        if not xs or kw:
            raise Undef("empty")
        return xs.index(max(xs))

    def x_numpy_array_equal(self, a, kw):
        return self.m.eq(a[0], a[1])

    def x_numpy_ndim(self, a, kw):
        if type(a[0]) is tuple:
            return len(self.m.shape(a[0]))
        if isinstance(a[0], (int, float)):
            return 0
        return NotImplemented

    def x_numpy_size(self, a, kw):
        if len(a) != 1 or kw:
            return NotImplemented
        if isinstance(a[0], (int, float)):
            return 1
        return self.m.attr(a[0], "size")

    def x_numpy_shape(self, a, kw):
        return self.m.attr(a[0], "shape")

    # paths are text, and what a path leads to is the same whoever asks
    def ospath(self, f, a, kw):
        if len(a) == 1 and not kw and isinstance(a[0], str):
            return getattr(posixpath, f)(str(a[0]))
        return NotImplemented

    def x_os_path_splitext(self, a, kw):
        return self.ospath("splitext", a, kw)

    def x_os_path_basename(self, a, kw):
        return self.ospath("basename", a, kw)

    def x_os_path_dirname(self, a, kw):
        return self.ospath("dirname", a, kw)

    def x_os_path_split(self, a, kw):
        return self.ospath("split", a, kw)

    def x_os_path_normpath(self, a, kw):
        return self.ospath("normpath", a, kw)

    def x_os_path_isabs(self, a, kw):
        return self.ospath("isabs", a, kw)

    def onfile(self, a, kw, f):
        """f of what is at a path: None, a folder, or a file of some size."""
        if len(a) != 1 or kw:
            return NotImplemented
        if not self.m.truth(self.m.pick(("call", "os.path.exists"), a, "$bool")):
            return f(None)
        return f([0, 4096, "dir", 1, 123][RNG(h64((self.m.seed, "file", self.m.key(a[0])))).i(5)])

    def x_os_path_exists(self, a, kw):
        return self.onfile(a, kw, lambda s: s is not None)

    def x_os_path_isfile(self, a, kw):
        return self.onfile(a, kw, lambda s: type(s) is int)

    def x_os_path_isdir(self, a, kw):
        return self.onfile(a, kw, lambda s: s == "dir")

    def x_os_path_getsize(self, a, kw):
        r = self.onfile(a, kw, lambda s: s)
        if r is None:
            raise Undef("no such file")
        return 4096 if r == "dir" else r

    def x_os_path_join(self, a, kw):
        return self.m.fn("path/", *a) if len(a) == 2 else NotImplemented

    def x_math_copysign(self, a, kw):
        return self.m.lift(math.copysign, *a)

    x_numpy_copysign = x_math_copysign

    def flatnums(self, a, kw):
        if len(a) != 1 or kw or type(a[0]) is not tuple:
            return None
        xs = [self.m.num(x) for x in self.m.flat(a[0])]
        if not xs:
            raise Undef("empty")
        return xs

    def x_numpy_median(self, a, kw):
        xs = self.flatnums(a, kw)
        if xs is None:
            return NotImplemented
        xs.sort()
        n = len(xs)
        return xs[n // 2] if n % 2 else (xs[n // 2 - 1] + xs[n // 2]) / 2

    def x_numpy_average(self, a, kw):
        if set(kw) - {"weights"} or len(a) > 1 or type(a[0]) is not tuple:
            return NotImplemented
        xs = [self.m.num(x) for x in a[0]]
        ws = [self.m.num(x) for x in self.m.seq(kw["weights"])] if kw.get("weights") is not None else [1.0] * len(xs)
        if len(ws) != len(xs) or not sum(ws):
            raise Undef("div")
        return sum(x * w for x, w in zip(xs, ws)) / sum(ws)

    def x_numpy_var(self, a, kw):
        xs = self.flatnums(a, kw)
        if xs is None:
            return NotImplemented
        c = sum(xs) / len(xs)
        return sum((x - c) ** 2 for x in xs) / len(xs)

    def x_numpy_std(self, a, kw):
        v = self.x_numpy_var(a, kw)
        return v if v is NotImplemented else math.sqrt(v)

    def x_numpy_cumprod(self, a, kw):
        if len(a) != 1 or kw or type(a[0]) is not tuple:
            return NotImplemented
        s, out = 1, []
        for x in a[0]:
            s = s * self.m.num(x)
            out.append(s)
        return tuple(out)

    def x_numpy_count_nonzero(self, a, kw):
        if len(a) != 1 or kw or type(a[0]) is not tuple:
            return NotImplemented
        return sum(1 for x in self.m.flat(a[0]) if self.m.truth(x))

    def x_numpy_linspace(self, a, kw):
        end = kw.pop("endpoint", True)
        n = kw.pop("num", a[2] if len(a) > 2 else 50)
        if kw or len(a) not in (2, 3) or not isinstance(n, (int, float)) or n > 64:
            return NotImplemented
        x, y, n = self.m.num(a[0]), self.m.num(a[1]), int(n)
        d = (n - 1 if self.m.truth(end) else n) or 1
        return tuple(x + (y - x) * i / d for i in range(n))

    def x_numpy_reciprocal(self, a, kw):
        return self.m.lift(lambda x: 1.0 / x, a[0]) if len(a) == 1 and not kw else NotImplemented

    def x_numpy_true_divide(self, a, kw):
        return self.m.bin("/", *a) if len(a) == 2 and not kw else NotImplemented

    def x_numpy_floor_divide(self, a, kw):
        return self.m.lift(lambda x, y: x // y, *a) if len(a) == 2 and not kw else NotImplemented

    def x_numpy_logical_xor(self, a, kw):
        return self.m.truth(a[0]) != self.m.truth(a[1]) if len(a) == 2 and not kw and not any(type(x) is tuple for x in a) else NotImplemented

    def x_math_fsum(self, a, kw):
        return sum(self.m.num(x) for x in self.m.seq(a[0]))

    def x_math_dist(self, a, kw):
        p, q = [[self.m.num(x) for x in self.m.seq(z)] for z in a]
        if len(p) != len(q):
            raise Undef("shapes")
        return math.sqrt(sum((x - y) ** 2 for x, y in zip(p, q)))

    def x_divmod(self, a, kw):
        x, y = self.m.num(a[0]), self.m.num(a[1])
        if y == 0:
            raise Undef("div")
        return divmod(x, y)

    def x_numpy_diff(self, a, kw):
        xs = self.m.seq(a[0])
        if kw or len(a) > 1:
            return NotImplemented
        return tuple(self.m.bin("-", y, x) for x, y in zip(xs, xs[1:]))

    def x_numpy_cumsum(self, a, kw):
        if type(a[0]) is not tuple or kw:
            return NotImplemented
        s, out = 0, []
        for x in self.m.seq(a[0]):
            s = s + self.m.num(x)
            out.append(s)
        return tuple(out)

    def x_int(self, a, kw):
        if len(a) == 2 and isinstance(a[0], str) and isinstance(a[1], (int, float)) and not kw:
            try:
                return int(str(a[0]), int(a[1]))
            except ValueError:
                raise Undef("int literal")
        return NotImplemented

    def x_anytree_PreOrderIter(self, a, kw):
        # a pre-order walk starts at the root it is given
        r = self.m.pick(("call", "anytree.PreOrderIter"), a)
        return (a[0],) + tuple(self.m.seq(r))[1:] if len(a) == 1 and not kw else r

    def x_operator_itemgetter(self, a, kw):
        return NotImplemented

    STRM = {"lower", "upper", "strip", "lstrip", "rstrip", "startswith", "endswith", "split", "replace", "join",
            "isdigit", "title", "capitalize", "splitlines", "rsplit", "partition", "count", "find", "format",
            "isalnum", "isalpha", "isidentifier"}

    SETM = {"union": "|", "intersection": "&", "difference": "-", "symmetric_difference": "^", "issubset": "<=", "isdisjoint": "disjoint", "issuperset": ">="}

    def o_mcall(self, t):
        n, b, a, kw = t.a
        m = self.m
        if b.op == "bi" and b.a[0] == "dict" and n == "fromkeys" and 1 <= len(a) <= 2 and not kw:
            a = self.vs(a)
            return Dict({m.key(x): (x, a[1] if len(a) > 1 else None) for x in m.seq(a[0])})
        bv = self.v(b)
        a = self.vs(a)
        kw = self.kws(kw)
        if isinstance(bv, str) and n in self.STRM and not kw:
            try:
                if n == "join":
                    r = str(bv).join([self.text(x) for x in m.seq(a[0])])
                elif n == "format":
                    r = self.strformat(str(bv), a)
                    if r is None:
                        return m.fn("strfmt", bv, a)
                else:
                    r = getattr(str(bv), n)(*[str(x) if isinstance(x, str) else x for x in a])
                return tuple(r) if isinstance(r, (list, tuple)) else r
            except (TypeError, ValueError):
                raise Undef(n)
        if type(bv) is tuple and n == "isin" and len(a) == 1 and not kw:
            xs = {m.key(x) for x in m.seq(a[0])}
            return tuple(m.key(x) in xs for x in bv)
        if m.isset(bv) and not kw and len(a) == 1 and n in self.SETM:
            return m.setop("<=", a[0], bv) if n == "issuperset" else m.setop(self.SETM[n], bv, a[0])
        if m.isset(bv) and n == "copy" and not a:
            return bv
        if type(bv) is Dict:
            if n in ("values",) and not a:
                return tuple(v for _, v in bv.items.values())
            if n == "keys" and not a:
                return tuple(k for k, _ in bv.items.values())
            if n == "most_common" and len(a) <= 1:
                r = sorted(bv.items.values(), key=lambda kv: -kv[1])
                return tuple(r[:int(a[0])] if a and a[0] is not None else r)
            if n == "elements" and not a:
                return tuple(k for k, c in bv.items.values() for _ in range(c))
        if type(bv) is tuple:
            if n == "index" and len(a) == 1:
                for i, x in enumerate(bv):
                    m.learn_eq(x, a[0])
                    if m.eq(x, a[0]):
                        return i
                raise Undef("absent")
            if n == "count" and len(a) == 1:
                return sum(1 for x in bv if m.eq(x, a[0]))
            if n == "transpose" and not a:
                return m.attr(bv, "T")
            if n == "squeeze" and not a and len(bv) > 1 and not any(type(x) is tuple for x in bv):
                return bv
        if n == "values" and not a and type(bv) is Opq:
            return tuple(v for _, v in self.opitems(bv))
        if n == "keys" and not a and type(bv) is Opq:
            return tuple(k for k, _ in self.opitems(bv))
        if bv is None:
            raise Undef("method of None")
        if type(bv) is Opq and bv.info is not None and n in bv.info:
            return bv.info[n](self.m, a + tuple(v for _, v in kw))
        m.touched.add("mcall:" + n)
        return m.pick(("mcall", n), (bv,) + a + tuple(x for p in kw for x in p))

    def opitems(self, d):
        n = self.m.len(d)
        out = []
        for i in range(n):
            k = self.m.pick(("key", self.m.root(d)), (d, i))
            out.append((k, self.m.idx(d, k)))
        return out

    def text(self, x):
        if isinstance(x, str):
            return str(x)
        if isinstance(x, (int, float)) and not isinstance(x, bool):
            return repr(float(x)) if not float(x).is_integer() else repr(int(x))
        return "«%x»" % (h64(self.m.key(x)) & 0xffffff)

    def strformat(self, f, a):
        """'{} {1}'.format(...), without conversions and format specifications."""
        out, n = [], 0
        try:
            for lit, name, fs, conv in string.Formatter().parse(f):
                out.append(lit)
                if name is None:
                    continue
                if conv or not (name == "" or name.isdigit()):
                    return None
                i = int(name) if name else n
                n += name == ""
                if i >= len(a):
                    return None
                r = self.formatted(a[i], fs) if fs else self.text(a[i])
                if r is None:
                    return None
                out.append(r)
        except ValueError:
            return None
        return "".join(out)

    def o_pcall(self, t):
        n, rest, kw = t.a
        kv = self.kws(kw)
        vs = self.vs(rest)
        # tolerances written down as constants: told apart though all of them are nearly nought
        tiny = tuple("%s %.6e" % (i, v) for i, v, x in [(i, v, x) for i, (v, x) in enumerate(zip(vs, rest))] +
                     [(k, v, x) for (k, v), (_, x) in zip(kv, kw)] if isinstance(v, float) and 1e-15 < abs(v) < 1e-8 and fixed(x))
        return self.m.pick(("pcall", n), vs + tuple(x for p in kv for x in p) + tiny)

    def o_new(self, t):
        c, kw = t.a
        n = c.name if isinstance(c, ClassRef) else c
        kv = self.kws(kw)
        k = ("new", n, tuple((a, self.m.key(b)) for a, b in kv))
        info = {a: b for a, b in kv} if not isinstance(c, ClassRef) else None
        return Opq(h64((self.m.seed, k)), ("new", n), n, info)

    def o_rec(self, t):
        return Rec(t.a[0], {k: self.v(x) for k, x in t.a[1]})

    def o_with(self, t):
        b = self.v(t.a[0])
        fs = {k: self.v(x) for k, x in t.a[1]}
        if type(b) is Rec:
            d = dict(b.fields)
            d.update(fs)
            return Rec(b.cls, d)
        if type(b) is With:
            d = dict(b.fields)
            d.update(fs)
            return With(b.base, d)
        return With(b, fs)

    def o_enum(self, t):
        return Enum(t.a[0], t.a[1])

    def named(self, kind, n):
        return Opq(h64(("named", kind, n)), (kind, n), "*" + kind)

    def o_class(self, t):
        return self.named("class", t.a[0].name)

    def o_func(self, t):
        return self.named("func", t.a[0].name)

    def o_bound(self, t):
        return self.m.pick(("bound", t.a[0].name), (self.v(t.a[1]),))

    def o_mod(self, t):
        return self.named("mod", t.a[0].m.rel)

    def o_ext(self, t):
        self.m.touched.add("ext:" + t.a[0])
        return self.named("ext", t.a[0])

    def o_bi(self, t):
        self.m.touched.add("bi:" + t.a[0])
        return self.named("bi", t.a[0])

    def o_glob(self, t):
        self.m.touched.add("ext:" + t.a[0])
        return self.named("glob", t.a[0])

    def o_super(self, t):
        return self.named("super", "")

    def o_typeof(self, t):
        v = self.v(t.a[0])
        if type(v) is Opq:
            return Opq(h64(("named", "class", v.cls)), ("class", v.cls), "*class") if v.cls else self.m.fn("typeof", v)
        return self.named("class", "py" + type(v).__name__.lower())

    def o_lam(self, t):
        B = t.a[0]
        # told apart by what they return for an arbitrary argument and for a few numbers
        ks = []
        for a in (None, 0.63, 2.4, 613.0):
            args = [Opq(h64((self.m.seed, "lamarg", i)), ("lamarg", i)) if a is None else a * (1 + i / 8) for i in range(B.n)]
            try:
                ks.append(self.m.key(self.applylam(B, args)))
            except Undef as x:
                ks.append(("undef",))
        k = tuple(ks)
        return Opq(h64(("lam", k)), ("lam",), "*lam", {"$lam": B})

    def applylam(self, B, args):
        old = self.env.get(B)
        it = Iter()
        self.uid += 1
        it.uid, it.st, it.n, it.L = self.uid, dict(enumerate(args)), 0, B
        self.env[B] = it
        try:
            return self.v(B.body)
        finally:
            if old is None:
                del self.env[B]
            else:
                self.env[B] = old

    def o_partial(self, t):
        return self.m.fn("partial", self.v(t.a[0]), self.vs(t.a[1]), tuple(x for p in self.kws(t.a[2]) for x in p))

    def o_star(self, t):
        return ("*", self.v(t.a[0]))

    # containers
    def o_concat(self, t):
        a, b = self.v(t.a[0]), self.v(t.a[1])
        if type(a) is tuple and type(b) is tuple:
            return self.m.bin("+", a, b)
        try:
            return tuple(self.m.seq(a)) + tuple(self.m.seq(b))
        except Undef:
            return self.m.fn("concat", a, b)

    def o_pcat(self, t):
        a, b = self.v(t.a[0]), self.v(t.a[1])
        if isinstance(a, str) and isinstance(b, str):
            return str(a) + str(b)
        return tuple(self.m.seq(a)) + tuple(self.m.seq(b))

    def o_repeat(self, t):
        a, b = self.v(t.a[0]), self.v(t.a[1])
        if isinstance(b, float) and b == int(b):
            b = int(b)
        if type(a) is tuple and isinstance(b, int) and b < 64:
            return a * b
        if isinstance(b, tuple):
            return self.m.bin("*", a, b)
        raise Undef("repeat")

    def o_nparr(self, t):
        return self.v(t.a[0])

    def o_append(self, t):
        a = self.v(t.a[0])
        if type(a) is Opq:
            a = tuple(self.m.seq(a))
        if type(a) is tuple:
            return a + (self.v(t.a[1]),)
        return self.m.fn("append", a, self.v(t.a[1]))

    def o_store(self, t):
        b, i, v = self.vs(t.a)
        m = self.m
        if type(b) is Dict:
            d = dict(b.items)
            d[m.key(i)] = (i, v)
            return Dict(d)
        if type(b) is tuple:
            if isinstance(i, float) and i == int(i):
                i = int(i)
            if isinstance(i, int):
                if not -len(b) <= i < len(b):
                    raise Undef("store")
                x = list(b)
                x[int(i)] = v
                return tuple(x)
            if type(i) is tuple and len(i) == 2 and all(isinstance(q, int) for q in i):
                if not -len(b) <= i[0] < len(b):
                    raise Undef("store")
                x = list(b)
                row = list(x[i[0]])
                if not -len(row) <= i[1] < len(row):
                    raise Undef("store")
                row[i[1]] = v
                x[i[0]] = tuple(row)
                return tuple(x)
            if type(i) is tuple and len(i) == 2 and all(isinstance(q, int) or type(q) is Slice or chosen(q) for q in i) \
                    and (all(not chosen(q) for q in i) or any(type(q) is Slice for q in i)) and all(type(row) is tuple for row in b):
                return self.store2(b, i, v)
            if type(i) is Slice:
                n = len(b)
                ix = list(range(n))[slice(*[None if q is None else int(self.m.num(q)) for q in i.a])]
                x = list(b)
                if type(v) is tuple:
                    if len(v) != len(ix):
                        raise Undef("store")
                    for j, y in zip(ix, v):
                        x[j] = y
                else:
                    for j in ix:
                        x[j] = v
                return tuple(x)
            if self.arr(i) and len(i) == len(b):
                vs = list(v) if type(v) is tuple else None
                return tuple((vs.pop(0) if vs is not None and vs else v) if c else x for x, c in zip(b, i))
        if type(b) is Opq and b.info is not None and "$store" in b.info:
            st = b.info["$store"]
        else:
            st = {}
        st = dict(st)
        base = b.info["$base"] if type(b) is Opq and b.info is not None and "$base" in b.info else b
        try:
            if m.eq(m.idx(base, i), v):
                st.pop(m.key(i), None)
            else:
                st[m.key(i)] = (i, v)
        except Undef:
            st[m.key(i)] = (i, v)
        if not st:
            return base
        k = ("store", m.key(base), tuple(sorted(((q, m.key(x[1])) for q, x in st.items()), key=repr)))
        return Opq(h64((m.seed, k)), ("store", m.root(base)), None, {"$store": st, "$base": base})

    def store2(self, b, i, v):
        ix = []
        for q, n in zip(i, (len(b), len(b[0]) if b else 0)):
            if type(q) is Slice:
                ix.append(list(range(n))[slice(*[None if z is None else int(self.m.num(z)) for z in q.a])])
            elif type(q) is tuple:
                if not all(-n <= z < n for z in q):
                    raise Undef("store")
                ix.append([z % n for z in q])
            elif -n <= q < n:
                ix.append(q % n)
            else:
                raise Undef("store")
        rows = [list(row) for row in b]
        r, c = ix

        def get(x, n):
            if type(x) is not tuple:
                x = tuple(self.m.seq(x)) if type(x) is Opq else x
            if type(x) is tuple:
                if len(x) != n:
                    raise Undef("store")
                return list(x)
            return [x] * n
        if isinstance(r, int):
            for k, y in zip(c, get(v, len(c))):
                rows[r][k] = y
        elif isinstance(c, int):
            for k, y in zip(r, get(v, len(r))):
                rows[k][c] = y
        else:
            vs = get(v, len(r)) if type(v) is tuple and v and type(v[0]) is tuple else [v] * len(r)
            for k, y in zip(r, vs):
                for kk, z in zip(c, get(y, len(c))):
                    rows[k][kk] = z
        return tuple(tuple(row) for row in rows)

    def o_delitem(self, t):
        b, i = self.vs(t.a)
        if type(b) is Dict:
            d = dict(b.items)
            if self.m.key(i) not in d:
                raise Undef("del")
            del d[self.m.key(i)]
            return Dict(d)
        return self.m.fn("delitem", b, i)

    def o_dget(self, t):
        d, k = self.v(t.a[0]), self.v(t.a[1])
        m = self.m
        if type(d) is Dict:
            kk = m.key(k)
            return d.items[kk][1] if kk in d.items else self.v(t.a[2])
        if d is None:
            raise Undef("get")
        if self.contains(d, k):
            return m.idx(d, k)
        return self.v(t.a[2])

    def o_getattr(self, t):
        x = t.a[0]
        b = self.v(x.a[0])
        if type(b) is Opq and not self.m.pick(("hasattr", x.a[1]), (b, x.a[1]), "$bool"):
            return self.v(t.a[1])
        return self.v(x)

    def o_sorted(self, t):
        m = self.m
        xs = m.seq(self.v(t.a[0]))
        kw = dict(t.a[1])
        rev = m.truth(self.v(kw["reverse"])) if "reverse" in kw else False
        if "key" in kw:
            f = self.v(kw["key"])
            if type(f) is Opq and f.info and "$lam" in f.info:
                ks = [self.applylam(f.info["$lam"], [x]) for x in xs]
            else:
                ks = [m.fn("keyfn", f, x) for x in xs]
        else:
            ks = xs
        ks = [tuple(m.num(y) if not isinstance(y, str) else y for y in k) if type(k) is tuple else
              (k if isinstance(k, str) else m.num(k)) for k in ks]
        try:
            for i, x in enumerate(ks):
                for y in ks[:i]:
                    if isinstance(x, float) and isinstance(y, float):
                        m.lt1(x, y, True)
            o = sorted(range(len(xs)), key=lambda i: ks[i], reverse=rev)
        except TypeError:
            raise Undef("sort")
        return tuple(xs[i] for i in o)

    def o_reversed(self, t):
        return tuple(reversed(self.m.seq(self.v(t.a[0]))))

    def o_mut(self, t):
        n, b, a = t.a[0], self.v(t.a[1]), self.vs(t.a[2])
        m = self.m
        if n == "insert" and type(b) is tuple and isinstance(a[0], int):
            x = list(b)
            x.insert(int(a[0]), a[1])
            return tuple(x)
        if n == "pop" and type(b) is tuple:
            x = list(b)
            if not x or (a and not -len(x) <= a[0] < len(x)):
                raise Undef("pop")
            x.pop(*[int(y) for y in a])
            return tuple(x)
        if n == "pop" and type(b) is Dict:
            d = dict(b.items)
            if m.key(a[0]) not in d and len(a) < 2:
                raise Undef("pop")
            d.pop(m.key(a[0]), None)
            return Dict(d)
        if n == "update" and type(b) is Dict and type(a[0]) is Dict:
            d = dict(b.items)
            d.update(a[0].items)
            return Dict(d)
        if n == "setdefault" and type(b) is Dict:
            d = dict(b.items)
            d.setdefault(m.key(a[0]), (a[0], a[1] if len(a) > 1 else None))
            return Dict(d)
        if n == "add" and type(b) is Opq:
            return m.fn("setadd", b, a[0])
        if n == "fill" and type(b) is tuple:
            return tuple(a[0] for _ in b)
        return m.fn("mut" + n, b, a)

    def o_mutval(self, t):
        n, b, a = t.a[0], self.v(t.a[1]), self.vs(t.a[2])
        m = self.m
        if n == "pop" and type(b) is tuple:
            x = list(b)
            if not x or (a and not -len(x) <= a[0] < len(x)):
                raise Undef("pop")
            return x.pop(*[int(y) for y in a])
        if n == "pop" and type(b) is Dict:
            k = m.key(a[0])
            if k in b.items:
                return b.items[k][1]
            if len(a) > 1:
                return a[1]
            raise Undef("pop")
        if n == "pop" and type(b) is Opq and a:
            if self.contains(b, a[0]):
                return m.idx(b, a[0])
            if len(a) > 1:
                return a[1]
            raise Undef("pop")
        if n == "setdefault" and type(b) is Dict:
            k = m.key(a[0])
            return b.items[k][1] if k in b.items else (a[1] if len(a) > 1 else None)
        if n in ("add", "update", "insert", "fill", "clear", "discard"):
            return None
        return m.fn("mutval" + n, b, a)

    def o_filled(self, t):
        sh, f = self.v(t.a[0]), self.v(t.a[1])

        def mkf(s):
            n = s[0]
            if isinstance(n, float) and n == int(n):
                n = int(n)
            if not isinstance(n, int):
                if type(n) is Opq:
                    self.m.sigs.add(self.m.sigs.num, n.sig)
                    self.m.sigs.add(self.m.sigs.ints, n.sig)
                if type(n) is Num and n.sig:
                    self.m.sigs.add(self.m.sigs.ints, n.sig)
                raise Undef("shape")
            if n > 64 or n < 0:
                raise Undef("shape")
            if len(s) == 1:
                return (f,) * n
            return (mkf(s[1:]),) * n
        return mkf(sh if type(sh) is tuple else (sh,))

    def o_alloc(self, t):
        role = self.roles.get(t.a[0], "local")
        vals = [self.v(x) for x in t.a[1:]]
        return Opq(h64(("alloc", role) + tuple(self.m.key(v) for v in vals)), ("alloc", role))

    def o_carray(self, t):
        g = Opq(h64("garbage"), ("garbage",))
        n = self.v(t.a[1])
        k = int(n) if isinstance(n, (int, float)) else 64
        return (g,) * min(k, 64)

    def o_eye(self, t):
        n = self.v(t.a[0])
        if not isinstance(n, int) or n > 8:
            raise Undef("eye")
        return tuple(tuple(1.0 if i == j else 0.0 for j in range(n)) for i in range(n))

    def o_colstack(self, t):
        xs = [[x] if isinstance(x, (int, float)) else self.m.seq(x) for x in self.m.seq(self.v(t.a[0]))]
        if len({len(x) for x in xs}) != 1:
            raise Undef("shape")
        return tuple(zip(*xs))

    def o_float(self, t):
        v = self.v(t.a[0])
        if isinstance(v, str):
            try:
                return float(v)
            except ValueError:
                raise Undef("float")
        if isinstance(v, bool):
            return float(v)
        if isinstance(v, (float, int)):
            return v
        if type(v) is Opq:
            return self.m.num(v)
        if type(v) is tuple and len(v) == 1:
            return self.m.num(v[0])
        raise Undef("complex" if type(v) is complex else "number None" if v is None else "float")

    def o_trunc(self, t):
        v = self.v(t.a[0])
        if isinstance(v, str):
            try:
                return int(v)
            except ValueError:
                return self.m.fn("int", v)
        x = self.m.num(v)
        if math.isinf(x):
            raise Undef("int")
        return int(x)

    def o_astype(self, t):
        v, d = self.v(t.a[0]), self.v(t.a[1])
        if isinstance(d, str) and d.startswith(("int", "uint")):
            try:
                return self.m.lift(lambda x: int(x), v)
            except Undef:
                pass
        if isinstance(d, str) and d.startswith("float"):
            return v
        return self.m.fn("astype", v, d)

    def o_isclose(self, t):
        a, b, rt, at = self.vs(t.a)
        m = self.m

        def f(x, y):
            if math.isinf(x) or math.isinf(y):
                return x == y
            return m.lt1(abs(x - y), m.num(at) + m.num(rt) * abs(y), False)
        for x, y in ((a, b), (b, a)):
            s = m.sigof(x)
            if s is not None and s[0] != "group":
                if type(y) in (int, float):
                    m.sigs.const(s, y)
                elif m.sigof(y) is not None and m.sigof(y)[0] != "group":
                    m.sigs.union(s, m.sigof(y))
        if type(a) is Opq and type(b) is Opq and False:
            pass
        return m.lift(f, a, b)

    def o_finite(self, t):
        v = self.v(t.a[0])
        s = self.m.sigof(v)
        if s is not None and s[0] != "group":
            self.m.sigs.add(self.m.sigs.inf, s)
        if v is math.inf or v is None:
            if v is None:
                raise Undef("finite")
        if type(v) is complex:
            return True
        return self.m.lift(lambda x: not math.isinf(x) and x == x, v)

    def o_anyof(self, t):
        v = self.v(t.a[0])
        if isinstance(v, bool):
            return v
        xs = self.m.seq(v)
        if type(v) is tuple:
            xs = self.m.flat(v)
        return any(self.m.truth(x) for x in xs)

    def o_allof(self, t):
        v = self.v(t.a[0])
        if isinstance(v, bool):
            return v
        xs = self.m.seq(v)
        if type(v) is tuple:
            xs = self.m.flat(v)
        return all(self.m.truth(x) for x in xs)

    def o_fstr(self, t):
        return "".join(self.text(self.v(x)) for x in t.a[0])

    def formatted(self, v, f):
        """A number or a string under a format specification, or None where that is not known."""
        try:
            if isinstance(v, str):
                return format(str(v), f)
            if isinstance(v, (int, float)) and not isinstance(v, bool) and f:
                if f[-1] in "dxXob":
                    return format(int(v), f) if float(v).is_integer() else None
                if f[-1] in "eEfFgG%":
                    return format(float(v), f)
        except (ValueError, OverflowError):
            pass
        return None

    def o_fmt(self, t):
        f = t.a[1].a[0]
        if t.a[2].a[0] in (-1, None) and len(f) > 3 and f[:2] == "f" + f[-1] and "{" not in f:
            r = self.formatted(self.v(t.a[0]), f[2:-1])
            if r is not None:
                return r
        return "‹%s|%s|%s›" % (self.text(self.v(t.a[0])), t.a[1].a[0], t.a[2].a[0])

    def o_load(self, t):
        p = self.v(t.a[0])
        if type(p) is not Ptr:
            if type(p) is tuple:
                return p[0]
            raise Undef("load")
        o = p.off
        if isinstance(o, float):
            if o != int(o):
                raise Undef("load")
            o = int(o)
        return self.m.pick(("mem", p.sig), (p.base[2] if False else Ptr(p.base, o, p.sig),), self.memdom(p.sig))

    def memdom(self, sig):
        return None

    def o_box(self, t):
        return self.v(t.a[0])

    def o_structval(self, t):
        return Rec(_Struct, {k: self.safe(x) for k, x in t.a[0]})

    def safe(self, t):
        try:
            return self.v(t)
        except Undef:
            return Opq(h64("garbage"), ("garbage",))

    def o_counter(self, t):
        m = self.m
        if not t.a:
            return Dict({})
        d = {}
        for x in m.seq(self.v(t.a[0])):
            k = m.key(x)
            d[k] = (x, d[k][1] + 1 if k in d else 1)
        return Dict(d)

    def o_raises(self, t):
        # does evaluating the term raise?
        x = t.a[0]
        try:
            v = self.v(x)
        except Unfinished:
            raise
        except Undef:
            return True
        m = self.m
        if x.op == "idx" and type(self.v(x.a[0])) in (tuple, Dict):
            return False
        if x.op == "mcall" and x.a[0] in ("index", "count") and type(self.v(x.a[1])) is tuple:
            return False
        try:
            k = m.key(v)
        except Undef:
            k = None
        return h64((m.seed, "raises", k, x.op)) % 4 == 0

    def o_isexc(self, t):
        e = self.v(t.a[0])
        n = t.a[1]
        if isinstance(n, T):
            n = repr(self.m.key(self.v(n)))
        if type(e) is Opq and e.cls == "*exc":
            # an unknown exception has one class: a random one of those asked for
            self.m.sigs.cls(("exc",), n)
            cs = self.m.sigs.classes[("exc",)]
            c = (cs + ["*other"])[e.h % (len(cs) + 1)]
            return c == n or c == "KeyError" and n == "LookupError"
        if type(e) is Opq and e.sig and e.sig[0] == "exc":
            return n in (e.cls, "Exception", "BaseException") or \
                n == "LookupError" and e.cls in ("IndexError", "KeyError") or \
                n == "ArithmeticError" and e.cls == "ZeroDivisionError"
        return self.m.pick(("isexc", n), (e,), "$bool")

    def o_exc(self, t):
        try:
            k = self.m.key(self.v(t.a[0]))
        except Unfinished:
            raise
        except Undef as x:
            k = ("undef",)
            c = {"index": "IndexError", "missing key": "KeyError", "/": "ZeroDivisionError", "absent": "ValueError"}.get(str(x))
            if c is not None:
                return Opq(h64((self.m.seed, "exc", c)), ("exc", c), c)
        return Opq(h64((self.m.seed, "exc", k)), ("exc",), "*exc")

    def o_reraise(self, t):
        return self.named("exc", "reraise")

    # loops
    def o_phi(self, t):
        e = self.env.get(t.a[0])
        if e is None:
            raise Undef("phi")
        v = e.st.get(t.a[1], self)
        if v is self:
            raise Undef("phi")
        if isinstance(v, Undef):
            raise v
        return v

    def o_tick(self, t):
        e = self.env.get(t.a[0])
        if e is None:
            raise Undef("tick")
        return e.n

    def getrun(self, L):
        k = (L, self.ekey(L.outer))
        r = self.runs.get(k)
        if r is None:
            r = self.runloop(L, False)
        return r

    def o_eta(self, t):
        r = self.getrun(t.a[0])
        if r.how == "unfinished":
            raise Unfinished()
        if r.how == "exit":
            raise Undef("left loop")
        v = r.vals[t.a[1]]
        if isinstance(v, Undef):
            raise v
        return v

    def o_lexit(self, t):
        r = self.getrun(t.a[0])
        if r.how == "unfinished":
            raise Unfinished()
        return r.how == "exit" and r.n == t.a[1]

    def o_lbrk(self, t):
        r = self.getrun(t.a[0])
        if r.how == "unfinished":
            raise Unfinished()
        return r.how == "break"

    def o_lval(self, t):
        r = self.getrun(t.a[0])
        if r.how != "exit" or r.n != t.a[1]:
            if r.how == "unfinished":
                raise Unfinished()
            raise Undef("exit value")
        v = r.value if t.a[2] == "$" else r.vals[t.a[2]]
        if isinstance(v, Undef):
            raise v
        return v

    def try_(self, t):
        try:
            return self.v(t)
        except Undef as x:
            return x

    def runloop(self, L, effects=True):
        key = (L, self.ekey(L.outer))
        st = {}
        from .ev import Ev
        kn = {k: Ev.kname(k) for k in L.keys}
        for k in L.keys:
            st[kn[k]] = self.try_(L.init[k])
        old = self.env.get(L)
        run = Run()
        run.how, run.vals, run.value, run.n = "unfinished", {}, None, None
        try:
            for n in range(self.rounds + 1):
                it = Iter()
                self.uid += 1
                it.uid, it.st, it.n, it.L = self.uid, st, n, L
                self.env[L] = it
                if n == self.rounds:
                    # one more look at the condition: a counted loop may be over
                    if not self.b(L.cond):
                        run.how, run.vals = "cond", st
                    break
                if effects:
                    self.perform(L.effects)
                if not self.b(L.cond):
                    run.how, run.vals = "cond", st
                    break
                done = False
                for j, (kind, g, val, vals) in enumerate(L.exits):
                    if self.b(g):
                        run.how, run.n = "exit", j
                        run.value = self.try_(val)
                        run.vals = {kn[k]: self.try_(x) for k, x in vals.items()}
                        done = True
                        break
                if done:
                    break
                if self.b(L.brk):
                    run.how = "break"
                    run.vals = {kn[k]: self.try_(L.brkvals[k]) for k in L.keys}
                    break
                st = {kn[k]: self.try_(L.nxt[k]) for k in L.keys}
        finally:
            if old is None:
                self.env.pop(L, None)
            else:
                self.env[L] = old
        self.runs[key] = run
        if run.how == "unfinished":
            if effects:
                self.truncated = True
                raise Unfinished()
        return run

    # -------------------------------------------------- effects
    def o_eff(self, t):
        e = t.a[0]
        k = (e, self.ekey(e.loops))
        v = self.effval.get(k, self)
        if v is self:
            # not performed (dead branch or closure): any value
            if e.kind == "draw":
                return self.m.pick(("draw?",), (h64(id(e) * 0 + e.line),), "$unit")
            raise Undef("effect not performed")
        return v

    def perform(self, items):
        for e in items:
            if isinstance(e, Loop):
                if self.b(e.guard):
                    self.runloop(e)
                continue
            if not self.b(e.guard):
                continue
            self.one(e)

    @staticmethod
    def uniform(r, mode):
        """A number in [0, 1), now and then close to one of the ends (or to what probabilities are then close to)."""
        k, u = r.i(8), r.u()
        if mode == "near" and k > 3:
            return 0.5 + [1, -1][k & 1] * 10.0 ** (-1.5 - 3 * u)
        if k > 1:
            return u
        d = 10.0 ** (-1 - 5 * u)
        return d if k else 1.0 - d

    def one(self, e):
        m = self.m
        k = (e, self.ekey(e.loops))
        if e.kind == "draw":
            n = self.counts.get("draw", 0)
            self.counts["draw"] = n + 1
            if DRAWMAP is not None and n < len(DRAWMAP):
                n = DRAWMAP[n]
            p = e.payload
            u = self.uniform(RNG(h64((m.seed, "u", n))), m.mode)
            if len(p) == 1:
                self.effval[k] = u
            elif p[0].a[0] == "u":
                size = self.v(p[1])
                if isinstance(size, int) and size < 16:
                    v = tuple(self.uniform(RNG(h64((m.seed, "u", n, i))), m.mode) for i in range(size))
                else:
                    v = m.pick(("draws",), (n, size))
                self.effval[k] = v
                self.trace.append(("draw", (("u"), size), e))
            else:
                a = self.vs(p)
                self.effval[k] = m.pick(("draw", str(a[0])), (n,) + a)
                self.trace.append(("draw", a, e))
            return
        try:
            if e.kind == "call":
                t = e.payload[0]
                ch, args = self.channel(t)
            else:
                ch, args = e.kind, tuple(self.v(x) for x in e.payload)
            kk = (ch, tuple(m.key(a) for a in args))
        except Unfinished:
            raise
        except Undef as x:
            self.trace.append(("undef", (str(x),), e))
            raise
        if e.kind == "setattr" and len(args) == 3 and isinstance(args[1], str):
            try:
                if m.same(m.attr(args[0], args[1]), args[2]):
                    self.effval[k] = None
                    return
            except Undef:
                pass
        n = self.counts.get(kk, 0)
        self.counts[kk] = n + 1
        self.effval[k] = m.pick(("eff", ch), args + (n,)) if e.kind not in ("mem", "setitem", "setattr") else None
        self.trace.append((ch, args, e))

    def channel(self, t):
        if t.op == "mcall":
            n, b, a, kw = t.a
            return "." + n, (self.v(b),) + self.vs(a) + tuple(x for p in self.kws(kw) for x in p)
        if t.op == "pcall":
            n, rest, kw = t.a
            return n, self.vs(rest) + tuple(x for p in self.kws(kw) for x in p)
        if t.op == "call":
            f, a, kw = t.a
            r = self.vs(a) + tuple(x for p in self.kws(kw) for x in p)
            if f.op in ("ext", "bi", "glob"):
                return f.a[0], r
            return "call", (self.v(f),) + r
        if t.op == "eff":
            return "value", (self.v(t),)
        return t.op, (self.v(t),)


class _S:
    name = "struct"


_Struct = _S()
