"""Meaning of the SQL statements the project builds: parsed, put in normal form and compared.

Only the fragment the project uses is understood (conjunctive SELECTs over inner joins, INSERTs); any
other statement raises Unknown and the obligation is left undecided.
"""
import re


class Unknown(Exception):
    pass


TOK = re.compile(r"""\s+|--[^\n]*|(?P<str>'(?:[^']|'')*')|(?P<q>"(?:[^"]|"")*"|`[^`]*`|\[[^\]]*\])|(?P<num>\d+(?:\.\d*)?(?:[eE][-+]?\d+)?)|(?P<op><=|>=|<>|!=|==|\|\||[-+*/(),.=<>;?])|(?P<id>[A-Za-z_][A-Za-z_0-9]*)|(?P<user>«[^»]*»|‹[^›]*›)|(?P<bad>.)""", re.X | re.S)


def tokens(s):
    out = []
    n = 0
    for m in TOK.finditer(s):
        k = m.lastgroup
        if k is None:
            continue
        if k == "bad":
            raise Unknown("character %r" % m.group())
        if k == "op" and m.group() == "?":
            out.append(("p", n))
            n += 1
        elif k == "id":
            out.append(("id", m.group().lower()))
        elif k == "q":
            out.append(("name", m.group()[1:-1].lower()))
        else:
            out.append((k, m.group()))
    while out and out[-1] == ("op", ";"):
        out.pop()
    return out, n


KEYWORDS = {"select", "from", "where", "and", "or", "not", "inner", "join", "on", "as", "distinct", "group", "order",
            "by", "limit", "having", "union", "left", "right", "cross", "using", "values", "into", "insert", "set"}


class P:
    def __init__(self, s, schema):
        self.t, self.n = tokens(s)
        self.i = 0
        self.schema = schema

    def peek(self, k=0):
        return self.t[self.i + k] if self.i + k < len(self.t) else ("end", None)

    def kw(self, *words):
        for j, w in enumerate(words):
            if self.peek(j) != ("id", w):
                return False
        self.i += len(words)
        return True

    def op(self, o):
        if self.peek() == ("op", o):
            self.i += 1
            return True
        return False

    def need(self, ok, what):
        if not ok:
            raise Unknown("expected %s near %r" % (what, self.peek()[1]))

    def name(self):
        k, v = self.peek()
        if k == "name" or k == "id" and v not in KEYWORDS:
            self.i += 1
            return v
        raise Unknown("expected a name near %r" % (v,))

    def statement(self):
        if self.kw("insert"):
            self.need(self.kw("into"), "INTO")
            t = self.name()
            cols = None
            if self.op("("):
                cols = [self.name()]
                while self.op(","):
                    cols.append(self.name())
                self.need(self.op(")"), ")")
            self.need(self.kw("values"), "VALUES")
            self.need(self.op("("), "(")
            vals = [self.expr({})]
            while self.op(","):
                vals.append(self.expr({}))
            self.need(self.op(")"), ")")
            self.end()
            if cols is None:
                if t not in self.schema:
                    raise Unknown("no table %s in the schema" % t)
                cols = self.schema[t]
            if len(cols) != len(vals):
                return ("bad", "%d values for %d columns of %s" % (len(vals), len(cols), t))
            return ("insert", t, tuple(sorted(zip(cols, vals), key=lambda p: p[0])))
        r = self.select()
        self.end()
        return r

    def end(self):
        if self.i < len(self.t):
            raise Unknown("unexpected %r" % (self.peek()[1],))

    def select(self):
        self.need(self.kw("select"), "SELECT")
        distinct = self.kw("distinct")
        start = self.i
        # the columns are read after the tables, whose aliases they may use
        d = 0
        while self.i < len(self.t):
            k = self.peek()
            if k == ("op", "("):
                d += 1
            elif k == ("op", ")"):
                d -= 1
            elif k == ("id", "from") and d == 0:
                break
            self.i += 1
        self.need(self.kw("from"), "FROM")
        alias = {}
        conds = []
        sub = None
        if self.op("("):
            sub = self.select()
            self.need(self.op(")"), ")")
            self.kw("as")
            if self.peek()[0] in ("name",) or self.peek()[0] == "id" and self.peek()[1] not in KEYWORDS:
                self.name()
            tables = ()
        else:
            tables = [self.table(alias)]
            while True:
                if self.op(","):
                    tables.append(self.table(alias))
                elif self.kw("inner", "join") or self.kw("join") or self.kw("cross", "join"):
                    tables.append(self.table(alias))
                    if self.kw("on"):
                        self.conj(alias, conds)
                else:
                    break
        if self.kw("where"):
            self.conj(alias, conds)
        stop = self.i
        self.i = start
        cols = []
        while True:
            cols.append(self.expr(alias))
            if self.kw("as"):
                self.name()
            if not self.op(","):
                break
        self.need(self.kw("from"), "FROM")
        self.i = stop
        cols = tuple(cols)
        if sub is not None:
            if conds or distinct and not sub[1]:
                raise Unknown("condition on a subquery")
            if cols == sub[2] or cols == (("star",),):
                return sub
            if len(cols) == 1 and cols[0][0] == "count" and sub[1] and cols[0][1] in (
                    (("star",),) + (sub[2] if len(sub[2]) == 1 else ())) or \
                    len(cols) == 1 and cols[0][0] == "count" and cols[0][1][0] in ("num", "str"):
                return ("select", False, (("countd", sub[2]) if sub[1] else ("count", ("star",)),), sub[3], sub[4])
            raise Unknown("subquery columns")
        return ("select", distinct, cols, tuple(sorted(tables)), tuple(sorted(set(conds), key=order)))

    def table(self, alias):
        t = self.name()
        if t not in self.schema:
            raise Unknown("no table %s in the schema" % t)
        a = t
        if self.kw("as"):
            a = self.name()
        elif self.peek()[0] == "id" and self.peek()[1] not in KEYWORDS:
            a = self.name()
        alias[a] = t
        return t

    def conj(self, alias, out):
        while True:
            if self.peek() == ("op", "("):
                # a parenthesised conjunction or comparison
                save = self.i
                self.i += 1
                try:
                    inner = []
                    self.conj(alias, inner)
                    if not self.op(")"):
                        raise Unknown("parenthesis")
                    if self.peek()[0] == "op" and self.peek()[1] in ("=", "<=", ">=", "<", ">", "-", "+"):
                        raise Unknown("operand")
                    out.extend(inner)
                except Unknown:
                    self.i = save
                    out.append(self.cmp(alias))
            else:
                out.append(self.cmp(alias))
            if not self.kw("and"):
                return

    def cmp(self, alias):
        a = self.expr(alias)
        k, o = self.peek()
        if k == "op" and o in ("=", "==", "<=", ">=", "<", ">", "<>", "!="):
            self.i += 1
            b = self.expr(alias)
            if o in ("=", "=="):
                return ("=",) + tuple(sorted((a, b), key=order))
            if o in ("<>", "!="):
                return ("<>",) + tuple(sorted((a, b), key=order))
            if o in (">=", ">"):
                a, b, o = b, a, {">=": "<=", ">": "<"}[o]
            return (o, a, b)
        if self.kw("is"):
            neg = self.kw("not")
            return ("isnot" if neg else "is", a, self.expr(alias))
        raise Unknown("condition near %r" % (o,))

    def expr(self, alias):
        a = self.prim(alias)
        while self.peek()[0] == "op" and self.peek()[1] in ("-", "+"):
            o = self.peek()[1]
            self.i += 1
            b = self.prim(alias)
            if o == "+":
                a = ("+",) + tuple(sorted((a, b), key=order))
            else:
                a = ("-", a, b)
        return a

    def prim(self, alias):
        k, v = self.peek()
        if k == "p":
            self.i += 1
            return ("p", v)
        if k == "num":
            self.i += 1
            return ("num", float(v))
        if k == "user":
            self.i += 1
            return ("user", v)
        if k == "str":
            self.i += 1
            return ("str", v[1:-1])
        if self.op("*"):
            return ("star",)
        if self.op("-"):
            return ("neg", self.prim(alias))
        if self.op("("):
            r = self.expr(alias)
            self.need(self.op(")"), ")")
            return r
        if k == "id" and v == "null":
            self.i += 1
            return ("null",)
        n = self.name()
        if self.op("("):
            if n == "count":
                d = self.kw("distinct")
                r = self.expr(alias)
                self.need(self.op(")"), ")")
                return ("countd", (r,)) if d else ("count", r)
            if n != "abs":
                raise Unknown("function %s" % n)
            r = self.expr(alias)
            self.need(self.op(")"), ")")
            if r[0] == "-":
                r = ("-",) + tuple(sorted(r[1:], key=order))
            return ("abs", r)
        if self.op("."):
            c = self.name()
            t = alias.get(n, n)
        else:
            c, t = n, None
        return ("col",) + self.column(c, t, alias)

    def column(self, c, t, alias):
        if c in ("rowid", "oid", "_rowid_"):
            if t is None:
                ts = set(alias.values())
                if len(ts) != 1:
                    raise Unknown("ambiguous rowid")
                t = ts.pop()
            return ("rowid", t)
        if t is None:
            ts = [x for x, cs in self.schema.items() if c in cs]
            if len(ts) == 1:
                t = ts[0]
            elif len(ts) > 1:
                raise Unknown("ambiguous column %s" % c)
            else:
                return (c, "?")
        if t in self.schema and c not in self.schema[t]:
            return (c, "no such column of %s" % t)
        return (c, t)


def order(x):
    return repr(strip(x))


def strip(x):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "p":
            return ("p",)
        return tuple(strip(y) for y in x)
    return x


def params(x, out):
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "p":
            out.append(x[1])
        else:
            for y in x:
                params(y, out)
    return out


def schema(text):
    """Tables and columns declared by CREATE TABLE statements."""
    text = re.sub(r"--[^\n]*", "", text)
    out = {}
    for m in re.finditer(r"create\s+table\s+(?:if\s+not\s+exists\s+)?[\"`\[]?(\w+)[\"`\]]?\s*\((.*?)\)\s*;", text, re.I | re.S):
        body = m.group(2)
        cols, d, cur = [], 0, ""
        for ch in body + ",":
            if ch == "," and d == 0:
                w = cur.split()
                if w and w[0].lower() not in ("foreign", "primary", "unique", "check", "constraint"):
                    cols.append(w[0].strip('"`[]').lower())
                cur = ""
                continue
            d += (ch == "(") - (ch == ")")
            cur += ch
        out[m.group(1).lower()] = cols
    return out


def looks(s):
    return isinstance(s, str) and re.match(r"\s*(select|insert|with)\b", s, re.I) is not None


def parse(s, sch):
    p = P(str(s), sch)
    return p.statement(), p.n
