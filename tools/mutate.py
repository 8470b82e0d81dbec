"""Mutation adequacy of the specifications: applies one syntactic change at a
time to the parsed code (in memory) and reports those no specification notices.
usage: mutate.py <filter> [limit]"""
import ast
import copy
import json
import os
import random
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pvsa.conform import load_specs, locate, run_spec
from pvsa.load import Repo

CMP = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt, ast.Gt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt, ast.Lt],
       ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is],
       ast.In: [ast.NotIn], ast.NotIn: [ast.In]}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.Pow: ast.Mult}


def mutants(fn):
    """(description, apply, undo) for each mutation."""
    names = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load)})
    stores = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)} | \
        {a.arg for a in fn.args.args}
    def scan(n):
        yield n
        for c in ast.iter_child_nodes(n):
            if isinstance(c, ast.Raise) or isinstance(c, ast.Expr) and "logger." in ast.unparse(c):
                yield c
            elif not isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                yield from scan(c)
    for n in scan(fn):
        def setter(o, f, v):
            old = getattr(o, f)
            return (lambda: setattr(o, f, v)), (lambda: setattr(o, f, old))
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Compare):
            for i, op in enumerate(n.ops):
                for c in CMP.get(type(op), []):
                    ops = list(n.ops)
                    ops[i] = c()
                    yield ("%d: %s -> %s" % (ln, ast.unparse(n), c.__name__),) + setter(n, "ops", ops)
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield ("%d: %s -> %s" % (ln, ast.unparse(n)[:60], BIN[type(n.op)].__name__),) + setter(n, "op", BIN[type(n.op)]())
        if isinstance(n, ast.AugAssign):
            yield ("%d: %s -> assign" % (ln, ast.unparse(n)[:60]),) + setter(n, "op", ast.Sub() if isinstance(n.op, ast.Add) else ast.Add())
        if isinstance(n, ast.Constant) and isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            yield ("%d: const %r+1" % (ln, n.value),) + setter(n, "value", n.value + 1)
        if isinstance(n, ast.Constant) and isinstance(n.value, bool):
            yield ("%d: not %r" % (ln, n.value),) + setter(n, "value", not n.value)
        if isinstance(n, ast.Constant) and isinstance(n.value, str) and len(n.value) < 30 and n.value:
            yield ("%d: str %r" % (ln, n.value),) + setter(n, "value", n.value + "_")
        if isinstance(n, ast.BoolOp):
            yield ("%d: %s and<->or" % (ln, ast.unparse(n)[:60]),) + setter(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())
        if isinstance(n, (ast.If, ast.IfExp, ast.While)):
            yield ("%d: if not %s" % (ln, ast.unparse(n.test)[:60]),) + setter(n, "test", ast.copy_location(ast.UnaryOp(ast.Not(), n.test), n.test))
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            yield ("%d: drop - of %s" % (ln, ast.unparse(n)[:60]),) + setter(n, "op", ast.UAdd())
        if isinstance(n, ast.Call) and len(n.args) >= 2 and not n.keywords or isinstance(n, ast.Call) and len(n.args) > 2:
            for i in range(len(n.args) - 1):
                a = list(n.args)
                if ast.dump(a[i]) == ast.dump(a[i + 1]):
                    continue
                a[i], a[i + 1] = a[i + 1], a[i]
                yield ("%d: swap args %d of %s" % (ln, i, ast.unparse(n)[:70]),) + setter(n, "args", a)
        if isinstance(n, ast.Call) and n.keywords:
            for i in range(len(n.keywords)):
                yield ("%d: drop kw %s of %s" % (ln, n.keywords[i].arg, ast.unparse(n.func)),) + setter(n, "keywords", n.keywords[:i] + n.keywords[i + 1:])
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.Continue, ast.Break, ast.Raise, ast.Return)) and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        nb = b[:i] + [ast.copy_location(ast.Pass(), s)] + b[i + 1:]
                        yield ("%d: delete %s" % (s.lineno, ast.unparse(s)[:70]),) + setter(n, f, nb)
        if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Load):
            pass
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Load) and n.id in stores:
            others = [x for x in names if x in stores and x != n.id]
            random.shuffle(others)
            for o in others[:int(os.environ.get("NAMES", "1"))]:
                yield ("%d: name %s -> %s" % (ln, n.id, o),) + setter(n, "id", o)


def main():
    pat = sys.argv[1]
    limit = int(sys.argv[2]) if len(sys.argv) > 2 else 200
    random.seed(1)
    repo = Repo()
    try:
        base = json.load(open(os.path.join(HERE, "pvsa", "baseline.json")))
    except FileNotFoundError:
        base = {"global": [], "specs": {}}
    specs = [s for s in load_specs(repo) if pat in s.id or pat in s.props]
    by = {}
    for s in specs:
        f, c = locate(repo, s.code)
        by.setdefault(id(f.d), (f.d, []))[1].append(s)
    jobs = []
    for d, ss in by.values():
        ms = list(mutants(d))
        if os.environ.get("LINES"):
            lo, hi = map(int, os.environ["LINES"].split("-"))
            ms = [m for m in ms if lo <= int(m[0].split(":")[0]) <= hi]
        if os.environ.get("KIND"):
            ms = [m for m in ms if os.environ["KIND"] in m[0]]
        jobs += [(ss, m) for m in (random.sample(ms, limit) if len(ms) > limit else ms)]

    def run(k):
        ss, (desc, do, undo) = jobs[k]
        do()
        try:
            st = []
            for s in ss:
                b = base["specs"].get(s.id, {})
                try:
                    r = run_spec(repo, s, frozenset(base["global"]) | frozenset(b.get("vocab", ())), expected_undefs=b.get("fails", 1))
                    st.append(r.status + ("" if r.status != "undecided" else " " + r.reason[:50]))
                    one = r.onesided > (b.get("onesided", 0) / max(1, b.get("trials", 1)) * 2 + 0.05) * r.trials
                    if st[-1] == "proved" and (r.full and r.defined < max(3, 0.5 * b.get("defined", 0) / max(1, b.get("trials", 1)) * r.trials) or one):
                        st[-1] = "undecided defined"
                    if r.status == "violated":
                        break
                except Exception as x:
                    st.append("undecided crash " + type(x).__name__)
        finally:
            undo()
        return k, st

    tot = dead = und = 0
    import multiprocessing as mp
    global RUN
    RUN = run
    out = {}
    with mp.get_context("fork").Pool(8) as pool:
        for k, st in pool.imap_unordered(call, range(len(jobs)), chunksize=4):
            out[k] = st
    for k in range(len(jobs)):
        st = out[k]
        tot += 1
        if "violated" in st:
            dead += 1
        else:
            und += not all(x == "proved" for x in st)
            ss, m = jobs[k]
            print("  %-40s %-60s %s" % (ss[0].code.split(":")[1][:40], m[0][:100], sorted(set(st))))
    print("%d mutants, %d violated, %d undecided, %d unnoticed" % (tot, dead, und, tot - dead - und))


def call(k):
    return RUN(k)


main()
