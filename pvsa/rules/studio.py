"""The studio page and its server speak the same protocol."""
import ast
import os
import re
from pvsa.rules import bad, ok, rule, unsure

SERVER = "pvtrace/studio/server.py"
PAGE = "pvtrace/studio/static/app.js"
METHODS = {"get", "put", "post", "delete", "patch", "websocket"}


def page(repo):
    p = os.path.join(repo.root, PAGE)
    if not os.path.exists(p):
        return None
    with open(p, encoding="utf-8") as f:
        return f.read()


def routes(m):
    for n in ast.walk(m.tree):
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
            for d in n.decorator_list:
                if isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr in METHODS and d.args \
                        and isinstance(d.args[0], ast.Constant) and isinstance(d.args[0].value, str):
                    yield d.func.attr, d.args[0].value, n


def lineno(s, i):
    return s.count("\n", 0, i) + 1


@rule("P32 P33 P34", "the page's requests are served", "every request the studio page makes has a handler for that method and path, and no two handlers share one")
def served(repo):
    m = repo.module(SERVER, optional=True)
    s = page(repo)
    if m is None or s is None:
        yield unsure("routes", SERVER, 1, "server or page not found")
        return
    have = {}
    for meth, path, f in routes(m):
        k = "%s %s" % (meth, path)
        if k in have:
            yield bad(k, m.rel, f.lineno, "two handlers, %s and %s" % (have[k].name, f.name))
        have.setdefault(k, f)
    dynamic = any(isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("add_api_route", "api_route", "add_route", "include_router", "add_api_websocket_route") for n in ast.walk(m.tree)) \
        or any(isinstance(d, ast.Call) and isinstance(d.func, ast.Attribute) and d.func.attr in METHODS and not (d.args and isinstance(d.args[0], ast.Constant))
               for n in ast.walk(m.tree) if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)) for d in n.decorator_list)
    want = {}
    for x in re.finditer(r'fetch\(\s*["\'`]([^"\'`$]+)["\'`]\s*(,\s*\{\s*method:\s*["\'](\w+)["\'])?', s):
        want.setdefault("%s %s" % ((x.group(3) or "GET").lower(), x.group(1)), lineno(s, x.start()))
    for x in re.finditer(r'new WebSocket\(\s*["\'`][^"\'`]*?(/\w+)["\'`]', s):
        want.setdefault("websocket %s" % x.group(1), lineno(s, x.start()))
    want["get /"] = 1
    for k, line in sorted(want.items()):
        if k in have:
            yield ok(k, m.rel, have[k].lineno)
        elif dynamic:
            yield unsure(k, m.rel, 1, "routes are registered in ways not followed")
        else:
            yield bad(k, m.rel, 1, "%s line %d requests it, no handler serves it" % (PAGE, line))


@rule("P32 P34", "the page's messages are understood", "every edit operation and command the studio page sends is one the server compares with, and every message kind it waits for is one the server sends")
def understood(repo):
    m = repo.module(SERVER, optional=True)
    s = page(repo)
    if m is None or s is None:
        yield unsure("messages", SERVER, 1, "server or page not found")
        return
    consts = {n.value for n in ast.walk(m.tree) if isinstance(n, ast.Constant) and isinstance(n.value, str)}
    for pat, what in ((r'\bop:\s*["\']([\w-]+)["\']', "operation"), (r'\bcmd:\s*["\'](\w+)["\']', "command"), (r'message\.type\s*===?\s*["\'](\w+)["\']', "message")):
        seen = {}
        for x in re.finditer(pat, s):
            seen.setdefault(x.group(1), lineno(s, x.start()))
        for k, line in sorted(seen.items()):
            key = "%s %s" % (what, k)
            if k in consts:
                yield ok(key, m.rel, line)
            else:
                yield bad(key, m.rel, 1, "%s line %d uses it, the server does not" % (PAGE, line))
