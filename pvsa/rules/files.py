"""Loading files: the loaders used, the published schema, what the studio may write, and shared templates."""
import ast
import json
import os
from pvsa.rules import bad, ok, rule, unsure

UNSAFE = {"yaml.load", "yaml.load_all", "yaml.unsafe_load", "yaml.unsafe_load_all", "yaml.full_load", "yaml.full_load_all", "pickle.load", "pickle.loads",
          "pickle.Unpickler", "dill.load", "dill.loads", "cloudpickle.load", "cloudpickle.loads", "joblib.load", "marshal.load", "marshal.loads",
          "shelve.open", "pandas.read_pickle", "os.system", "os.popen", "runpy.run_path", "subprocess.getoutput"}
SAFE_LOADERS = {"SafeLoader", "CSafeLoader", "BaseLoader", "CBaseLoader"}
BUILTIN = {"eval", "exec", "compile", "__import__"}


def functions(m):
    for f in m.functions.values():
        yield f, None
    for c in m.classes.values():
        for f in c.methods.values():
            yield f, c


def imports(tree):
    """Local name -> dotted name for every import anywhere in the file."""
    r = {}
    for n in ast.walk(tree):
        if isinstance(n, ast.Import):
            for a in n.names:
                r[a.asname or a.name.split(".")[0]] = a.name if a.asname else a.name.split(".")[0]
        elif isinstance(n, ast.ImportFrom) and n.module and not n.level:
            for a in n.names:
                r[a.asname or a.name] = n.module + "." + a.name
    return r


def dotted(e, imp):
    if isinstance(e, ast.Name):
        return imp.get(e.id, e.id)
    if isinstance(e, ast.Attribute):
        b = dotted(e.value, imp)
        return None if b is None else b + "." + e.attr
    return None


@rule("P30", "no loader that runs what it reads", "nothing in the package reads a file with a loader able to construct arbitrary objects, nor evaluates text as code")
def loaders(repo):
    for m in repo.py_modules():
        imp = imports(m.tree)
        shadow = {f.name for f in ast.walk(m.tree) if isinstance(f, (ast.FunctionDef, ast.ClassDef))}
        hits = 0
        for n in ast.walk(m.tree):
            if not isinstance(n, ast.Call):
                continue
            d = dotted(n.func, imp)
            why = None
            if d in BUILTIN and isinstance(n.func, ast.Name) and d not in shadow:
                if n.args and isinstance(n.args[0], ast.Constant):
                    continue
                why = "%s() runs text as code" % d
            elif d in ("yaml.load", "yaml.load_all"):
                ld = n.args[1] if len(n.args) > 1 else next((k.value for k in n.keywords if k.arg == "Loader"), None)
                nm = (dotted(ld, imp) or "").split(".")[-1] if ld is not None else ""
                if nm not in SAFE_LOADERS:
                    why = "%s with %s can construct arbitrary objects" % (d, nm or "no loader")
            elif d in UNSAFE:
                why = "%s can run what it reads" % d
            elif d is not None and d.split(".")[-1] == "YAML" and any(k.arg == "typ" and isinstance(k.value, ast.Constant) and k.value.value in ("unsafe", ["unsafe"]) for k in n.keywords) \
                    or d is not None and d.split(".")[-1] == "YAML" and n.args and isinstance(n.args[0], ast.Constant) and n.args[0].value == "unsafe":
                why = "YAML(typ='unsafe') can construct arbitrary objects"
            elif any(k.arg == "allow_pickle" and not (isinstance(k.value, ast.Constant) and not k.value.value) for k in n.keywords):
                why = "allow_pickle lets a file run code"
            if why:
                hits += 1
                yield bad("%s:%d %s" % (m.rel, hits, d), m.rel, n.lineno, why)
        if not hits:
            yield ok(m.rel, m.rel)


# ------------------------------------------------------------------ the schema

NOTES = {"id", "$id", "$schema", "title", "description", "default", "examples", "$comment", "definitions", "$defs"}


class Schema:
    def __init__(self, root):
        self.root = root

    def resolve(self, s, depth=0):
        while isinstance(s, dict) and "$ref" in s and depth < 20:
            r = s["$ref"]
            if not r.startswith("#/"):
                return {"$ref": r}
            x = self.root
            for p in r[2:].split("/"):
                x = x.get(p, {}) if isinstance(x, dict) else {}
            s = x
            depth += 1
        return s

    def norm(self, s):
        """The constraints of a schema, references followed and annotations dropped."""
        s = self.resolve(s)
        if not isinstance(s, dict):
            return s
        r = {}
        for k, v in s.items():
            if k in NOTES or k == "uniqueItems":
                continue
            if k in ("properties", "patternProperties"):
                v = {n: x for n, x in v.items()}
            elif k in ("required", "enum"):
                v = sorted(v, key=repr)
            elif k == "type" and isinstance(v, list) and len(v) == 1:
                v = v[0]
            r[k] = v
        return r


def branches(sch, l):
    return sorted((sch.norm(x) for x in l), key=lambda x: json.dumps(x, sort_keys=True, default=str))


def differ(A, a, B, b, path, out, depth=0):
    """Constraints of a (the file) against those of b (the reference)."""
    a, b = A.norm(a), B.norm(b)
    if not isinstance(a, dict) or not isinstance(b, dict):
        if a != b:
            out.append((path, "is %r, published %r" % (a, b)))
        return
    for k in sorted(set(a) | set(b)):
        x, y = a.get(k), b.get(k)
        if k in ("properties", "patternProperties"):
            x, y = x or {}, y or {}
            for n in sorted(set(x) | set(y)):
                p = "%s/%s" % (path, n)
                if n not in y:
                    out.append((p, "accepted, not part of the published format"))
                elif n not in x:
                    out.append((p, "not checked any more"))
                elif isinstance(x[n], dict) and isinstance(y[n], dict):
                    differ(A, x[n], B, y[n], p, out, depth + 1)
                elif x[n] != y[n]:
                    out.append((p, "is %r, published %r" % (x[n], y[n])))
        elif k in ("items", "additionalProperties", "not") and isinstance(x, dict) and isinstance(y, dict):
            differ(A, x, B, y, path + "/" + k, out, depth + 1)
        elif k in ("oneOf", "anyOf", "allOf") and isinstance(x, list) and isinstance(y, list) and len(x) == len(y):
            key = lambda S: lambda s: json.dumps(S.norm(s), sort_keys=True, default=str)
            rest = list(y)
            for s in x:
                best = None
                for t in rest:
                    o = []
                    differ(A, s, B, t, path + "/" + k, o, depth + 1)
                    if best is None or len(o) < len(best[0]):
                        best = (o, t)
                out.extend(best[0])
                rest.remove(best[1])
        elif x != y:
            out.append((path, "%s is %s, published %s" % (k, json.dumps(x), json.dumps(y))))


def schema_file(repo):
    return os.path.join(repo.root, "pvtrace", "cli", "pvtrace-schema-scene-spec.json")


@rule("P30 P31", "the published schema", "every constraint of the scene file format (types, ranges, required keys, alternatives, closed objects) is what the published schema says")
def schema(repo):
    p = schema_file(repo)
    if not os.path.exists(p):
        yield unsure("schema", "pvtrace/cli", None, "schema file not found")
        return
    where = "pvtrace/cli/pvtrace-schema-scene-spec.json"
    try:
        with open(p) as fp:
            code = json.load(fp)
    except ValueError as x:
        yield bad("schema", where, None, "not JSON: %s" % x)
        return
    with open(os.path.join(os.path.dirname(__file__), "_schema.json")) as fp:
        want = json.load(fp)
    A, B = Schema(code), Schema(want)
    out = []
    differ(A, code, B, want, "", out)
    seen = set()
    for path, why in out:
        if path not in seen:
            seen.add(path)
            yield (unsure if why.startswith("accepted") else bad)("schema " + (path or "/"), where, None, "%s: %s" % (path or "/", why))
    count = [0]

    def walk(s):
        if isinstance(s, dict):
            count[0] += len([k for k in s if k not in NOTES])
            for v in s.values():
                walk(v)
        elif isinstance(s, list):
            for v in s:
                walk(v)
    walk(want)
    if not out:
        yield ok("schema (%d constraints)" % count[0], where)


@rule("P30", "recorder events in the schema exist", "each recorder event the schema accepts is one the Recorder class accepts")
def events(repo):
    p = schema_file(repo)
    m = repo.module("pvtrace/recorder/recorder.py", optional=True)
    try:
        with open(p) as fp:
            code = json.load(fp)
    except (OSError, ValueError):
        return
    s = Schema(code)
    ev = s.norm(s.norm({"$ref": "#/definitions/recorder"}).get("properties", {}).get("event", {})).get("enum")
    known = None
    for m in repo.py_modules():
        if "recorder" not in m.rel and "tally" not in m.rel:
            continue
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and isinstance(n.value, (ast.Dict, ast.Tuple, ast.List, ast.Set)):
                ks = n.value.keys if isinstance(n.value, ast.Dict) else n.value.elts
                if ks and all(isinstance(k, ast.Constant) and isinstance(k.value, str) for k in ks):
                    v = {k.value for k in ks}
                    if "escaping" in v and "entering" in v and (known is None or len(v) > len(known)):
                        known = v
    if ev is None or known is None:
        yield unsure("recorder events", "pvtrace/cli/pvtrace-schema-scene-spec.json", None, "event table not found")
        return
    for e in ev:
        if e in known:
            yield ok("event " + e, "pvtrace/cli/pvtrace-schema-scene-spec.json")
        else:
            yield bad("event " + e, "pvtrace/cli/pvtrace-schema-scene-spec.json", None, "no recorder counts %r" % e)


# ------------------------------------------------------------------ what the studio writes

WRITES = {"write_text", "write_bytes", "unlink", "rename", "replace", "mkdir", "rmdir", "touch", "symlink_to", "hardlink_to", "rmtree", "copyfile", "copytree", "copy2", "move", "makedirs",
          "remove", "removedirs", "renames", "mkstemp", "mkdtemp", "NamedTemporaryFile", "TemporaryFile", "to_csv", "to_json", "savetxt", "save", "savez", "tofile", "chmod", "dump"}
MODULES = {"os", "shutil", "tempfile", "pathlib", "numpy", "np", "json", "pickle"}


def writes(f, imp):
    for n in ast.walk(f):
        if not isinstance(n, ast.Call):
            continue
        d = dotted(n.func, imp) or ""
        a = n.func.attr if isinstance(n.func, ast.Attribute) else d.split(".")[-1]
        if d in ("open", "io.open", "os.fdopen", "codecs.open") or a == "open" and isinstance(n.func, ast.Attribute) and d.split(".")[0] not in imp.values():
            i = 0 if a == "open" and d not in ("open", "io.open", "codecs.open") else 1
            mode = n.args[i] if len(n.args) > i else next((k.value for k in n.keywords if k.arg == "mode"), None)
            if mode is None or isinstance(mode, ast.Constant) and isinstance(mode.value, str) and not set(mode.value) & set("wax+"):
                continue
            yield n, d or a
        elif a in WRITES:
            base = d.rsplit(".", 1)[0].split(".")[0] if "." in d else None
            if a in ("write_text", "write_bytes", "unlink", "symlink_to", "hardlink_to", "touch", "mkdir", "rmdir"):
                yield n, a
            elif base in ("os", "shutil", "tempfile", "numpy"):
                yield n, d
            elif "." in imp.get(d, d) and imp.get(d, d).split(".")[0] in ("os", "shutil", "tempfile"):
                yield n, d


DERIVE = {"with_suffix", "with_name", "with_stem", "joinpath", "parent", "parents"}


def elsewhere(f, c):
    """The target of write c in f if it is a path made from another one."""
    a = c.func.attr if isinstance(c.func, ast.Attribute) else None
    own = a in ("write_text", "write_bytes", "touch", "unlink", "mkdir", "rmdir", "symlink_to", "hardlink_to") or a == "open" and not (isinstance(c.func.value, ast.Name) and c.func.value.id in ("io", "os", "codecs"))
    t = c.func.value if own else c.args[-1] if a in ("copy", "copy2", "copyfile", "move") and c.args else c.args[0] if c.args else None
    if t is None:
        return None
    one = {}
    for n in ast.walk(f):
        for x in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, (ast.AnnAssign, ast.AugAssign, ast.For)) else []:
            for y in ast.walk(x):
                if isinstance(y, ast.Name):
                    one.setdefault(y.id, []).append(getattr(n, "value", None))
    seen, todo = set(), [t]
    while todo:
        for n in ast.walk(todo.pop()):
            if isinstance(n, ast.Attribute) and n.attr in DERIVE or isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Div, ast.Add)) or isinstance(n, ast.JoinedStr) and len(n.values) > 1:
                return "`%s`" % ast.unparse(t)
            if isinstance(n, ast.Name) and n.id not in seen:
                seen.add(n.id)
                todo += [v for v in one.get(n.id, ()) if v is not None]
    return None


HOMES = {"apply", "upload_file", "save_document"}


@rule("P33", "the studio's writes", "every call in the studio that can create, change or remove a file is made by Studio.apply, upload_file or save_document, or by a helper only they call")
def studio_writes(repo):
    mods = [m for m in repo.py_modules() if m.rel.startswith("pvtrace/studio/")]
    funcs, callers = {}, {}
    for m in mods:
        stack = []

        def walk(n, encl):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    funcs.setdefault(c.name, []).append((m, c, encl))
                    walk(c, c.name)
                else:
                    if isinstance(c, (ast.Name, ast.Attribute)):
                        x = c.id if isinstance(c, ast.Name) else c.attr
                        callers.setdefault(x, set()).add(encl)
                    walk(c, encl)
        walk(m.tree, None)

    def home(name, seen=()):
        if name in HOMES:
            return True
        if name is None or name in seen:
            return False
        cs = callers.get(name, set())
        return bool(cs) and all(home(c, seen + (name,)) for c in cs)

    def own(f):
        """The function without the functions inside it."""
        g = ast.copy_location(ast.Module([], []), f)
        def strip(n):
            for c in ast.iter_child_nodes(n):
                if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    continue
                yield c
                yield from strip(c)
        g.body = [n for n in strip(f) if isinstance(n, ast.Call)]
        return g
    n = 0
    for m in mods:
        imp = imports(m.tree)
        for name, l in funcs.items():
            for fm, f, encl in l:
                if fm is not m:
                    continue
                seen = set()
                for c, d in writes(own(f), imp):
                    if id(c) in seen:
                        continue
                    seen.add(id(c))
                    n += 1
                    key = "%s %s in %s" % (m.rel, d, name)
                    if home(name):
                        other = name == "save_document" and elsewhere(f, c)
                        if other and any(isinstance(x, ast.Attribute) and x.attr in ("replace", "rename", "move") and x is not c.func for x in ast.walk(f)):
                            yield unsure(key, m.rel, c.lineno, "writes %s, which a later rename may put in place" % other)
                        elif other:
                            yield bad(key, m.rel, c.lineno, "%s writes %s, which is not the opened document" % (name, other))
                        else:
                            yield ok(key, m.rel, c.lineno)
                    elif name in ("main", "run_server", "serve", "run"):
                        yield unsure(key, m.rel, c.lineno, "not part of a request")
                    else:
                        yield bad(key, m.rel, c.lineno, "%s writes with %s outside apply, upload_file and save_document" % (name, d))


# ------------------------------------------------------------------ shared templates

@rule("P32", "templates are copied", "a nested table at module level is never stored into a document or returned without a deep copy")
def templates(repo):
    for m in repo.py_modules():
        if not m.rel.startswith(("pvtrace/studio/", "pvtrace/cli/")):
            continue
        imp = imports(m.tree)
        tables = {}
        for n in m.tree.body:
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and isinstance(n.value, ast.Dict) and \
                    any(isinstance(v, (ast.Dict, ast.List)) for v in n.value.values):
                tables[n.targets[0].id] = n
        for t in tables:
            for f in [x for x in ast.walk(m.tree) if isinstance(x, (ast.FunctionDef, ast.AsyncFunctionDef))]:
                local = set()
                parts = lambda e: isinstance(e, ast.Subscript) and (isinstance(e.value, ast.Name) and e.value.id in {t} | local or parts(e.value)) or \
                    isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "get" and isinstance(e.func.value, ast.Name) and e.func.value.id == t or \
                    isinstance(e, ast.Name) and e.id in local or \
                    isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "dict" and len(e.args) == 1 and parts(e.args[0]) or \
                    isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute) and e.func.attr == "copy" and (dotted(e.func, imp) == "copy.copy" and bool(e.args) and parts(e.args[0]) or not e.args and parts(e.func.value)) or \
                    isinstance(e, ast.Dict) and any(k is None and parts(v) for k, v in zip(e.keys, e.values))
                for n in ast.walk(f):
                    if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name) and parts(n.value):
                        local.add(n.targets[0].id)
                uses = 0
                for n in ast.walk(f):
                    v = None
                    if isinstance(n, ast.Assign) and any(isinstance(x, (ast.Subscript, ast.Attribute)) for x in n.targets) and parts(n.value):
                        v = n
                    elif isinstance(n, ast.Assign) and any(isinstance(x, ast.Subscript) and parts(x.value) for x in n.targets):
                        v = n
                    elif isinstance(n, ast.Return) and n.value is not None and parts(n.value):
                        v = n
                    elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "update", "insert", "setdefault", "extend") and \
                            any(parts(x) for x in n.args):
                        v = n
                    if isinstance(n, ast.Name) and n.id == t and isinstance(n.ctx, ast.Load):
                        uses += 1
                    if v is not None:
                        yield bad("%s %s in %s" % (m.rel, t, f.name), m.rel, v.lineno, "part of %s becomes part of a document without a deep copy: later edits would change the template" % t)
                if uses:
                    yield ok("%s %s used in %s" % (m.rel, t, f.name), m.rel, f.lineno)
