"""Source loading: /repo's current Python and Cython sources as `ast` trees.

Cython sources are parsed with Cython's own parser and converted to `ast`
nodes, so that one set of analyses covers both languages:

    T* p / T a[n]          p = __ptr__ / a = __array__('a', n)
    &x, <T>x, NULL         __addr__(x), __cast__('T', x), __NULL__
    with nogil: ...        its body
"""
import ast
import os
import functools

REPO = os.environ.get("PVSA_REPO", "/repo")


class AnalysisError(Exception):
    """The analysis cannot be carried out (anchor vanished, parse failure)."""


class CInfo:
    """Declarations of a Cython function: name -> (type, kind)."""

    def __init__(self):
        self.types = {}
        self.elems = {}       # buffer element types


# --------------------------------------------------------------------------
# Cython conversion

class CyConv:
    def __init__(self):
        self.structs = {}
        self.enums = {}
        self.consts = {}

    def at(self, new, node):
        line = node.pos[1] if node.pos else 0
        for n in ast.walk(new):
            if not hasattr(n, "lineno"):
                n.lineno = line
                n.col_offset = node.pos[2] if node.pos else 0
                n.end_lineno = line
                n.end_col_offset = 0
        return new

    # -- types and declarators
    def base_type(self, bt):
        n = type(bt).__name__
        if n == "CSimpleBaseTypeNode":
            prefix = ""
            if bt.longness > 0:
                prefix = "long " * bt.longness
            if bt.signed == 0:
                prefix = "unsigned " + prefix
            return prefix + (bt.name or "")
        if n in ("TemplatedTypeNode", "MemoryViewSliceTypeNode", "CBufferAccessTypeNode"):
            a = (getattr(bt, "positional_args", None) or [None])[0]
            self.elem = getattr(a, "attribute", None) or getattr(a, "name", None)
            return "buffer"
        self.elem = None
        return n

    def declarator(self, d):
        """-> (name, kind, extra, default) with kind in scalar/ptr/array/func."""
        n = type(d).__name__
        if n == "CNameDeclaratorNode":
            return d.name, "scalar", None, d.default
        if n == "CPtrDeclaratorNode":
            name, kind, extra, default = self.declarator(d.base)
            return name, "ptr", extra, default
        if n == "CArrayDeclaratorNode":
            name, kind, extra, default = self.declarator(d.base)
            return name, "array", d.dimension, default
        if n == "CFuncDeclaratorNode":
            name, kind, extra, default = self.declarator(d.base)
            return name, "func", d, default
        raise AnalysisError("declarator " + n)

    # -- expressions
    def e(self, x):
        r = self._e(x)
        return self.at(r, x)

    BIN = {"+": ast.Add, "-": ast.Sub, "*": ast.Mult, "/": ast.Div, "//": ast.FloorDiv,
           "%": ast.Mod, "**": ast.Pow, "<<": ast.LShift, ">>": ast.RShift,
           "|": ast.BitOr, "&": ast.BitAnd, "^": ast.BitXor}
    CMP = {"<": ast.Lt, "<=": ast.LtE, ">": ast.Gt, ">=": ast.GtE, "==": ast.Eq,
           "!=": ast.NotEq, "is": ast.Is, "is_not": ast.IsNot, "in": ast.In, "not_in": ast.NotIn,
           "is not": ast.IsNot, "not in": ast.NotIn}

    def _e(self, x):
        n = type(x).__name__
        if n == "NameNode":
            return ast.Name(x.name, ast.Load())
        if n == "IntNode":
            return ast.Constant(int(str(x.value).rstrip("uUlL"), 0))
        if n == "FloatNode":
            return ast.Constant(float(x.value))
        if n in ("UnicodeNode", "StringNode", "BytesNode", "IdentifierStringNode"):
            return ast.Constant(str(x.value))
        if n == "BoolNode":
            return ast.Constant(bool(x.value))
        if n == "NoneNode":
            return ast.Constant(None)
        if n == "NullNode":
            return ast.Name("__NULL__", ast.Load())
        if n == "AttributeNode":
            return ast.Attribute(self.e(x.obj), str(x.attribute), ast.Load())
        if n == "IndexNode":
            return ast.Subscript(self.e(x.base), self.e(x.index), ast.Load())
        if n == "SliceIndexNode":
            return ast.Subscript(self.e(x.base), ast.Slice(
                self.e(x.start) if x.start is not None else None,
                self.e(x.stop) if x.stop is not None else None, None), ast.Load())
        if n == "SliceNode":
            f = lambda v: None if type(v).__name__ == "NoneNode" else self.e(v)
            return ast.Slice(f(x.start), f(x.stop), f(x.step))
        if n in ("SimpleCallNode",):
            return ast.Call(self.e(x.function), [self.e(a) for a in (x.args or [])], [])
        if n == "GeneralCallNode":
            pos = [self.e(a) for a in x.positional_args.args]
            kws = []
            if x.keyword_args is not None:
                for it in x.keyword_args.key_value_pairs:
                    kws.append(ast.keyword(str(it.key.value), self.e(it.value)))
            return ast.Call(self.e(x.function), pos, kws)
        if hasattr(x, "operand1") and hasattr(x, "operand2"):
            op = str(x.operator)
            if n == "BoolBinopNode":
                return ast.BoolOp(ast.And() if op == "and" else ast.Or(),
                                  [self.e(x.operand1), self.e(x.operand2)])
            if n in ("PrimaryCmpNode", "CascadedCmpNode"):
                ops = [self.CMP[op]()]
                vals = [self.e(x.operand2)]
                c = x.cascade
                while c is not None:
                    ops.append(self.CMP[str(c.operator)]())
                    vals.append(self.e(c.operand2))
                    c = c.cascade
                return ast.Compare(self.e(x.operand1), ops, vals)
            return ast.BinOp(self.e(x.operand1), self.BIN[op](), self.e(x.operand2))
        if n == "NotNode":
            return ast.UnaryOp(ast.Not(), self.e(x.operand))
        if n == "UnaryMinusNode":
            return ast.UnaryOp(ast.USub(), self.e(x.operand))
        if n == "UnaryPlusNode":
            return self.e(x.operand)
        if n == "TildeNode":
            return ast.UnaryOp(ast.Invert(), self.e(x.operand))
        if n == "CondExprNode":
            return ast.IfExp(self.e(x.condition if hasattr(x, "condition") else x.test),
                             self.e(x.true_val), self.e(x.false_val))
        if n == "TypecastNode":
            t = self.base_type(x.base_type)
            d = x.declarator
            while type(d).__name__ == "CPtrDeclaratorNode":
                t += "*"
                d = d.base
            return ast.Call(ast.Name("__cast__", ast.Load()), [ast.Constant(t), self.e(x.operand)], [])
        if n == "AmpersandNode":
            return ast.Call(ast.Name("__addr__", ast.Load()), [self.e(x.operand)], [])
        if n == "TupleNode":
            return ast.Tuple([self.e(a) for a in x.args], ast.Load())
        if n == "ListNode":
            return ast.List([self.e(a) for a in x.args], ast.Load())
        if n == "DictNode":
            return ast.Dict([self.e(i.key) for i in x.key_value_pairs],
                            [self.e(i.value) for i in x.key_value_pairs])
        if n == "JoinedStrNode":
            return ast.JoinedStr([self.e(v) if type(v).__name__ != "FormattedValueNode" else
                                  ast.FormattedValue(self.e(v.value), -1, None) for v in x.values])
        if n == "FormattedValueNode":
            return ast.FormattedValue(self.e(x.value), -1, None)
        raise AnalysisError(f"Cython expression {n} at {x.pos}")

    # -- statements
    def body(self, x):
        if x is None:
            return []
        n = type(x).__name__
        if n == "StatListNode":
            out = []
            for s in x.stats:
                out.extend(self.body(s))
            return out
        return [self.at(s, x) for s in self.stmt(x)]

    def store(self, x):
        t = self.e(x)
        for m in ast.walk(t):
            pass
        if isinstance(t, (ast.Name, ast.Attribute, ast.Subscript, ast.Tuple)):
            t.ctx = ast.Store()
        return t

    def stmt(self, x):
        n = type(x).__name__
        if n == "CVarDefNode":
            out = []
            bt = self.base_type(x.base_type)
            for d in x.declarators:
                name, kind, extra, default = self.declarator(d)
                if self.cinfo is not None:
                    self.cinfo.types[name] = (bt, kind)
                    if bt == "buffer":
                        self.cinfo.elems[name] = self.elem
                else:
                    self.consts[name] = (bt, kind)
                if kind == "array":
                    v = ast.Call(ast.Name("__array__", ast.Load()),
                                 [ast.Constant(name), self.e(extra)], [])
                    out.append(ast.Assign([ast.Name(name, ast.Store())], v))
                elif default is not None:
                    out.append(ast.Assign([ast.Name(name, ast.Store())], self.e(default)))
                elif kind == "scalar" and bt in self.structs:
                    v = ast.Call(ast.Name("__struct__", ast.Load()), [ast.Constant(name)], [])
                    out.append(ast.Assign([ast.Name(name, ast.Store())], v))
            for o in out:
                ast.fix_missing_locations(self.at(o, x))
            return out
        if n == "SingleAssignmentNode" and type(x.rhs).__name__ == "ImportNode":
            mod = str(x.rhs.module_name.value)
            nm = str(x.lhs.name)
            return [ast.Import([ast.alias(mod, nm if nm != mod else None)])]
        if n == "SingleAssignmentNode":
            return [ast.Assign([self.store(x.lhs)], self.e(x.rhs))]
        if n == "CascadedAssignmentNode":
            return [ast.Assign([self.store(l) for l in x.lhs_list], self.e(x.rhs))]
        if n == "InPlaceAssignmentNode":
            return [ast.AugAssign(self.store(x.lhs), self.BIN[str(x.operator)](), self.e(x.rhs))]
        if n == "ExprStatNode":
            return [ast.Expr(self.e(x.expr))]
        if n == "IfStatNode":
            orelse = self.body(x.else_clause) if x.else_clause is not None else []
            for c in reversed(x.if_clauses):
                orelse = [self.at(ast.If(self.e(c.condition), self.body(c.body), orelse), c)]
            return orelse
        if n == "ForInStatNode":
            return [ast.For(self.store(x.target), self.e(x.iterator.sequence),
                            self.body(x.body), self.body(x.else_clause))]
        if n == "ForFromStatNode":
            raise AnalysisError("for-from loop")
        if n == "WhileStatNode":
            cond = self.e(x.condition) if x.condition is not None else ast.Constant(True)
            return [ast.While(cond, self.body(x.body), self.body(x.else_clause))]
        if n == "ReturnStatNode":
            return [ast.Return(self.e(x.value) if x.value is not None else None)]
        if n == "BreakStatNode":
            return [ast.Break()]
        if n == "ContinueStatNode":
            return [ast.Continue()]
        if n == "PassStatNode":
            return [ast.Pass()]
        if n == "GILStatNode":
            return self.body(x.body)
        if n == "RaiseStatNode":
            return [ast.Raise(self.e(x.exc_type) if x.exc_type is not None else None, None)]
        if n == "ParallelRangeNode":
            pass
        if n in ("CImportStatNode", "FromCImportStatNode", "FromImportStatNode", "ImportNode",
                 "CStructOrUnionDefNode", "CEnumDefNode", "CTypeDefNode"):
            return []
        if n == "GlobalNode":
            return []
        if n == "AssertStatNode":
            return []
        raise AnalysisError(f"Cython statement {n} at {x.pos}")

    def funcdef(self, x):
        n = type(x).__name__
        self.cinfo = CInfo()
        args = []
        if n == "CFuncDefNode":
            name, kind, decl, _ = self.declarator(x.declarator)
            for a in decl.args:
                an, ak, _, _ = self.declarator(a.declarator)
                bt = self.base_type(a.base_type)
                if not an:
                    an, bt = bt, "object"
                args.append(an)
                self.cinfo.types[an] = (bt, ak)
                if bt == "buffer":
                    self.cinfo.elems[an] = self.elem
        else:
            name = x.name
            for a in x.args:
                an, ak, _, _ = self.declarator(a.declarator)
                bt = self.base_type(a.base_type)
                if not an:
                    an, bt = bt, "object"
                args.append(an)
                self.cinfo.types[an] = (bt, ak)
                if bt == "buffer":
                    self.cinfo.elems[an] = self.elem
        body = self.body(x.body) or [ast.Pass()]
        f = ast.FunctionDef(name, ast.arguments([], [ast.arg(a) for a in args], None, [], [], None, []),
                            body, [], None)
        f.type_params = []
        f.cinfo = self.cinfo
        self.cinfo = None
        self.at(f, x)
        ast.fix_missing_locations(f)
        return f

    def module(self, tree):
        body = []
        self.cinfo = None
        def top(x):
            n = type(x).__name__
            if n == "StatListNode":
                for s in x.stats:
                    top(s)
            elif n in ("CFuncDefNode", "DefNode"):
                body.append(self.funcdef(x))
            elif n == "CStructOrUnionDefNode":
                fields = {}
                for v in x.attributes or []:
                    bt = self.base_type(v.base_type)
                    for d in v.declarators:
                        nm, kind, extra, _ = self.declarator(d)
                        fields[nm] = (bt, kind)
                self.structs[x.name] = fields
            elif n == "CEnumDefNode":
                for it in x.items:
                    v = self.e(it.value) if it.value is not None else None
                    self.enums[it.name] = v
                    if v is not None:
                        body.append(ast.fix_missing_locations(self.at(
                            ast.Assign([ast.Name(it.name, ast.Store())], v), x)))
            elif n == "CompilerDirectivesNode":
                top(x.body)
            else:
                body.extend(self.body(x))
        top(tree.body)
        m = ast.Module(body, [])
        m.structs = self.structs
        return m


def parse_cython(path):
    from Cython.Compiler.Main import Context
    from Cython.Compiler.Scanning import FileSourceDescriptor
    from Cython.Compiler import Errors
    import Cython.Compiler.Options as O
    modname = "pvtrace.engine._kernel"
    opts = O.CompilationOptions(O.default_options, language_level=3)
    ctx = Context.from_options(opts)
    Errors.init_thread()
    sd = FileSourceDescriptor(path, os.path.basename(path))
    scope = ctx.find_module(modname, pos=(sd, 1, 0), need_pxd=False)
    tree = ctx.parse(sd, scope, pxd=0, full_module_name=modname)
    if getattr(Errors, "get_errors_count", None):
        pass
    return CyConv().module(tree)


# --------------------------------------------------------------------------

class Module:
    def __init__(self, rel, tree, lang):
        self.rel = rel
        self.tree = tree
        self.lang = lang
        self.functions = {}
        self.classes = {}
        self.imports = {}     # local name -> (module, name|None)
        self.assigns = {}     # module-level NAME = expr
        self.structs = getattr(tree, "structs", {})
        self.index()

    def index(self):
        for s in ast.walk(self.tree):
            if isinstance(s, ast.Import):
                for a in s.names:
                    self.imports[a.asname or a.name.split(".")[0]] = (a.name, None)
            elif isinstance(s, ast.ImportFrom):
                for a in s.names:
                    self.imports[a.asname or a.name] = (s.module or "", a.name)
        for s in self.tree.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)):
                self.functions[s.name] = s
                s.module = self
                s.cls = None
            elif isinstance(s, ast.ClassDef):
                self.classes[s.name] = s
                s.module = self
                s.methods = {}
                s.cattrs = {}
                for m in s.body:
                    if isinstance(m, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        m.module = self
                        m.cls = s
                        decs = [ast.unparse(d) for d in m.decorator_list]
                        m.is_property = any(d == "property" for d in decs)
                        m.is_static = any(d == "staticmethod" for d in decs)
                        m.is_class = any(d == "classmethod" for d in decs)
                        m.is_setter = any(d.endswith(".setter") for d in decs)
                        if m.is_setter:
                            s.methods[m.name + "$set"] = m
                        else:
                            s.methods[m.name] = m
                    elif isinstance(m, ast.Assign) and len(m.targets) == 1 and isinstance(m.targets[0], ast.Name):
                        s.cattrs[m.targets[0].id] = m.value
                    elif isinstance(m, ast.AnnAssign) and isinstance(m.target, ast.Name):
                        s.cattrs[m.target.id] = m.value
            elif isinstance(s, ast.Assign):
                for t in s.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = s.value
                    elif isinstance(t, ast.Tuple) and isinstance(s.value, ast.Tuple):
                        for a, b in zip(t.elts, s.value.elts):
                            if isinstance(a, ast.Name):
                                self.assigns[a.id] = b
            elif isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name) and s.value is not None:
                self.assigns[s.target.id] = s.value


class Repo:
    def __init__(self, root=None):
        self.root = root or REPO
        self.cache = {}

    def module(self, rel, optional=False):
        if rel in self.cache:
            return self.cache[rel]
        path = os.path.join(self.root, rel)
        if not os.path.exists(path):
            if optional:
                return None
            raise AnalysisError(f"source file {rel} not found")
        if rel.endswith(".pyx"):
            m = Module(rel, parse_cython(path), "cy")
        else:
            with open(path) as fp:
                try:
                    m = Module(rel, ast.parse(fp.read(), path), "py")
                except SyntaxError as x:
                    raise AnalysisError(f"{rel}: {x}")
        self.cache[rel] = m
        return m

    def py_modules(self):
        """Every Python module of the package (build products excluded)."""
        out = []
        base = os.path.join(self.root, "pvtrace")
        for d, ds, fs in os.walk(base):
            ds[:] = sorted(x for x in ds if x not in ("__pycache__", "build", "static"))
            for f in sorted(fs):
                if f.endswith(".py"):
                    out.append(self.module(os.path.relpath(os.path.join(d, f), self.root)))
        return out

    @functools.cached_property
    def class_index(self):
        idx = {}
        for m in self.py_modules():
            for c in m.classes.values():
                idx.setdefault(c.name, []).append(c)
        return idx

    def cls(self, name):
        c = self.class_index.get(name)
        if not c:
            raise AnalysisError(f"class {name} not found")
        return c[0]

    def bases(self, c):
        out = []
        for b in c.bases:
            n = b.id if isinstance(b, ast.Name) else b.attr if isinstance(b, ast.Attribute) else None
            if n in self.class_index:
                local = c.module.classes.get(n)
                out.append(local or self.class_index[n][0])
        return out

    def mro(self, c):
        out, todo = [], [c]
        while todo:
            x = todo.pop(0)
            if x in out:
                continue
            out.append(x)
            todo.extend(self.bases(x))
        return out

    def method(self, c, name):
        for k in self.mro(c):
            if name in k.methods:
                return k.methods[name]
        return None

    def subclasses(self, c):
        out = [c]
        for cs in self.class_index.values():
            for k in cs:
                if k is not c and c in self.mro(k):
                    out.append(k)
        return out

    @functools.cached_property
    def method_index(self):
        idx = {}
        for cs in self.class_index.values():
            for c in cs:
                for n, m in c.methods.items():
                    idx.setdefault(n, []).append(m)
        return idx

    def resolve_import(self, module, name):
        """Resolves a local name to ('func', def) / ('class', def) / ('module', Module)
        / ('ext', dotted)."""
        seen = set()
        while True:
            if (module.rel, name) in seen:
                return None
            seen.add((module.rel, name))
            if name in module.functions:
                return "func", module.functions[name]
            if name in module.classes:
                return "class", module.classes[name]
            if name in module.imports:
                mod, sub = module.imports[name]
                if sub is None:
                    rel = mod.replace(".", "/")
                    for cand in (rel + ".py", rel + "/__init__.py"):
                        if mod.startswith("pvtrace") and os.path.exists(os.path.join(self.root, cand)):
                            return "module", self.module(cand)
                    return "ext", mod
                rel = mod.replace(".", "/")
                if mod.startswith("pvtrace"):
                    for cand in (rel + "/" + sub + ".py", rel + "/" + sub + "/__init__.py"):
                        if os.path.exists(os.path.join(self.root, cand)):
                            return "module", self.module(cand)
                    for cand in (rel + ".py", rel + "/__init__.py"):
                        if os.path.exists(os.path.join(self.root, cand)):
                            module, name = self.module(cand), sub
                            break
                    else:
                        return "ext", mod + "." + sub
                    if name in module.assigns and name not in module.functions and name not in module.classes:
                        return "assign", (module, module.assigns[name])
                    continue
                return "ext", mod + "." + sub
            if name in module.assigns:
                return "assign", (module, module.assigns[name])
            if module.rel.startswith("specs/k_"):
                module = self.module("pvtrace/engine/_kernel.pyx")
                continue
            return None
