"""Loads the package's source as syntax trees and resolves names statically.

Nothing in here imports or runs the analysed package: modules are parsed with
`ast`, `if TYPE_CHECKING` blocks and `@overload` stubs are dropped, and
`sys.version_info` tests are decided for the interpreter the package is built
for (3.12).
"""

from __future__ import annotations

import ast
import builtins
import os

PKG = "v8serialize"
VERSION = (3, 12)


class AnalysisError(Exception):
    """The analysis itself could not run (not a verdict on the code)."""


def repo_root() -> str:
    return os.environ.get("VERIF_REPO", "/repo")


def static_test(node, type_checking=False):
    """Decide an `if` test statically: True / False / None (unknown)."""
    if isinstance(node, ast.Name) and node.id == "TYPE_CHECKING":
        return type_checking
    if isinstance(node, ast.Attribute) and node.attr == "TYPE_CHECKING":
        return type_checking
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
        v = static_test(node.operand)
        return None if v is None else not v
    if isinstance(node, ast.BoolOp):
        vs = [static_test(v) for v in node.values]
        if isinstance(node.op, ast.Or):
            if any(v is True for v in vs):
                return True
            return False if all(v is False for v in vs) else None
        if any(v is False for v in vs):
            return False
        return True if all(v is True for v in vs) else None
    if isinstance(node, ast.Compare) and len(node.ops) == 1:
        left = ast.unparse(node.left)
        if left == "sys.version_info":
            try:
                rhs = ast.literal_eval(node.comparators[0])
            except ValueError:
                return None
            lhs = VERSION
            op = node.ops[0]
            if isinstance(op, ast.Lt):
                return lhs < rhs
            if isinstance(op, ast.GtE):
                return lhs >= rhs
            if isinstance(op, ast.Gt):
                return lhs > rhs
            if isinstance(op, ast.LtE):
                return lhs <= rhs
    return None


def live_body(stmts):
    """Statements with statically decided `if`s flattened."""
    for st in stmts:
        if isinstance(st, ast.If):
            v = static_test(st.test)
            if v is True:
                yield from live_body(st.body)
                continue
            if v is False:
                yield from live_body(st.orelse)
                continue
        yield st


def deco_names(node):
    out = []
    for d in node.decorator_list:
        t = d.func if isinstance(d, ast.Call) else d
        out.append(ast.unparse(t))
    return out


class Func:
    def __init__(self, qual, node, module, cls=None):
        self.qual = qual
        self.node = node
        self.module = module
        self.cls = cls
        self.name = getattr(node, "name", "<lambda>")
        self.decos = deco_names(node) if hasattr(node, "decorator_list") else []
        last = [d.rsplit(".", 1)[-1] for d in self.decos]
        self.is_property = "property" in last or "cached_property" in last
        self.is_static = "staticmethod" in last
        self.is_class = "classmethod" in last
        self.is_ctxmgr = "contextmanager" in last
        self.is_dispatch = "singledispatchmethod" in last or "singledispatch" in last
        self.is_cached = "lru_cache" in last or "cache" in last
        self.setter = None
        self.is_gen = has_yield(node)

    def loc(self):
        return f"{self.module.relpath}:{getattr(self.node, 'lineno', 0)}"

    def __repr__(self):
        return f"<Func {self.qual}>"


def has_yield(node):
    if isinstance(node, ast.Lambda):
        return False
    stack = list(node.body)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.Lambda, ast.ClassDef)):
            continue
        if isinstance(n, ast.GeneratorExp):
            continue
        stack.extend(ast.iter_child_nodes(n))
    return False


class Class:
    def __init__(self, qual, node, module):
        self.qual = qual
        self.name = node.name
        self.node = node
        self.module = module
        self.methods = {}  # name -> Func
        self.attrs = {}  # name -> (value expr | None, annotation | None, node)
        self.registrations = []  # (dispatcher name, type expr, Func)
        self.order = []
        self.decos = deco_names(node)
        for st in live_body(node.body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                d = deco_names(st)
                if any(x.rsplit(".", 1)[-1] == "overload" for x in d):
                    continue
                fn = Func(f"{qual}.{st.name}", st, module, self)
                setter = next((x for x in d if x.endswith(".setter")), None)
                if setter:
                    base = setter[: -len(".setter")]
                    if base in self.methods:
                        self.methods[base].setter = fn
                    continue
                regs = [
                    x for x in st.decorator_list
                    if isinstance(x, ast.Call)
                    and isinstance(x.func, ast.Attribute)
                    and x.func.attr == "register"
                ]
                for r in regs:
                    self.registrations.append(
                        (ast.unparse(r.func.value), r.args[0] if r.args else None, fn)
                    )
                self.methods[st.name] = fn
            elif isinstance(st, ast.AnnAssign) and isinstance(st.target, ast.Name):
                self.attrs[st.target.id] = (st.value, st.annotation, st)
                self.order.append(st.target.id)
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.attrs[t.id] = (st.value, None, st)
                        self.order.append(t.id)

    def is_dataclass(self):
        return any(d.rsplit(".", 1)[-1] == "dataclass" for d in self.decos)

    def dataclass_opts(self):
        for d in self.node.decorator_list:
            t = d.func if isinstance(d, ast.Call) else d
            if ast.unparse(t).rsplit(".", 1)[-1] == "dataclass":
                opts = {}
                if isinstance(d, ast.Call):
                    for k in d.keywords:
                        if k.arg and isinstance(k.value, ast.Constant):
                            opts[k.arg] = k.value.value
                return opts
        return None

    def loc(self):
        return f"{self.module.relpath}:{self.node.lineno}"

    def __repr__(self):
        return f"<Class {self.qual}>"


class Module:
    def __init__(self, project, name, path):
        self.project = project
        self.name = name
        self.path = path
        self.relpath = os.path.relpath(path, project.root)
        with open(path, encoding="utf-8") as f:
            self.source = f.read()
        try:
            self.tree = ast.parse(self.source, filename=path)
        except SyntaxError as e:
            raise AnalysisError(f"{path}: {e}") from e
        self.defs = {}  # name -> ("func", Func)|("class", Class)|("expr", node)|("import", dotted)
        self.is_pkg = os.path.basename(path) == "__init__.py"
        self._collect(self.tree.body)
        for n in ast.walk(self.tree):
            for c in ast.iter_child_nodes(n):
                c._parent = n

    def _collect(self, body):
        for st in live_body(body):
            if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                if any(x.rsplit(".", 1)[-1] == "overload" for x in deco_names(st)):
                    continue
                self.defs[st.name] = ("func", Func(f"{self.name}.{st.name}", st, self))
            elif isinstance(st, ast.ClassDef):
                self.defs[st.name] = ("class", Class(f"{self.name}.{st.name}", st, self))
            elif isinstance(st, ast.Import):
                for a in st.names:
                    if a.asname:
                        self.defs[a.asname] = ("import", a.name)
                    else:
                        top = a.name.split(".")[0]
                        self.defs[top] = ("import", top)
            elif isinstance(st, ast.ImportFrom):
                base = st.module or ""
                if st.level:
                    parts = self.name.split(".")
                    if not self.is_pkg:
                        parts = parts[:-1]
                    parts = parts[: len(parts) - (st.level - 1)]
                    base = ".".join(parts + ([st.module] if st.module else []))
                for a in st.names:
                    self.defs[a.asname or a.name] = ("import", f"{base}.{a.name}")
            elif isinstance(st, ast.Assign):
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("expr", st.value)
                    elif isinstance(t, (ast.Tuple, ast.List)):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = ("item", (st.value, i))
            elif isinstance(st, ast.AnnAssign):
                if isinstance(st.target, ast.Name) and st.value is not None:
                    self.defs[st.target.id] = ("expr", st.value)
            elif isinstance(st, ast.Try):
                self._collect(st.body)
            elif isinstance(st, ast.If):
                self._collect(st.body)
                self._collect(st.orelse)
            elif isinstance(st, ast.With):
                self._collect(st.body)


class Project:
    def __init__(self, root=None):
        self.root = root or repo_root()
        self.modules = {}
        self._rebound = {}
        src = os.path.join(self.root, "src", PKG)
        if not os.path.isdir(src):
            raise AnalysisError(f"no package source at {src}")
        for d, dirs, files in os.walk(src):
            dirs[:] = sorted(x for x in dirs if x != "__pycache__")
            for f in sorted(files):
                if not f.endswith(".py"):
                    continue
                p = os.path.join(d, f)
                rel = os.path.relpath(p, os.path.dirname(src))[:-3].split(os.sep)
                if rel[-1] == "__init__":
                    rel = rel[:-1]
                name = ".".join(rel)
                self.modules[name] = Module(self, name, p)
        self.classes = {}
        self.funcs = {}
        for m in self.modules.values():
            for kind, v in m.defs.values():
                if kind == "class":
                    self._add_class(v)
                elif kind == "func":
                    self.funcs[v.qual] = v
        self._mro = {}

    def _add_class(self, c):
        self.classes[c.qual] = c
        for f in c.methods.values():
            self.funcs[f.qual] = f
            if f.setter:
                self.funcs[f.setter.qual + ".setter"] = f.setter

    # -- names -----------------------------------------------------------
    def lookup(self, dotted, depth=0):
        """Resolve a dotted path to ("func"|"class"|"expr"|"module"|"ext", x[, module])."""
        if depth > 20:
            return ("ext", dotted)
        if dotted in self.modules:
            return ("module", self.modules[dotted])
        if "." in dotted:
            base, name = dotted.rsplit(".", 1)
            r = self.lookup(base, depth + 1)
            if r[0] == "module":
                return self.lookup_in(r[1], name, depth + 1)
            if r[0] == "class":
                c = r[1]
                if name in c.methods:
                    return ("func", c.methods[name])
                return ("classattr", (c, name))
        return ("ext", dotted)

    def rebound(self, module):
        """Names of the module that its functions assign to."""
        if module.name not in self._rebound:
            self._rebound[module.name] = {n for st in ast.walk(module.tree) if isinstance(st, ast.Global) for n in st.names}
        return self._rebound[module.name]

    def lookup_in(self, module, name, depth=0):
        d = module.defs.get(name)
        if d is None:
            sub = f"{module.name}.{name}"
            if sub in self.modules:
                return ("module", self.modules[sub])
            if hasattr(builtins, name):
                return ("ext", f"builtins.{name}")
            return ("ext", f"{module.name}.{name}")
        kind, v = d
        if kind == "import":
            return self.lookup(v, depth + 1)
        if kind in ("expr", "item"):
            return (kind, (module, name, v))
        return (kind, v)

    def resolve_expr(self, module, node):
        """Resolve Name/Attribute expressions in a module scope."""
        if isinstance(node, ast.Subscript):
            return self.resolve_expr(module, node.value)
        if isinstance(node, ast.Name):
            return self.lookup_in(module, node.id)
        if isinstance(node, ast.Attribute):
            b = self.resolve_expr(module, node.value)
            if b[0] == "module":
                return self.lookup_in(b[1], node.attr)
            if b[0] == "ext":
                return ("ext", f"{b[1]}.{node.attr}")
            if b[0] == "class":
                c = b[1]
                for k in self.mro(c):
                    if isinstance(k, Class):
                        if node.attr in k.methods:
                            return ("func", k.methods[node.attr])
                        if node.attr in k.attrs:
                            return ("classattr", (k, node.attr))
                return ("classattr", (c, node.attr))
        if isinstance(node, ast.Call):
            f = self.resolve_expr(module, node.func)
            if f[0] == "ext" and f[1].endswith("cast") and len(node.args) == 2:
                return self.resolve_expr(module, node.args[1])
        return ("?", None)

    # -- classes ---------------------------------------------------------
    def bases(self, c):
        out = []
        for b in c.node.bases:
            r = self.resolve_expr(c.module, b)
            if r[0] == "class":
                out.append(r[1])
            elif r[0] == "ext":
                out.append(r[1])
            elif r[0] in ("expr", "item"):
                # alias such as IntEnum = ...
                out.append(f"{r[1][0].name}.{r[1][1]}")
        return out

    def virtual_bases(self, c):
        """Classes and external names that c is registered with as a virtual subclass."""
        if not hasattr(self, "_virtual"):
            self._virtual = {}

            def add(module, owner, qual):
                o = self.resolve_expr(module, owner)
                if o[0] in ("class", "ext"):
                    self._virtual.setdefault(qual, []).append(o[1])
            for k in self.classes.values():
                for d in k.node.decorator_list:
                    if isinstance(d, ast.Attribute) and d.attr == "register":
                        add(k.module, d.value, k.qual)
            for m in self.modules.values():
                for st in ast.walk(m.tree):
                    if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                            and st.value.func.attr == "register" and len(st.value.args) == 1 and isinstance(st.value.args[0], ast.Name):
                        k = self.resolve_expr(m, st.value.args[0])
                        if k[0] == "class":
                            add(m, st.value.func.value, k[1].qual)
        return self._virtual.get(c.qual, [])

    def mro(self, c):
        """C3-ish linearisation: Class objects and external dotted names."""
        if not isinstance(c, Class):
            return [c]
        if c.qual in self._mro:
            return self._mro[c.qual]
        self._mro[c.qual] = [c]
        seqs = []
        bs = self.bases(c)
        for b in bs:
            seqs.append(list(self.mro(b)))
        seqs.append(list(bs))
        out = [c]
        while True:
            seqs = [s for s in seqs if s]
            if not seqs:
                break
            for s in seqs:
                cand = s[0]
                if not any(cand in t[1:] for t in seqs):
                    break
            else:
                cand = seqs[0][0]
            out.append(cand)
            for s in seqs:
                if s and s[0] == cand:
                    del s[0]
                elif cand in s:
                    s.remove(cand)
        self._mro[c.qual] = out
        return out

    def find_method(self, c, name):
        r = self.find_attr(c, name)
        return r[1] if r is not None and r[0] == "func" else None

    def find_attr(self, c, name):
        for k in self.mro(c):
            if isinstance(k, Class):
                n = name
                pre = f"_{k.name.lstrip('_')}__"
                if n.startswith(pre) and not n.endswith("__"):
                    n = n[len(pre) - 2:]  # a private name, mangled with this class
                if n in k.methods:
                    return ("func", k.methods[n])
                if n in k.attrs and k.attrs[n][0] is not None:
                    return ("expr", (k, n))
        return None

    def cls(self, short):
        """Find a class by (unique) short name."""
        m = [c for c in self.classes.values() if c.name == short]
        if len(m) != 1:
            raise AnalysisError(f"class {short}: {len(m)} definitions found")
        return m[0]

    def func(self, qual_suffix):
        m = [f for q, f in self.funcs.items() if q == qual_suffix or q.endswith("." + qual_suffix)]
        if len(m) != 1:
            raise AnalysisError(f"function {qual_suffix}: {len(m)} definitions found")
        return m[0]

    def subclass_names(self, c):
        """All names (quals and external dotted names) in the MRO."""
        return {k.qual if isinstance(k, Class) else k for k in self.mro(c)}

    def is_enum(self, c):
        return any(
            (k if isinstance(k, str) else k.qual).rsplit(".", 1)[-1]
            in ("Enum", "IntEnum", "Flag", "IntFlag", "StrEnum", "_IntEnum")
            for k in self.mro(c)
        )

    def exc_names(self, c):
        """Every exception class name (short) that `except X` would match for class c."""
        out = set()
        for k in self.mro(c):
            if isinstance(k, Class):
                out.add(k.qual)
            else:
                n = k.rsplit(".", 1)[-1]
                b = getattr(builtins, n, None)
                if isinstance(b, type):
                    for x in b.__mro__:
                        out.add(f"builtins.{x.__name__}")
        return out

    def all_functions(self):
        """Every function node in the package, including nested ones."""
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                    yield m, n
