"""Calls are independent: no state survives a call, and what is encoded is left alone."""

from __future__ import annotations

import ast

from .fn import FnConfig, fn_paths, frame_of, script
from .interp import MUTATORS, Interp, kind_
from .project import AnalysisError, Class, live_body
from .terms import NONE, Closure, DictV, GenV, ListV, Obj, SetV, is_c, show

CONFIG_CLASSES = ("Encoder", "Decoder", "TagReader", "TagWriter", "NodeJsArrayBufferViewHostObjectHandler")
MUT = MUTATORS | {"__setitem__", "__delitem__", "move_to_end", "appendleft", "popleft", "update", "intersection_update",
                  "difference_update", "symmetric_difference_update", "cache_clear", "set", "reset"} - {"write", "release"}


# ------------------------------------------------------------------ shared state written by functions
def functions(p):
    """(module, class node or None, function node, owner name) of every function of the package."""
    for m in p.modules.values():
        todo = [(m.tree.body, None, "")]
        while todo:
            body, cls, pre = todo.pop()
            for st in live_body(body):
                if isinstance(st, (ast.FunctionDef, ast.AsyncFunctionDef)):
                    yield m, cls, st, f"{pre}{st.name}"
                    todo.append((st.body, cls, f"{pre}{st.name}."))
                elif isinstance(st, ast.ClassDef):
                    todo.append((st.body, st, f"{pre}{st.name}."))
                elif isinstance(st, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                    for b in (getattr(st, "body", []), getattr(st, "orelse", []), getattr(st, "finalbody", [])):
                        todo.append((b, cls, pre))


def own_nodes(fn):
    """Nodes of a function without those of functions nested in it."""
    todo = list(fn.body)
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Lambda)):
            continue
        todo += list(ast.iter_child_nodes(n))


def local_names(fn):
    a = fn.args
    out = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs + [y for y in (a.vararg, a.kwarg) if y]}
    glob = set()
    for n in own_nodes(fn):
        if isinstance(n, ast.Global):
            glob |= set(n.names)
        elif isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            out |= {(x.asname or x.name).split(".")[0] for x in n.names}
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
    return out - glob, glob


def root(n):
    """The name an attribute/item chain starts from, and whether anything was taken from it."""
    deep = False
    while isinstance(n, (ast.Attribute, ast.Subscript)):
        n, deep = n.value, True
    return n, deep


def mutable_expr(e):
    return isinstance(e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)) or (
        isinstance(e, ast.Call) and isinstance(e.func, (ast.Name, ast.Attribute))
        and (e.func.id if isinstance(e.func, ast.Name) else e.func.attr) in {
            "list", "dict", "set", "bytearray", "deque", "defaultdict", "OrderedDict", "Counter", "WeakValueDictionary",
            "WeakKeyDictionary", "WeakSet"})


class Scope:
    def __init__(self, p, m, cls, fn, outer=()):
        self.p, self.m, self.cls, self.fn = p, m, cls, fn
        self.locals, self.globals = local_names(fn)
        self.locals |= set(outer)
        args = fn.args.posonlyargs + fn.args.args
        decos = {ast.unparse(d).rsplit(".", 1)[-1] for d in fn.decorator_list}
        self.cls_param = args[0].arg if cls is not None and args and ("classmethod" in decos or fn.name in (
            "__init_subclass__", "__class_getitem__", "_missing_")) else None
        self.self_param = args[0].arg if cls is not None and args and "staticmethod" not in decos and self.cls_param is None \
            and fn.name != "__new__" else None
        self.alias = set()
        for n in own_nodes(fn):
            if isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
                v = n.value
                if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and v.func.attr in ("get", "setdefault"):
                    v = v.func.value
                if isinstance(v, (ast.Name, ast.Attribute, ast.Subscript)) and self.shared(v, alias=False) \
                        and self.mutable_origin(v):
                    self.alias.add(n.targets[0].id)

    def shared(self, n, alias=True):
        """Does this expression denote something that outlives the call?"""
        r, deep = root(n)
        if isinstance(r, ast.Call) and isinstance(r.func, ast.Name) and r.func.id == "type" and deep:
            return True
        if isinstance(n, ast.Attribute) and isinstance(n.value, ast.Attribute) and n.value.attr == "__class__":
            return True
        if not isinstance(r, ast.Name):
            return False
        if r.id == self.cls_param:
            return deep
        if alias and r.id in self.alias:
            return True
        if r.id in self.locals:
            return False
        d = self.m.defs.get(r.id)
        if d is None:
            return False
        if d[0] == "import":
            return d[1].startswith("v8serialize") and (deep or self.mutable_origin(n))
        return True

    def mutable_origin(self, n):
        """Is the module-level name bound to something mutable (not an enum, type or constant)?"""
        r, deep = root(n)
        if not isinstance(r, ast.Name):
            return True
        d = self.m.defs.get(r.id)
        if d is None:
            return r.id == self.cls_param
        if d[0] == "expr":
            return mutable_expr(d[1]) or isinstance(d[1], ast.Call)
        if d[0] == "class":
            return deep
        if d[0] == "import":
            return True
        return False


def restored(fn, name):
    """The function undoes the write in a finally block."""
    for n in own_nodes(fn):
        if isinstance(n, ast.Try) and n.finalbody:
            for x in n.finalbody:
                for y in ast.walk(x):
                    if isinstance(y, ast.Name) and y.id == name:
                        return True
    return False


def writes(sc):
    """(node, description) of the writes a function performs to shared state."""
    for n in own_nodes(sc.fn):
        targets = []
        if isinstance(n, ast.Assign):
            targets = list(n.targets)
        elif isinstance(n, (ast.AugAssign, ast.AnnAssign)):
            targets = [n.target] if not (isinstance(n, ast.AnnAssign) and n.value is None) else []
        elif isinstance(n, ast.Delete):
            targets = list(n.targets)
        elif isinstance(n, (ast.For, ast.comprehension)):
            targets = [n.target]
        flat = []
        while targets:
            t = targets.pop()
            if isinstance(t, (ast.Tuple, ast.List)):
                targets = targets + list(t.elts)
            elif isinstance(t, ast.Starred):
                targets = targets + [t.value]
            else:
                flat.append(t)
        for t in flat:
            if isinstance(t, ast.Name) and t.id in sc.globals:
                yield t, t.id, f"the module variable {t.id} is assigned"
            elif isinstance(t, (ast.Attribute, ast.Subscript)) and sc.shared(t.value if isinstance(t, ast.Subscript) else t):
                r, _ = root(t)
                yield t, getattr(r, "id", "type"), f"{ast.unparse(t)} is assigned"
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and sc.shared(n.func.value) \
                and sc.mutable_origin(n.func.value):
            r, _ = root(n.func.value)
            yield n, getattr(r, "id", "type"), f"{ast.unparse(n.func)}() changes it"
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id == "setattr" and n.args and sc.shared(n.args[0]):
            yield n, "setattr", f"{ast.unparse(n)[:60]} changes it"


def check_shared_state(p, rep):
    rep.rule("no function changes module-level or class-level state, except for changes undone in a finally block; no "
             "mutable default argument is changed or kept")
    for m, cls, fn, name in functions(p):
        sc = Scope(p, m, cls, fn)
        rep.ob("functions checked for shared writes")
        rep.functions.add(f"{m.name}.{name}")
        where = f"{m.relpath}:{fn.lineno} {name}"
        for n, var, what in writes(sc):
            if restored(fn, var):
                continue
            rep.viol("shared-state", where, f"state that outlives the call is changed: {what}")
        a = fn.args
        pos = a.posonlyargs + a.args
        pairs = list(zip(pos[len(pos) - len(a.defaults):], a.defaults)) + [
            (x, d) for x, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None]
        for x, d in pairs:
            if not mutable_expr(d):
                continue
            for n in own_nodes(fn):
                hit = isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT and getattr(root(n.func.value)[0], "id", None) == x.arg \
                    or isinstance(n, (ast.Assign, ast.AugAssign)) and any(
                        isinstance(t, ast.Subscript) and getattr(root(t)[0], "id", None) == x.arg
                        for t in (n.targets if isinstance(n, ast.Assign) else [n.target])) \
                    or isinstance(n, ast.Assign) and isinstance(n.value, ast.Name) and n.value.id == x.arg and any(
                        isinstance(t, ast.Attribute) for t in n.targets)
                if hit:
                    rep.viol("shared-default", where, f"the mutable default of {x.arg} is shared between calls and changed or kept")
    rep.at_least("functions checked for shared writes", 300)


# ------------------------------------------------------------------ reusable configuration is not changed by its use
def check_config_unchanged(p, rep):
    rep.rule("encoders, decoders, step objects and handlers keep nothing of a call: no method used while encoding or decoding "
             "changes the object's own attributes")
    for cn in CONFIG_CLASSES:
        try:
            c = p.cls(cn)
        except AnalysisError:
            rep.undecided.append(f"class {cn} not found")
            continue
        for k in p.mro(c):
            if not isinstance(k, Class):
                continue
            init = {"__init__", "__post_init__", "__new__", "__setstate__"}
            while True:  # methods reached only from the constructor
                more = set()
                for name, f in k.methods.items():
                    if name in init:
                        continue
                    users = [g for g in k.methods.values() if g is not f and any(
                        isinstance(n, ast.Attribute) and n.attr == name and isinstance(n.value, ast.Name) and n.value.id == "self"
                        for n in ast.walk(g.node))]
                    if users and all(u.name in init for u in users):
                        more.add(name)
                if not more:
                    break
                init |= more
            for name, f in k.methods.items():
                if name in init or f.is_static or f.is_class or f.setter is not None:
                    continue
                args = f.node.args.posonlyargs + f.node.args.args
                if not args:
                    continue
                me = args[0].arg
                rep.ob("methods of reusable objects checked")
                for n in own_nodes(f.node):
                    ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target] if isinstance(n, ast.AugAssign) \
                        else [n.target] if isinstance(n, ast.AnnAssign) and n.value is not None else []
                    for t in ts:
                        if isinstance(t, (ast.Attribute, ast.Subscript)) and getattr(root(t)[0], "id", None) == me:
                            rep.viol("config-state", f"{f.loc()} {k.name}.{name}", f"{ast.unparse(t)} is changed by a call")
                    if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in MUT:
                        r, deep = root(n.func.value)
                        if deep and getattr(r, "id", None) == me:
                            rep.viol("config-state", f"{f.loc()} {k.name}.{name}", f"{ast.unparse(n.func)}() changes the object during a call")
                    if isinstance(n, ast.Call) and ast.unparse(n.func) in ("object.__setattr__", "setattr") and n.args \
                            and isinstance(n.args[0], ast.Name) and n.args[0].id == me:
                        rep.viol("config-state", f"{f.loc()} {k.name}.{name}", "the object is changed by a call")
    rep.at_least("methods of reusable objects checked", 30)


# ------------------------------------------------------------------ heap sharing between two calls or two instances
SHARED_CONFIG = (*CONFIG_CLASSES, "TagReaderRegistry", "TagConstraint")


def reach(x, seen=None, path="", skip=()):
    """Mutable abstract objects reachable from x, with how."""
    seen = {} if seen is None else seen
    todo = [(x, path)]
    while todo:
        v, at = todo.pop()
        if any(v is s for s in skip):
            continue
        if isinstance(v, (Obj, ListV, DictV, SetV)):
            if id(v) in seen:
                continue
            seen[id(v)] = (v, at)
            if v is not x and isinstance(v, Obj) and v.cls is not None and v.cls.name in SHARED_CONFIG:
                continue  # shared between calls on purpose; check_config_unchanged decides that no call changes them
            if isinstance(v, Obj):
                todo += [(y, f"{at}.{n}") for n, y in v.fields.items()]
            elif isinstance(v, DictV):
                todo += [(y, f"{at}[...]") for y in v.items.values()]
                if v.rest is not None:
                    todo.append((v.rest, at))
            else:
                todo += [(y, f"{at}[...]") for y in (v.items if isinstance(v.items, list) else ())]
        elif isinstance(v, tuple):
            if kind_(v) == "memo" and len(v) > 3:
                seen[v] = (v, at)
            todo += [(y, at) for y in v if isinstance(y, (tuple, Obj, ListV, DictV, SetV))]
    return seen


def frozen_obj(v):
    """Instances nothing can change."""
    if not isinstance(v, Obj) or v.cls is None:
        return False
    for d in v.cls.node.decorator_list:
        if isinstance(d, ast.Call) and any(k.arg == "frozen" and isinstance(k.value, ast.Constant) and k.value.value for k in d.keywords):
            return True
    return v.cls.name in SHARED_CONFIG


def compare_heaps(rep, label, a, b, skip, what, allow=lambda v: False):
    ra, rb = reach(a, skip=skip), reach(b, skip=skip)
    rep.ob("pairs of heaps compared")
    for k, (v, at) in ra.items():
        if k in rb and not frozen_obj(v) and not allow(v):
            n = v.cls.name if isinstance(v, Obj) and v.cls else type(v).__name__ if not isinstance(v, tuple) else "cache"
            rep.viol("shared-object", label, f"{what} share the {n} at {at or 'top'}")


def _twice(p, cfg, func, mk):
    ip = Interp(p, cfg)

    def setup(ip):
        args, kw = mk(ip)
        ip.roots = list(args)
        out = []
        for i in range(2):
            del ip.events[:]
            ip.call_func(func, list(args), dict(kw), None, frame_of(ip, func))
            out.append([e.extra for e in ip.events if e.kind == "tok"])
        ip.ctx = {"runs": out, "args": args}
        return NONE
    return ip.explore(setup), ip


def check_fresh(p, rep):
    rep.rule("every call of an encoder or decoder works on its own context, stream, object log and caches; two instances of "
             "any of the package's mutable types share nothing mutable")
    from .rules_core import EntryConfig, pkg_func
    sym = ("sym", "value", "obj")

    def enc(ip):
        o = ip.construct(p.cls("Encoder"), [], {}, None, frame_of(ip, p.find_method(p.cls("Encoder"), "__init__")))
        return [o, sym], {}

    def dec(ip):
        o = ip.construct(p.cls("Decoder"), [], {}, None, frame_of(ip, p.find_method(p.cls("Decoder"), "__init__")))
        return [o, sym], {}
    for label, f, mk in (("Encoder.encode", p.find_method(p.cls("Encoder"), "encode"), enc), ("dumps", pkg_func(p, "encode", "dumps"), lambda ip: ([sym], {})),
                         ("Decoder.decodes", p.find_method(p.cls("Decoder"), "decodes"), dec), ("loads", pkg_func(p, "decode", "loads"), lambda ip: ([sym], {}))):
        ps, ip = _twice(p, EntryConfig(p), f, mk)
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "return":
                continue
            vals = [[t.b for t in r if t.kind == "VALUE"] for r in q.ctx["runs"]]
            if len(vals[0]) == 1 and len(vals[1]) == 1:
                skip = [a for a in q.ctx["args"] if isinstance(a, Obj)]
                compare_heaps(rep, label, vals[0][0], vals[1][0], skip, "two calls")
    for cn in INSTANCES:
        try:
            c = p.cls(cn)
        except AnalysisError:
            continue
        f = p.find_method(c, "__init__")
        ip = Interp(p, FnConfig())

        def setup(ip):
            a = [ip.construct(c, [], {}, None, frame_of(ip, f or next(iter(c.methods.values())))) for _ in range(2)]
            ip.ctx = {"pair": a}
            return NONE
        for q in ip.explore(setup):
            if q.outcome == "return":
                a, b = q.ctx["pair"]
                compare_heaps(rep, cn, a, b, [], f"two {cn} instances")
    rep.at_least("pairs of heaps compared", 10)


STEPS = (("encode", "Encoder", "encode_steps", ""), ("decode", "Decoder", "decode_steps", ""),
         ("encode", "DefaultEncodeContext", "encode_steps", ""), ("decode", "DefaultDecodeContext", "decode_steps", "stream=t, "))
SEQUENCES = {"tuple", "list", "collections.abc.Sequence", "typing.Sequence"}


def check_steps_kept(p, rep):
    rep.rule("the steps given, which may be any iterable, are kept as a sequence of their own: an iterator that is used up by the "
             "first call would leave the following calls without steps")
    given = ("sym", "s", "obj")
    for module, cn, opt, more in STEPS:
        ps, ip = script(p, f"x = {cn}({more}{opt}=s)\nreturn x.{opt}", {"s": given, "t": ("sym", "t", "obj")}, None, "v8serialize." + module)
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "return":
                continue
            rep.ob("kept steps decided")
            v = q.value
            if v == given:
                known = any(t is True and isinstance(a, tuple) and a[0] == "isinstance" and a[1] == given and
                            str(a[2][1]).replace("builtins.", "") in SEQUENCES for a, t in q.atoms.items()) or q.atoms.get(("is", given, NONE))
                if not known and not any(kind_(x) == "tup" or isinstance(x, ListV) for x in q.doms.get(given, ())):
                    rep.viol("steps-kept", cn, f"{opt} is kept as given, so an iterator of steps is used up by the first call")
            elif isinstance(v, GenV) or kind_(v) == "call" and v[1][0] == "ext" and v[1][1].rsplit(".", 1)[-1] in (
                    "iter", "map", "filter", "chain", "reversed", "islice", "zip"):
                rep.viol("steps-kept", cn, f"{opt} is kept as {show(v)}, which is used up by the first call")
            elif not (isinstance(v, (ListV, SetV)) or kind_(v) == "tup" or kind_(v) == "call" and v[1] in (
                    ("ext", "builtins.tuple"), ("ext", "builtins.list")) or show(v).startswith("default_")):
                rep.undecided.append(f"{cn}: {opt} is kept as {show(v)}, which is not understood")
    rep.at_least("kept steps decided", 4)


INSTANCES = ("WritableTagStream", "SerializedObjectLog", "JSObject", "JSArray", "JSMap", "JSSet", "JSError", "JSErrorData",
             "DenseArrayProperties", "SparseArrayProperties", "TagReader", "TagReaderRegistry", "DefaultEncodeContext")


# ------------------------------------------------------------------ the value encoded is not changed
def derived(t, v, depth=0):
    while depth < 12:
        if t is v or t == v:
            return True
        if isinstance(t, tuple) and t and t[0] in ("attr", "elem", "item", "index") and len(t) > 1:
            t = t[1]
            depth += 1
            continue
        return False
    return False


def check_value_untouched(p, rep):
    rep.rule("no writer changes the value it writes: no attribute or item of it is assigned and no mutating method of it is called")
    from .rules_writer import runs
    rep.ob("writer paths checked", 0)
    for run in runs(p, rep):
        rep.ob("writer paths checked")
        vs = [v for v in [run.value, *run.params.values()] if v is not None and not is_c(v)]
        for e in run.path.events:
            tgt = None
            if e.kind == "call" and kind_(e.f) == "attr" and e.f[2] in MUT:
                tgt = e.f[1]
            elif e.kind in ("setattr", "delattr"):
                tgt = e.f[1]
            elif e.kind in ("setitem", "delitem"):
                tgt = e.f
            if tgt is not None and any(derived(tgt, v) for v in vs):
                rep.viol("value-changed", run.entry, f"{e.loc()}: the value being written is changed ({e.kind} {show(e.f)})")
    rep.at_least("writer paths checked", 100)
