"""Equality and hashing of the JavaScript value types."""

from __future__ import annotations

import ast

from .fn import FnConfig, script
from .interp import kind_
from .project import Class
from .terms import C, FALSE, NONE, TRUE, Obj, is_c, lin_of, show, subterms

J = "v8serialize.jstypes."


class _EqCfg(FnConfig):
    deep_eq = True


def syms():
    env = {n: ("sym", n, "obj") for n in "vwtuopqr"}
    env.update({f"s{i}": ("sym", f"s{i}", "str") for i in range(1, 5)})
    env.update({f"n{i}": ("sym", f"n{i}", "nat") for i in range(1, 5)})
    env.update({f"b{i}": ("sym", f"b{i}", "bytes") for i in range(1, 3)})
    return env


def rel(q, x, y):
    """Whether x == y is known on the path."""
    if x == y:
        return True
    key = tuple(sorted((x, y), key=repr))
    for op in ("eq", "is"):
        v = q.atoms.get((op,) + key)
        if v is True or op == "eq" and v is False:
            return v
    dx, dy = q.doms.get(x), q.doms.get(y)
    if dx is not None and dy is not None:
        if len(dx) == 1 and dx == dy:
            return True
        if not dx & dy:
            return False
    for a, v in q.atoms.items():
        if a[0] == "eq0":
            d = dict(a[1])
            if a[2] == 0 and set(d) == {x, y} and sorted(d.values()) == [-1, 1]:
                return v
    for a, b in ((x, y), (y, x)):
        d = q.doms.get(b)
        if d is not None and len(d) == 1:
            (c,) = d
            k = tuple(sorted((a, c), key=repr))
            if ("eq",) + k in q.atoms:
                return q.atoms[("eq",) + k]
            if c in q.excl.get(a, ()):
                return False
    return None


def label(p, cn):
    c = p.cls(cn)
    e = effective(p, c)
    return f"{c.module.relpath}:{e[1].node.lineno if e is not None and e[0] == 'method' else c.node.lineno} equality of {cn}"


def effective(p, c):
    from .interp import Interp
    return Interp.effective_eq(_Shim(p), c)


class _Shim:
    def __init__(self, p):
        self.p = p

    def dataclass_fields(self, c):
        from .interp import Interp
        return Interp.dataclass_fields(self, c)


def judge(rep, q, la, what, expect):
    """expect: True, False, or [(x, y, name)] whose equality the result has to be."""
    if any(e.kind == "loop" for e in q.events):
        rep.undecided.append(f"{la}: a loop in comparing {what} is not understood")
        return
    if q.outcome == "raise":
        rep.viol("equality", la, f"comparing {what} ends in {q.exc_name()}")
        return
    if q.value not in (TRUE, FALSE):
        rep.undecided.append(f"{la}: comparing {what} gives {show(q.value)[:60]}")
        return
    equal = q.value == TRUE
    if expect is True or expect is False:
        if equal != expect:
            rep.viol("equality", la, f"{what} are {'equal' if equal else 'unequal'}")
        return
    rels = [(n, rel(q, x, y)) for x, y, n in expect]
    if equal:
        bad = [n for n, r in rels if r is not True]
        if bad:
            rep.viol("equality", la, f"{what} are equal whatever {' and '.join(bad)} {'is' if len(bad) == 1 else 'are'}")
        return
    if any(r is False for _n, r in rels):
        return
    if all(r is True for _n, r in rels):
        rep.viol("equality", la, f"{what} are unequal although all they hold is equal")
    elif not any(r is False for _n, r in rels) and not any(
            t in (x, y) for a in q.atoms if not (a[0] == "eq" and C("") in a or a[0] == "truth" or len(a) == 2) for t in subterms(a)
            for x, y, _n in expect) and not any(x in q.doms or y in q.doms for x, y, _n in expect):
        rep.viol("equality", la, f"{what} are unequal whatever {' and '.join(n for _x, _y, n in expect)} {'is' if len(expect) == 1 else 'are'}")
    else:
        rep.undecided.append(f"{la}: why {what} are unequal is not understood")


def relevant(q):
    """Not a path on which two errors come from different places."""
    return not any(a[0] in ("eq", "is") and not v and any(kind_(s) == "attr" and s[2] == "__traceback__" for s in subterms(a))
                   for a, v in q.atoms.items())


def pairs(text):
    return [(dict_[a], dict_[b], n) for a, b, n in (t.split(":") for t in text.split())]


dict_ = syms()

# module, class, source, what, expected
ERR = "s1:s2:message t:u:name o:p:stack q:w:cause"
DATA = [
    ("jsregexp", "JSRegExp", "if s1 == '' or s2 == '' or not s1 or not s2:\n    return None\nreturn JSRegExp(s1, JSRegExpFlag(1)) == JSRegExp(s2, JSRegExpFlag(1))",
     "RegExps of the same flags", "s1:s2:source"),
    ("jsregexp", "JSRegExp", "return JSRegExp(s1, JSRegExpFlag(1)) == JSRegExp(s1, JSRegExpFlag(2))", "RegExps of different flags", False),
    ("jsregexp", "JSRegExp", "return JSRegExp(s1) == 'x'", "a RegExp and a string", False),
    ("jsprimitiveobject", "JSPrimitiveObject", "return JSPrimitiveObject(s1) == JSPrimitiveObject(s2)", "String objects", "s1:s2:value"),
    ("jsprimitiveobject", "JSPrimitiveObject", "return JSPrimitiveObject(1) == JSPrimitiveObject(True)", "a Number and a Boolean object", False),
    ("jsprimitiveobject", "JSPrimitiveObject",
     "return JSPrimitiveObject(5, SerializationTag.kNumberObject) == JSPrimitiveObject(5, SerializationTag.kBigIntObject)",
     "a Number and a BigInt object", False),
    ("jsprimitiveobject", "JSPrimitiveObject", "return JSPrimitiveObject(5) == 5", "a Number object and a number", False),
    ("jserror", "JSErrorData", "return JSErrorData(s1, name=t, stack=o, cause=q) == JSErrorData(s2, name=u, stack=p, cause=w)", "errors", ERR),
    ("jserror", "JSError", "return JSError(s1, name=t, stack=o, cause=q) == JSError(s2, name=u, stack=p, cause=w)", "exceptions", ERR),
    ("jserror", "JSError", "return JSError(s1, name=t, stack=o, cause=q) == JSErrorData(s2, name=u, stack=p, cause=w)",
     "an exception and an error", ERR),
    ("jserror", "JSError", "return JSErrorData(s1, name=t, stack=o, cause=q) == JSError(s2, name=u, stack=p, cause=w)",
     "an error and an exception", ERR),
    ("jserror", "JSErrorData", "return JSErrorData(s1) == 'x'", "an error and a string", False),
    ("jserror", "JSError", "return JSError(s1) == 'x'", "an exception and a string", False),
    ("jsbuffers", "JSSharedArrayBuffer", "return JSSharedArrayBuffer(v) == JSSharedArrayBuffer(w)", "shared buffers", "v:w:id"),
    ("jsbuffers", "JSArrayBufferTransfer", "return JSArrayBufferTransfer(v) == JSArrayBufferTransfer(w)", "transferred buffers", "v:w:id"),
    ("jsbuffers", "JSSharedArrayBuffer", "return JSSharedArrayBuffer(v) == JSArrayBufferTransfer(v)", "a shared and a transferred buffer", False),
    ("_v8", "V8SharedObjectReference", "return V8SharedObjectReference(v) == V8SharedObjectReference(w)", "shared objects", "v:w:id"),
]


def conts():
    """Maps and sets of up to three entries, in all ways they can differ."""
    out = []

    def mk(var, cls, entries):
        lines = [f"{var} = {cls}()"]
        for e in entries:
            lines.append(f"{var}[{e[0]!r}] = {e[1]}" if cls == "JSMap" else f"{var}.add({e!r})")
        return lines

    def case(cls, a, b, what, expect):
        out.append((cls.lower(), cls, "\n".join(mk("a", cls, a) + mk("b", cls, b) + ["return a == b"]), what, expect))
    x, y, z = (("x", "v"), ("y", "w"), ("z", "o"))
    xs, ys, zs = (("x", "t"), ("y", "u"), ("z", "p"))
    case("JSMap", [], [], "empty maps", True)
    case("JSMap", [x], [xs], "maps of the same key", "v:t:value")
    case("JSMap", [x, y, z], [xs, ys, zs], "maps of the same keys", "v:t:first w:u:second o:p:third")
    case("JSMap", [x], [("y", "v")], "maps of different keys", False)
    case("JSMap", [x, y], [x, ("z", "w")], "maps of different keys", False)
    case("JSMap", [x, y], [y, x], "maps of the same entries in different order", False)
    for n in range(4):
        for m in range(4):
            if n != m:
                case("JSMap", [x, y, z][:n], [x, y, z][:m], f"maps of {n} and {m} entries", False)
                case("JSSet", ["x", "y", "z"][:n], ["x", "y", "z"][:m], f"sets of {n} and {m} members", False)
    case("JSSet", [], [], "empty sets", True)
    case("JSSet", ["x", "y", "z"], ["x", "y", "z"], "sets of the same members", True)
    case("JSSet", ["x"], ["y"], "sets of different members", False)
    case("JSSet", ["x", "y"], ["x", "z"], "sets of different members", False)
    case("JSSet", ["x", "y"], ["y", "x"], "sets of the same members in different order", False)

    def other(cls, a, expr, what, expect):
        out.append((cls.lower(), cls, "\n".join(mk("a", cls, a) + [f"return a == {expr}"]), what, expect))
    other("JSMap", [x, y], "{'y': u, 'x': t}", "a map and a dict of the same keys", "v:t:first w:u:second")
    other("JSMap", [x, y], "{'x': v}", "a map and a dict of fewer entries", False)
    other("JSMap", [x], "{'x': v, 'y': w}", "a map and a dict of more entries", False)
    other("JSMap", [x], "{'y': v}", "a map and a dict of another key", False)
    other("JSSet", ["x", "y"], "{'y', 'x'}", "a set and a Python set of the same members", True)
    other("JSSet", ["x", "y"], "{'x'}", "a set and a Python set of fewer members", False)
    other("JSSet", ["x"], "{'x', 'y'}", "a set and a Python set of more members", False)
    other("JSSet", ["x"], "{'y'}", "a set and a Python set of another member", False)
    for cls in ("JSMap", "JSSet"):
        for e in ("5", "None", "'x'"):
            other(cls, [x] if cls == "JSMap" else ["x"], e, f"a {cls[2:].lower()} and {e}", False)
    out.append(("jsobject", "JSObject", "return JSObject() == {}", "an object and a dict", False))
    out.append(("jsobject", "JSObject", "return JSObject() == None", "an object and None", False))
    out.append(("jsarray", "JSArray", "return JSArray() == JSObject()", "an array and an object", False))
    out.append(("jsarray", "JSArray", "return JSObject() == JSArray()", "an object and an array", False))
    out.append(("jsarray", "JSArray", "return JSArray() == []", "an array and a list", False))
    return out


def _run(p, rep, cases):
    for mod, cn, src, what, expect in cases:
        la = label(p, cn)
        ps, ip = script(p, src, dict(dict_), _EqCfg(), J + mod)
        rep.use(ps, ip)
        e = pairs(expect) if isinstance(expect, str) else expect
        for q in ps:
            if q.outcome == "return" and q.value == NONE or not relevant(q):
                continue
            rep.ob("comparisons decided")
            judge(rep, q, la, what, e)


def check_data(p, rep):
    rep.rule("values holding data are equal exactly when all of it is, and unequal to values of other kinds")
    _run(p, rep, DATA)
    rep.at_least("comparisons decided", 25)


def check_containers(p, rep):
    rep.rule("maps and sets are equal exactly when their entries are, in the same order; dicts and Python sets in any order; objects and arrays "
             "only to their own kind")
    _run(p, rep, conts())
    rep.at_least("comparisons decided", 40)
    _objects(p, rep)


def state_attrs(p, c):
    """Attributes that making an instance of c sets."""
    out = set()
    for k in p.mro(c):
        if isinstance(k, Class):
            for m in ("__init__", "__new__", "__post_init__"):
                f = k.methods.get(m)
                if f is None or not f.node.args.posonlyargs + f.node.args.args:
                    continue
                me = (f.node.args.posonlyargs + f.node.args.args)[0].arg
                for n in ast.walk(f.node):
                    for t in n.targets if isinstance(n, ast.Assign) else [n.target] if isinstance(n, ast.AnnAssign) else []:
                        if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == me:
                            out.add(f"_{k.name.lstrip('_')}{t.attr}" if t.attr.startswith("__") and not t.attr.endswith("__") else t.attr)
    return out


def _objects(p, rep):
    c = p.cls("JSObject")
    la = label(p, "JSObject")
    want = state_attrs(p, c) - derived(p, c)

    def mk(n):
        def f(ip):
            o = ip.new_obj(c)
            o.symbolic, o.name = True, n
            return o
        return f
    ps, ip = script(p, "return a.__eq__(b)", {"a": mk("a"), "b": mk("b")}, _EqCfg(), c.module.name)
    rep.use(ps, ip)
    for q in ps:
        if q.outcome == "raise" or q.value not in (TRUE, FALSE):
            rep.undecided.append(f"{la}: comparing objects gives {q.exc_name() if q.outcome == 'raise' else show(q.value)[:60]}")
            continue
        same = any(a[0] in ("is", "eq") and v and all(isinstance(x, Obj) and x.cls is c for x in a[1:3]) for a, v in q.atoms.items())
        if same:
            continue
        rep.ob("object comparisons decided")
        seen, part, odd = {}, {}, False
        for a, v in q.atoms.items():
            if a[0] == "eq":
                names = [{s[2] for s in subterms(x) if kind_(s) == "attr" and isinstance(s[1], Obj)} for x in a[1:3]]
                if all(_callee(x) in ("keys", "values", "list", "set", "tuple", "sorted", "len") for x in a[1:3]):
                    for n in names[0] & names[1]:
                        part[n] = v
                    continue
                if any(kind_(x) != "attr" for x in a[1:3]):
                    odd = True
                for n in names[0] & names[1]:
                    seen[n] = v
        if q.value == TRUE:
            missing = sorted(want - set(seen))
            if missing and not odd:
                some = " fully" if set(missing) <= set(part) else ""
                rep.viol("equality", la, f"objects are equal without their {' and '.join(m.strip('_') for m in missing)} being compared{some}")
            elif missing:
                rep.undecided.append(f"{la}: what of two objects is compared is not understood")
            elif not all(seen.values()):
                rep.viol("equality", la, "objects are equal although a part of them differs")
        elif seen and all(seen.values()) and want <= set(seen) and not any(
                a[0] == "eq0" and not v for a, v in q.atoms.items()):
            rep.viol("equality", la, "objects are unequal although all they hold is equal")
    rep.at_least("object comparisons decided", 2)


def derived(p, c):
    """Attributes that are set to something made of another attribute."""
    out = set()
    for k in p.mro(c):
        f = k.methods.get("__init__") if isinstance(k, Class) else None
        for n in ast.walk(f.node) if f is not None else []:
            if isinstance(n, ast.Assign) and any(isinstance(x, ast.Attribute) and isinstance(x.value, ast.Name) and x.value.id == "self"
                                                 for x in ast.walk(n.value)):
                out |= {t.attr for t in n.targets if isinstance(t, ast.Attribute)}
    return out


class _ViewCfg(_EqCfg):
    def opaque_func(self, f):
        return f.name in ("get_buffer", "get_buffer_as_memoryview")


def _sym(p, cn, n):
    def f(ip):
        o = ip.new_obj(p.cls(cn))
        o.symbolic, o.name = True, n
        return o
    return f


def _callee(t):
    if kind_(t) != "call":
        return None
    f = t[1]
    return f[1].rsplit(".", 1)[-1] if kind_(f) in ("fn", "ext") else f[1][1].rsplit(".", 1)[-1] if kind_(f) == "bound" and kind_(
        f[1]) == "fn" else f[2] if kind_(f) in ("attr", "bound", "meth") and isinstance(f[2], str) else None


def _owner(t):
    """The name of the object whose method is called."""
    if kind_(t) != "call":
        return None
    return next((x.name for x in (*t[1], *t[2]) if isinstance(x, Obj) and x.symbolic), None)


def _consts(t, out):
    """Constants and classes in t, without those in the reading of the view's items."""
    if _callee(t) == "get_buffer" or isinstance(t, Obj):
        return
    if kind_(t) == "elem":
        _consts(t[1], out)
    elif kind_(t) in ("c", "enum", "cls"):
        out.add(t)
    elif isinstance(t, (tuple, list, frozenset)):
        for x in t:
            _consts(x, out)


def _leaves(t, out):
    """What of the object `a` the term depends on: names of called methods and attributes."""
    def me(x):
        return isinstance(x, Obj) and x.symbolic and x.name == "a"
    if me(t):
        out.add("")
        return
    if isinstance(t, Obj):
        return
    if kind_(t) == "attr" and me(t[1]):
        out.add(t[2])
        return
    n = _callee(t)
    if n is not None and (me(t[1][-1]) or any(me(x) for x in t[2])):
        out.add(n)
        return
    if isinstance(t, (tuple, list, frozenset)):
        for x in t:
            _leaves(x, out)


VIEWS = ("JSUint8Array", "JSFloat64Array", "JSInt16Array", "JSDataView")


def check_views(p, rep):
    rep.rule("two views are equal exactly when what they show of their buffers is; a view's hash depends on nothing else")
    c = p.cls("JSArrayBufferView")
    consts = {}
    for cn in VIEWS:
        la = label(p, cn)
        lh = label(p, cn).replace("equality", "hash")
        for other in ("view", "something else"):
            env = {"a": _sym(p, cn, "a"), "b": _sym(p, cn, "b") if other == "view" else ("sym", "o", "obj")}
            ps, ip = script(p, "return a == b" if other != "view" else "return a.__eq__(b)", env, _ViewCfg(), c.module.name)
            rep.use(ps, ip)
            for q in ps:
                eqs = {}
                same = False
                for a, v in q.atoms.items():
                    if a[0] == "is" and v and any(isinstance(x, Obj) for x in a[1:]):
                        same = True
                    if a[0] == "eq":
                        eqs[tuple(sorted(f"{_callee(x)} {_owner(x)}" for x in a[1:]))] = v
                if q.outcome == "raise":
                    if q.exc_name() != "NotImplementedError":
                        rep.viol("equality", la, f"comparing views ends in {q.exc_name()}")
                    continue
                if same:
                    rep.ob("view comparisons decided")
                    if q.value != TRUE:
                        rep.viol("equality", la, "a view is not equal to itself")
                    continue
                if other != "view":
                    continue
                if q.value not in (TRUE, FALSE):
                    if q.value == ("ext", "builtins.NotImplemented") or q.value == C(NotImplemented):
                        rep.viol("equality", la, "two views are not compared by what they show")
                    else:
                        rep.undecided.append(f"{la}: comparing views gives {show(q.value)[:60]}")
                    continue
                rep.ob("view comparisons decided")
                whole = eqs.get(("get_buffer a", "get_buffer b"))
                if q.value == TRUE and whole is not True:
                    if not eqs or all(x.split()[0] in ("get_buffer", "get_buffer_as_memoryview") for k in eqs for x in k):
                        rep.viol("equality", la, "views are equal although what they show was not found equal")
                    else:
                        rep.undecided.append(f"{la}: what of two views is compared is not understood")
                elif q.value == FALSE and whole is True:
                    rep.viol("equality", la, "views are unequal although what they show is equal")
        ps, ip = script(p, "return a.__hash__()", {"a": _sym(p, cn, "a")}, _ViewCfg(), c.module.name)
        rep.use(ps, ip)
        for q in ps:
            if q.outcome == "raise":
                if q.exc_name() not in ("TypeError", "ValueError", "NotImplementedError"):
                    rep.viol("hash", la, f"hashing a view ends in {q.exc_name()}")
                continue
            rep.ob("view hashes decided")
            used = set()
            _leaves(q.value, used)
            _consts(q.value, consts.setdefault(cn, set()))
            odd = sorted(used - {"get_buffer"})
            if odd:
                rep.viol("hash", lh, f"the hash of a view depends on its {' and '.join(o or 'identity' for o in odd)}, "
                         "which equal views need not share")
            raw = [n for n in map(_callee, subterms(q.value)) if n in ("tobytes", "hex", "cast", "bytes", "bytearray", "nbytes", "release")]
            if raw and not odd:
                rep.viol("hash", lh, "the hash of a view depends on the bytes it shows, which equal views need not share")
            if cn == "JSFloat64Array" and not raw and not odd and "get_buffer" in used:
                els = [t for t in subterms(q.value) if kind_(t) == "elem"]
                if not all(any(t in subterms(a) for a in q.atoms) for t in els) or not els:
                    rep.viol("hash", lh, "a view holding NaN has another hash each time")
    for cn in VIEWS[1:]:
        own = consts.get(cn, set()) - consts.get(VIEWS[0], set())
        if own and cn in consts and VIEWS[0] in consts:
            rep.viol("hash", label(p, cn).replace("equality", "hash"),
                     f"the hash of a view depends on its type ({show(sorted(own, key=repr)[0])[:60]}), which equal views need not share")
            break
    rep.at_least("view comparisons decided", 8)
    rep.at_least("view hashes decided", 8)


def effective_hash(p, c):
    """How instances of c are hashed: ("method", Func), ("fields", Class, names), None (not at all) or "identity"."""
    for k in p.mro(c):
        if not isinstance(k, Class):
            continue
        if "__hash__" in k.methods:
            return ("method", k.methods["__hash__"])
        if "__hash__" in k.attrs:
            v = k.attrs["__hash__"][0]
            if isinstance(v, ast.Constant) and v.value is None:
                return None
            t = ast.unparse(v) if v is not None else ""
            return "identity" if t == "object.__hash__" else "unknown"
        opts = k.dataclass_opts() if k.is_dataclass() else None
        if opts is not None and opts.get("eq", True) and (opts.get("frozen") or opts.get("unsafe_hash")) or opts is not None and opts.get(
                "unsafe_hash"):
            names = []
            for n, default, owner in _Shim(p).dataclass_fields(k):
                kw = {w.arg: w.value.value for w in default.keywords if isinstance(w.value, ast.Constant)} if isinstance(
                    default, ast.Call) and ast.unparse(default.func).rsplit(".", 1)[-1] == "field" else {}
                h = kw.get("hash")
                if h if h is not None else kw.get("compare", True):
                    names.append(f"_{owner.name.lstrip('_')}{n}" if n.startswith("__") and not n.endswith("__") else n)
            return ("fields", k, names)
        if opts is not None and opts.get("eq", True) or "__eq__" in k.methods:
            return None
    return "identity"


def frozen(p, c):
    for k in p.mro(c):
        if isinstance(k, Class):
            if k.is_dataclass() and k.dataclass_opts().get("frozen") or "__setattr__" in k.methods:
                return True
            if any(ast.unparse(d).rsplit(".", 1)[-1] == "frozen" for d in k.node.decorator_list):
                return True
    return False


HASHABLE = ("JSRegExp", "JSPrimitiveObject", "JSSharedArrayBuffer", "JSArrayBufferTransfer", "V8SharedObjectReference", "JSArrayBuffer",
            "JSUint8Array", "JSFloat64Array", "JSDataView")


def check_hash(p, rep):
    rep.rule("what is hashed of a value is part of what it is compared by and cannot change; values that hold plain data are hashable")
    for c in sorted((c for c in p.classes.values() if c.module.name.startswith(J)), key=lambda c: c.qual):
        exts = {str(k) for k in p.mro(c) if not isinstance(k, Class)}
        if any(x.rsplit(".", 1)[-1] in ("Enum", "Exception", "BaseException", "ValueError") for x in exts) or any(
                "Protocol" in ast.unparse(b) for b in c.node.bases):
            continue
        if any(c in p.mro(d) and any(not isinstance(k, Class) and str(k).rsplit(".", 1)[-1] == "Enum" for k in p.mro(d))
               for d in p.classes.values() if d is not c):
            continue
        e, h = effective(p, c), effective_hash(p, c)
        la = f"{c.module.relpath}:{c.node.lineno} hash of {c.name}"
        rep.ob("types whose hash was decided")
        if h == "unknown":
            rep.undecided.append(f"{la}: how it is hashed is not understood")
            continue
        if c.name in HASHABLE and h is None:
            rep.viol("hash", la, "values that hold plain data are not hashable")
            continue
        if e is None or h is None:
            continue
        if h == "identity":
            rep.viol("hash", la, "equal values have different hashes, as these are of their identities")
            continue
        if h[0] == "fields" and e[0] == "fields":
            extra = sorted(set(h[2]) - set(e[2]))
            if extra:
                rep.viol("hash", la, f"equal values have different hashes, as these are also of their {' and '.join(extra)}")
        if c.name in HASHABLE and e[0] == "fields":
            gone = sorted({n for n, _d, _k in _Shim(p).dataclass_fields(c)} - {n.split("__", 1)[-1] if n.startswith("_" + c.name) else n
                                                                             for n in e[2]})
            if gone:
                rep.viol("equality", label(p, c.name), f"values are equal whatever their {' and '.join(gone)} is")
        if not frozen(p, c):
            rep.viol("hash", la, "the parts that make the hash can be set to other values")
        elif c.name in HASHABLE:
            rep.ob("values of plain data that hash as they compare")
    rep.at_least("types whose hash was decided", 12)
    rep.at_least("values of plain data that hash as they compare", 8)
