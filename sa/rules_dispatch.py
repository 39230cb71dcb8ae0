"""Which form each kind of value takes: dispatch on Python types, integers, and the tags that can be read."""

from __future__ import annotations

import abc
import builtins
import collections
import collections.abc
import datetime
import enum
import functools
import re
import types

from . import v8spec as V
from .interp import kind_
from .project import AnalysisError, Class
from .reader import decode_paths, serialization_tags
from .rules_writer import TYPE_TAGS, short
from .terms import C, NONE, Obj, is_c, lin_scale, show
from .writer import WriterConfig, frame0, mk_ctx, sym_value, writer_dispatch

ERR = {"kError"}
ARR = {"kBeginDenseJSArray"}
MAP = {"kBeginJSMap"}
SET = {"kBeginJSSet"}
BUF = {"kArrayBuffer"}

# documented kinds of value -> the tags they are written with
BUILTIN = [
    (int, TYPE_TAGS["int"]), (bool, {"kTrue", "kFalse"}), (type(None), {"kNull"}), (str, V.STRING_TAGS), (float, {"kDouble"}),
    (re.Pattern, {"kRegExp"}), (BaseException, ERR), (ValueError, ERR), (KeyboardInterrupt, ERR), (UnicodeDecodeError, ERR),
    (datetime.datetime, {"kDate"}), (dict, MAP), (collections.OrderedDict, MAP), (collections.defaultdict, MAP),
    (collections.ChainMap, MAP), (types.MappingProxyType, MAP), (collections.Counter, MAP), (set, SET), (frozenset, SET),
    (type({}.keys()), SET), (list, ARR), (tuple, ARR), (collections.deque, ARR), (range, ARR), (type({}.values()), ARR),
    (collections.UserList, ARR), (collections.UserDict, MAP),
    (bytes, BUF), (bytearray, BUF), (memoryview, BUF),
]
PACKAGE = {
    "JSHoleEnum": {"kTheHole"}, "JSUndefinedEnum": {"kUndefined"}, "JSPrimitiveObject": V.PRIMITIVE_OBJECT_TAGS,
    "JSRegExp": {"kRegExp"}, "JSErrorData": ERR, "JSError": ERR, "V8SharedObjectReference": {"kSharedObject"},
    "JSObject": {"kBeginJSObject"}, "JSArray": {"kBeginDenseJSArray", "kBeginSparseJSArray"}, "JSMap": MAP, "JSSet": SET,
    "JSArrayBuffer": {"kArrayBuffer", "kResizableArrayBuffer"}, "JSSharedArrayBuffer": {"kSharedArrayBuffer"},
    "JSArrayBufferTransfer": {"kArrayBufferTransfer"}, "JSDataView": {"kArrayBufferView"},
    "DenseArrayProperties": ARR, "SparseArrayProperties": ARR, "JSErrorName": V.STRING_TAGS,
    **{f"JS{n}Array": {"kArrayBufferView"} for n in (
        "Int8", "Uint8", "Uint8Clamped", "Int16", "Uint16", "Int32", "Uint32", "Float16", "Float32", "Float64", "BigInt64", "BigUint64")},
}
UNSUPPORTED = [object, complex, datetime.date, datetime.time, datetime.timedelta, type, types.FunctionType, types.GeneratorType,
               type(iter([])), zip, property, type(NotImplemented), slice]


class Skeleton:
    """Empty stand-ins with the package's class hierarchy, as declared in its source."""

    def __init__(self, p):
        self.p, self.made = p, {}

    def std(self, name):
        n = name.rsplit(".", 1)[-1]
        mod = name.rsplit(".", 1)[0] if "." in name else "builtins"
        if mod.endswith("_typing") or mod.startswith("typing"):
            n = {"AbstractSet": "Set"}.get(n, n)
            return getattr(collections.abc, n, None)
        for where in {"builtins": builtins, "collections.abc": collections.abc, "enum": enum, "abc": abc, "re": re,
                      "datetime": datetime, "collections": collections, "types": types, "contextlib": None}.items():
            if mod == where[0] and where[1] is not None:
                return getattr(where[1], n, None)
        return None

    def get(self, k):
        """Stand-in for a class (Class or dotted name), or None when it has no influence on dispatch."""
        if isinstance(k, str):
            t = self.std(k)
            return t if isinstance(t, type) and t not in (object, abc.ABC) else None
        if k.qual in self.made:
            return self.made[k.qual]
        bases = []
        for b in self.p.bases(k):
            t = self.get(b)
            if t is not None and t not in bases:
                bases.append(t)
        enum_ = [b for b in bases if isinstance(b, type(enum.Enum))]
        if enum_:
            t = self.make_enum(k.name, bases)
        else:
            bases = [b for b in bases if not any(b is not c and b in c.__mro__ for c in bases)]
            t = abc.ABCMeta(k.name, tuple(bases) or (object,), {})
        self.made[k.qual] = t
        for d in k.node.decorator_list:
            owner = self.registrar(k.module, d)
            if owner is not None:
                owner.register(t)
        return t

    def make_enum(self, name, bases):
        data = next((b for b in bases if b in (int, str)), None)
        base = next(b for b in bases if isinstance(b, type(enum.Enum)))
        if data is not None and data not in base.__mro__:
            return enum.EnumMeta(name, (data, base), enum.EnumMeta.__prepare__(name, (data, base)))
        return enum.EnumMeta(name, (base,), enum.EnumMeta.__prepare__(name, (base,)))

    def registrar(self, module, d):
        import ast
        if isinstance(d, ast.Attribute) and d.attr == "register" and isinstance(d.value, ast.Name):
            return self.named(module, d.value.id)
        return None

    def named(self, module, name):
        r = self.p.resolve(module, name) if hasattr(self.p, "resolve") else None
        c = r[1] if r and r[0] == "class" else next((x for x in self.p.classes.values() if x.name == name), None)
        t = self.get(c) if c is not None else None
        return t if isinstance(t, abc.ABCMeta) else None

    def all(self):
        import ast
        for c in list(self.p.classes.values()):
            try:
                self.get(c)
            except TypeError:
                self.made[c.qual] = None
        for m in self.p.modules.values():
            for st in m.tree.body:
                if isinstance(st, ast.Expr) and isinstance(st.value, ast.Call) and isinstance(st.value.func, ast.Attribute) \
                        and st.value.func.attr == "register" and isinstance(st.value.func.value, ast.Name) \
                        and len(st.value.args) == 1 and isinstance(st.value.args[0], ast.Name):
                    a, b = self.named(m, st.value.func.value.id), self.named(m, st.value.args[0].id)
                    if a is not None and b is not None:
                        a.register(b)
        return self


def resolver(p):
    """class -> (registered name, Func) by functools.singledispatch's own rules on the declared hierarchy."""
    tab, default = writer_dispatch(p)
    sk = Skeleton(p).all()
    rows = {}

    @functools.singledispatch
    def disp(x):
        return None
    for name, fn in tab:
        if name is None:
            raise AnalysisError("a registration of TagWriter.encode is not understood")
        if name in p.classes:
            t = sk.made.get(p.classes[name].qual)
        elif name == "NoneType":
            t = type(None)
        else:
            t = sk.std(name)
        if not isinstance(t, type):
            raise AnalysisError(f"the registered type {name} is not understood")
        rows[id(fn), name] = (name, fn)
        mark = lambda x, r=(name, fn): r  # noqa: E731
        disp.register(t, mark)
    return sk, (lambda t: disp.dispatch(t)(None)), default


def written(p, fn, tn, key=None):
    """Paths of one writing method on a symbolic value of a type."""
    from .interp import Interp
    ip = Interp(p, WriterConfig(p))

    def setup(ip):
        ip.wts = None
        ctx, w = mk_ctx(ip)
        tw = ip.construct(p.cls("TagWriter"), [], {}, None, frame0(ip))
        if key is not None:
            w.fields["allowed_tags"] = ip.global_value(p.modules["v8serialize.constants"], key)
        v = sym_value(ip, tn)
        ip.roots = [ctx, w, tw, v]
        ip.ctx = {"value": v, "stream": w, "params": {"value": v}}
        del ip.events[:]
        return ip.call_func(fn, [tw, v], {"ctx": ctx, "next": ("sym", "next", "obj")}, None, frame0(ip))
    return ip.explore(setup), ip


def tags_written(q):
    out = []
    for e in q.events:
        if e.kind == "tok" and e.extra.kind == "TAG":
            out.append(e.extra.a)
    return out


def handed_on(q):
    """Values given to next on a writer path."""
    return [e.extra.a for e in q.events if e.kind == "tok" and e.extra.kind == "NEXT"]


def next_calls(q):
    return [e for e in q.events if e.kind in ("call", "raised") and kind_(e.f) == "sym" and e.f[1] == "next"]


def check_encode_dispatch(p, rep):
    rep.rule("every documented kind of Python value is dispatched (by singledispatch's rules on the declared class hierarchy) to "
             "a writer that writes it as its documented JavaScript type; every other kind is handed unchanged to the next step")
    sk, disp, default = resolver(p)
    kinds = [(t.__name__, t, want) for t, want in BUILTIN]
    for cn, want in PACKAGE.items():
        try:
            c = p.cls(cn)
        except AnalysisError:
            rep.undecided.append(f"class {cn} not found")
            continue
        kinds.append((cn, sk.made.get(c.qual), want))
    cache = {}
    for label, t, want in kinds:
        if not isinstance(t, type):
            rep.undecided.append(f"the hierarchy of {label} is not understood")
            continue
        rep.ob("kinds of value dispatched")
        hit = disp(t)
        if hit is None:
            rep.viol("dispatch", f"TagWriter.encode({label})", f"{label} values are not written; they fall through to the next step")
            continue
        name, fn = hit
        if (name, label in PACKAGE) not in cache:
            cache[name, label in PACKAGE] = written(p, fn, name)
        ps, ip = cache[name, label in PACKAGE]
        rep.use(ps, ip)
        got = set()
        for q in ps:
            if q.outcome != "return" or handed_on(q):
                continue
            ts = tags_written(q)
            if not ts:
                rep.viol("dispatch", f"TagWriter.{fn.name}({label})", f"a {label} value can be accepted without anything being written")
            for x in ts[:1]:
                d = q.doms.get(x)
                for y in (d if d else [x]):
                    if kind_(y) == "enum":
                        got.add(y[2])
        # a base type's writer serves several kinds: what it may write must include what this kind is
        if not got & want:
            rep.viol("dispatch", f"TagWriter.{fn.name}({label})",
                     f"{label} values are written as {'/'.join(sorted(got)) or 'nothing'} instead of {'/'.join(sorted(want))}")
        elif label not in ("JSArrayBuffer", "JSSharedArrayBuffer", "JSArrayBufferTransfer") and not got <= want:
            rep.viol("dispatch", f"TagWriter.{fn.name}({label})",
                     f"{label} values can be written as {'/'.join(sorted(got - want))} instead of {'/'.join(sorted(want))}")
    for t in UNSUPPORTED:
        rep.ob("kinds of value dispatched")
        hit = disp(t)
        if hit is not None:
            rep.viol("dispatch", f"TagWriter.encode({t.__name__})", f"{t.__name__} values, which have no JavaScript equivalent, are written by {hit[1].name}")
    ps, ip = written(p, default, "builtins.object")
    rep.use(ps, ip)
    for q in ps:
        if q.outcome == "return":
            n = handed_on(q)
            ok = len(n) == 1 and n[0] == q.ctx["value"] and not tags_written(q)
            rep.require(ok, "dispatch-default", "TagWriter.encode", "a value of an unknown type is not handed unchanged to the next step",
                        "kinds of value dispatched")
    rep.at_least("kinds of value dispatched", 50)


def check_decode_dispatch(p, rep):
    rep.rule("every tag V8 writes for a value is read by a reader; every other tag is handed unchanged to the next step or "
             "refused with the library's error, without reading anything")
    tags = serialization_tags(p)
    value = (V.VALUE_TAGS | V.OBJECT_TAGS) - V.UNSUPPORTED_TAGS
    for t in sorted(value - set(tags)):
        rep.viol("read-tag", "SerializationTag", f"{t} is missing")
    for t in tags:
        ps, ip = decode_paths(p, t)
        rep.use(ps, ip)
        rep.ob("tags dispatched")
        label = f"TagReader.decode({t})"
        if t in value:
            if t == "kArrayBufferView":
                continue  # only meaningful right after a buffer; read there
            ok = [q for q in ps if q.outcome == "return" and not [e for e in next_calls(q) if e.kind == "call"]]
            if not ok:
                rep.viol("read-tag", label, f"a value tagged {t} cannot be read")
            for q in ps:
                if [e for e in next_calls(q) if e.kind == "call"] and t != "kHostObject":
                    rep.viol("read-tag", label, f"a value tagged {t} may be passed on instead of being read")
                    break
        else:
            if t not in V.UNSUPPORTED_TAGS and all(q.outcome == "raise" for q in ps):
                rep.viol("read-tag", label, f"{t}, which this library has no reader for, is refused instead of being left to "
                                            "the following decode steps")
            for q in ps:
                if q.outcome == "raise":
                    continue
                n = [e for e in next_calls(q) if e.kind == "call"]
                read = [e for e in q.events if e.kind == "tok" and e.extra.kind not in ("POS",)]
                good = len(n) == 1 and n[0].args and kind_(n[0].args[0]) == "enum" and n[0].args[0][2] == t and not read \
                    and q.value == n[0].result
                rep.require(good, "read-tag", label, f"{t}, which does not start a value this library supports, is neither handed to the next step nor refused",
                            "tags dispatched")
    rep.at_least("tags dispatched", 50)


# ------------------------------------------------------------------ integers
def check_ints(p, rep):
    rep.rule("an int is written as a 32-bit form only inside that form's range, as a double only where doubles are exact, else as "
             "a bigint; as an object key never as a bigint but as its decimal digits")
    tab, _ = writer_dispatch(p)
    fn = next((f for n, f in tab if n == "int"), None)
    if fn is None:
        raise AnalysisError("no writer for int")
    for key in (None, "JS_OBJECT_KEY_TAGS"):
        ps, ip = written(p, fn, "int", key)
        rep.use(ps, ip)
        label = "TagWriter.encode(int)" + (" as a key" if key else "")
        seen = []
        for q in ps:
            if q.outcome != "return":
                continue
            ts = [x[2] for x in tags_written(q) if kind_(x) == "enum"]
            v = q.ctx["value"]
            rep.ob("integer forms decided")
            if len(ts) != 1:
                rep.viol("int-form", label, f"an int is written as {ts}")
                continue
            t = ts[0]
            lo = {"kUint32": 0, "kInt32": -2**31, "kDouble": -2**53}.get(t)
            hi = {"kUint32": 2**32 - 1, "kInt32": 2**31 - 1, "kDouble": 2**53}.get(t)
            seen.append(t)
            if lo is not None and not (q.le(C(lo), v) and q.le(v, C(hi))):
                rep.viol("int-form", label, f"{t} is written for ints outside {lo} … {hi}, which it cannot hold exactly")
            if key and t == "kBigInt":
                rep.viol("int-form", label, "a bigint is written as an object key")
            if t in V.STRING_TAGS:
                if not key:
                    rep.viol("int-form", label, "an int is written as a string although it is not a key")
                txt = [e.extra for e in q.events if e.kind == "tok"]
                src = ("call", ("ext", "builtins.str"), (v,), (), 0)
                if not any(_mentions(x.a, src) or _mentions(x.b, src) for x in txt) and not any(
                        "str(" in show(x.a if x.a is not None else NONE) for x in txt):
                    rep.viol("int-form", label, "an integer key is not written as its decimal digits")
        if not key and "kBigInt" not in seen:
            rep.viol("int-form", label, "no int is ever written as a bigint")
    rep.at_least("integer forms decided", 6)


def _mentions(t, x):
    if t == x:
        return True
    return isinstance(t, tuple) and any(_mentions(y, x) for y in t if isinstance(y, tuple))
