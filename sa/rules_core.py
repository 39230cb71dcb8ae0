"""Entry points, step chains, dispatch, options and call independence."""

from __future__ import annotations

import ast

from . import v8spec as V
from .fn import FnConfig, fn_paths, frame_of, script
from .interp import Interp, kind_
from .project import AnalysisError, Class
from .reader import Tok
from .terms import C, FALSE, NONE, TRUE, DictV, ListV, Obj, is_c, is_int, show, subterms, GenExp, GenV

_cache = {}


class EntryConfig(FnConfig):
    """Whole calls of the public entry points; the stream's and context's own operations are tokens."""

    def __init__(self, p):
        super().__init__()
        self.p = p
        self.prims = {}
        for cn, names in (("WritableTagStream", {"write_tag": "TAG", "write_varint": "VARINT"}),
                          ("ReadableTagStream", {"read_header": "HEADER", "read_tag": "RTAG"}),
                          ("DefaultEncodeContext", {"encode_object": "VALUE"}),
                          ("DefaultDecodeContext", {"decode_object": "VALUE"}),
                          ("SerializationFeature", {"supported_by": "FEATURES"})):
            c = p.cls(cn)
            for n, k in names.items():
                f = p.find_method(c, n)
                if f is None:
                    raise AnalysisError(f"{cn}.{n} not found")
                self.prims[f.qual] = k

    def on_call(self, ip, f, args, kwargs, node, frame):
        if isinstance(f, tuple) and f[0] == "fn" and f[1] in self.prims:
            k = self.prims[f[1]]
            a = ip.value_of(args[1]) if len(args) > 1 else ip.value_of(next(iter(kwargs.values()), NONE))
            if k == "FEATURES":
                return ("call", ("fn", f[1]), (a,), (), 0)
            ip.emit("tok", extra=Tok(k, a, args[0], node, frame.func if frame is not None else None, None))
            if k in ("VALUE", "HEADER", "RTAG"):
                return ip.fresh("result") + ("obj",)
            return NONE
        return NotImplemented


def entry(p, func, mk):
    key = ("entry", func.qual, id(mk))
    if key not in _cache:
        _cache[key] = fn_paths(p, func, mk, EntryConfig(p))
    return _cache[key]


def pkg_func(p, mod, name):
    m = p.modules[f"v8serialize.{mod}"]
    d = m.defs.get(name)
    if d is None or d[0] != "func":
        raise AnalysisError(f"{mod}.{name} not found")
    return d[1]


def opts(func, skip=()):
    """Symbolic keyword options of a function, each None or not."""
    a = func.node.args
    return {x.arg: ("sym", x.arg, "opt") for x in a.kwonlyargs if x.arg not in skip}


def toks(q):
    return [e.extra for e in q.events if e.kind == "tok"]


def is_none(q, t):
    d = q.doms.get(t)
    return d is not None and set(d) == {NONE}


def _mk_dumps(func):
    return lambda ip: ([("sym", "value", "obj")], opts(func))


def dumps_runs(p):
    if "dumps" not in _cache:
        f = pkg_func(p, "encode", "dumps")
        out = [("dumps", *fn_paths(p, f, _mk_dumps(f), EntryConfig(p)))]
        e = p.find_method(p.cls("Encoder"), "encode")

        def mk(ip):
            o = ip.sym_obj("Encoder", "encoder")
            o.fields["features"] = ("sym", "features", "obj")
            o.fields["encode_steps"] = ("sym", "encode_steps", "obj")
            return [o, ("sym", "value", "obj")], {}
        out.append(("Encoder.encode", *fn_paths(p, e, mk, EntryConfig(p))))
        _cache["dumps"] = out
    return _cache["dumps"]


def check_encode_header(p, rep):
    rep.rule("every complete encoding writes the version header of the supported version, then the value, then nothing, "
             "and returns exactly what was written")
    for label, ps, ip in dumps_runs(p):
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "return":
                continue
            rep.ob("encodings decided")
            ts = toks(q)
            got = [(t.kind, ip.enum_value(t.a) if kind_(t.a) == "enum" else t.a) for t in ts]
            want = [("TAG", C(0xFF)), ("VARINT", C(V.LATEST_VERSION)), ("VALUE", ("sym", "value", "obj"))]
            if got != want:
                rep.viol("header", label, "a complete encoding consists of "
                         + ", ".join(f"{k} {show(a)}" for k, a in got) + f" instead of the version {V.LATEST_VERSION} header and the value")
                continue
            st = ts[0].b
            ctx = ts[2].b
            same = ts[1].b is st and isinstance(ctx, Obj) and ctx.fields.get("stream") is st
            rep.require(same, "header", label, "the header and the value are not written to the same stream")
            data = st.fields.get("data") if isinstance(st, Obj) else None
            v = q.value
            ok = v == data or (kind_(v) == "call" and v[1] in (("ext", "builtins.bytes"), ("ext", "builtins.bytearray")) and v[2] == (data,))
            rep.require(ok, "header", label, f"{show(v)} is returned instead of the bytes written")
    rep.at_least("encodings decided", 2)


def _features_ok(p, q, t, given, ver):
    """t must combine exactly: the given features (if any) and those of the target version (if any)."""
    sf = p.cls("SerializationFeature")
    parts, bad = set(), []

    def walk(x):
        if kind_(x) == "call" and kind_(x[1]) == "attr" and x[1][2] in ("__or__", "__ior__", "__ror__") and len(x[2]) == 1:
            walk(x[1][1])
            walk(x[2][0])
        elif kind_(x) == "op" and x[1] == "|":
            for y in x[2]:
                walk(y)
        elif kind_(x) in ("|", "or") or (kind_(x) == "bin" and x[1] == "|"):
            for y in x[1:]:
                if isinstance(y, tuple):
                    walk(y)
        elif kind_(x) == "enum" and x[1] == sf.qual:
            if x[2] != "MaxCompatibility":
                bad.append(x)
        elif kind_(x) == "flag" and x[1] == sf.qual:
            if x[2]:
                bad.append(x)
        elif kind_(x) == "call" and kind_(x[1]) == "fn" and x[1][1].endswith(".supported_by"):
            parts.add(("supported", x[2][0]))
        elif kind_(x) == "sym":
            parts.add(x)
        else:
            bad.append(x)
    walk(t)
    want = set()
    if given is not None:
        want.add(given)
    if ver is not None:
        want.add(("supported", ver))
    return not bad and parts == want


def check_encode_options(p, rep):
    rep.rule("every encoding option given to the public functions reaches the stream or the context that acts on it")
    for label, ps, ip in dumps_runs(p):
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "return":
                continue
            ts = [t for t in toks(q) if t.kind == "VALUE"]
            if not ts or not isinstance(ts[0].b, Obj):
                continue
            ctx = ts[0].b
            st = ctx.fields.get("stream")
            fx = st.fields.get("features") if isinstance(st, Obj) else None
            rep.ob("option values decided", 2)
            if label == "dumps":
                fs, vs, es = (("sym", n, "opt") for n in ("features", "v8_version", "encode_steps"))
                given = None if is_none(q, fs) else fs
                ver = None if is_none(q, vs) else vs
                steps = None if is_none(q, es) else es
            else:
                given, ver, steps = ("sym", "features", "obj"), None, ("sym", "encode_steps", "obj")
            if fx is None or not _features_ok(p, q, fx, given, ver):
                rep.viol("features-option", label,
                         f"the stream's features are {show(fx) if fx is not None else None} where features is "
                         f"{'given' if given else 'not given'} and v8_version is {'given' if ver else 'not given'}")
            s = ctx.fields.get("encode_steps")
            _steps_ok(p, rep, label, s, steps, "encode")
    rep.at_least("option values decided", 10)


def _steps_ok(p, rep, label, s, given, side):
    items = None
    if isinstance(s, ListV):
        items = s.items
    elif kind_(s) == "tup":
        items = list(s[1])
    if given is None:
        names = []
        for x in items or ():
            names.append(x.cls.name if isinstance(x, Obj) and x.cls else (x[1].rsplit(".", 1)[-1] if kind_(x) == "fn" else show(x)))
        want = ["serialize_object_references", "TagWriter"] if side == "encode" else ["TagReader"]
        if names != want:
            rep.viol("steps-option", label, f"the default {side} steps are {names}, not {want}")
    else:
        src = [show(s)] if items is None else [show(x) for x in items]
        inside = s is not None and (given in _subs(s))
        if not inside:
            rep.viol("steps-option", label, f"the {side} steps used are {', '.join(src)} although steps were given")


def _subs(t):
    out = set()
    todo = [t]
    while todo:
        x = todo.pop()
        if isinstance(x, ListV):
            todo += list(x.items or ())
            for a in ("src", "rest"):
                if getattr(x, a, None) is not None:
                    todo.append(getattr(x, a))
            continue
        if isinstance(x, DictV):
            todo += list(x.items) + list(x.items.values())
            if x.rest is not None:
                todo.append(x.rest)
            continue
        if isinstance(x, tuple):
            try:
                out.add(x)
            except TypeError:
                pass
            todo += [y for y in x if isinstance(y, (tuple, ListV, DictV))]
    return out


# ------------------------------------------------------------------ decoding entry points
# option of loads -> TagReader's default when the option is not given
READER_DEFAULTS = {
    "jsmap_type": "JSMap", "jsset_type": "JSSet", "js_object_type": "JSObject", "js_array_type": "JSArray",
    "js_error_builder": "JSError.builder", "default_timezone": None,
}
CONSTANTS = {"kTheHole": "JSHole", "kUndefined": "JSUndefined", "kNull": None, "kTrue": True, "kFalse": False}


def loads_func(p):
    return pkg_func(p, "decode", "loads")


def _given(q, t):
    """Is the optional value t given (True), None (False) or falsy/unknown (None) on this path?"""
    if is_none(q, t):
        return False
    if q.atoms.get(("truthy", t)) is False:
        return None
    return True


def _loads(p, kw):
    f = loads_func(p)
    return fn_paths(p, f, lambda ip: ([("sym", "data", "obj")], kw(ip)), EntryConfig(p))


def _result(q):
    """(stream, context) of the header read and the value read, as long as they agree."""
    ts = toks(q)
    val = [t for t in ts if t.kind == "VALUE"]
    return ts, val


def _shape_ok(rep, label, q, ip):
    ts, val = _result(q)
    kinds = [t.kind for t in ts]
    rep.ob("decodings decided")
    if kinds != ["HEADER", "VALUE"]:
        rep.viol("decode-entry", label, f"decoding performs {kinds} instead of reading the header and then one value")
        return None
    ctx = ts[1].b
    if not isinstance(ctx, Obj) or ctx.fields.get("stream") is not ts[0].b:
        rep.viol("decode-entry", label, "the header and the value are not read from the same stream")
        return None
    if ts[1].a != NONE:
        rep.viol("decode-entry", label, f"the first value is read as tag {show(ts[1].a)} without reading its tag")
    if not (isinstance(q.value, tuple) and "result" in show(q.value)):
        rep.viol("decode-entry", label, f"{show(q.value)} is returned instead of the decoded value")
    return ctx


def check_decode_header(p, rep):
    rep.rule("every decoding of complete data reads the header before the value, from the start of the given data")
    dec = p.find_method(p.cls("Decoder"), "decodes")

    def mk(ip):
        o = ip.sym_obj("Decoder", "decoder")
        o.fields["decode_steps"] = ("sym", "decode_steps", "obj")
        return [o, ("sym", "data", "obj")], {}
    for label, (ps, ip) in (("Decoder.decodes", fn_paths(p, dec, mk, EntryConfig(p))), ("loads", _loads(p, lambda ip: {}))):
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "return":
                continue
            ctx = _shape_ok(rep, label, q, ip)
            if ctx is None:
                continue
            st = ctx.fields["stream"]
            rep.require(st.fields.get("pos") == C(0), "decode-entry", label, "decoding does not start at the first byte",
                        "decodings decided")
            rep.require(("sym", "data", "obj") in _subs(st.fields.get("data")), "decode-entry", label,
                        f"the stream reads {show(st.fields.get('data'))} instead of the given data", "decodings decided")
    rep.at_least("decodings decided", 4)


def check_decode_options(p, rep):
    rep.rule("every decoding option reaches the component that acts on it, its documented default applies when it is not "
             "given, and combinations documented as errors are refused")
    f = loads_func(p)
    names = [x.arg for x in f.node.args.kwonlyargs]
    for n in names:
        sym = ("sym", n, "opt")
        ps, ip = _loads(p, lambda ip: {n: sym})
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "return":
                continue
            g = _given(q, sym)
            ctx = _shape_ok(rep, "loads", q, ip)
            if ctx is None:
                continue
            s = ctx.fields.get("decode_steps")
            if n == "decode_steps" and g:
                rep.ob("option values decided")
                if sym not in _subs(s):
                    rep.viol("steps-option", "loads", "the given decode_steps are not the steps used")
                continue
            items = s.items if isinstance(s, ListV) else (list(s[1]) if kind_(s) == "tup" else None)
            tr = items[0] if items and len(items) == 1 else None
            if not isinstance(tr, Obj) or tr.cls is None or tr.cls.name != "TagReader":
                rep.viol("steps-option", "loads", "without decode_steps the value is not read by one TagReader")
                continue
            rep.ob("option values decided", len(READER_DEFAULTS) + 2)
            for o, dflt in READER_DEFAULTS.items():
                v = tr.fields.get(o)
                if o == n and g is None:
                    continue
                if o == n and g:
                    if v != sym:
                        rep.viol("reader-option", "loads", f"{o} was given but {show(v)} is used")
                elif (show(v) if v != NONE else None) != dflt and not show(v).startswith(f"bound({dflt}"):
                    rep.viol("reader-option", "loads", f"{o} is {show(v)} by default instead of {dflt}")
            h = tr.fields.get("host_object_deserializer")
            hn = h.cls.name if isinstance(h, Obj) and h.cls else (show(h) if h != NONE else None)
            node = "NodeJsArrayBufferViewHostObjectHandler"
            if n == "host_object_deserializer" and g:
                want = {show(sym)}
            elif n == "nodejs" and g is None:
                want = {None}
            else:
                want = {node}
            if g is not None or n == "nodejs":
                rep.require(hn in want, "host-option", "loads",
                            f"host objects are read by {hn} where {n} is {'given' if g else 'false' if g is None else 'not given'}")
            _constants_ok(p, rep, tr, sym if n == "js_constants" and g else None, ip)
    # combinations
    for n in names:
        if n == "decode_steps":
            continue
        a, b = ("sym", "decode_steps", "obj"), ("sym", n, "obj")
        ps, ip = _loads(p, lambda ip: {"decode_steps": a, n: b})
        for q in ps:
            rep.require(q.outcome == "raise" and q.exc_name() == "TypeError", "option-conflict", "loads",
                        f"decode_steps together with {n} is accepted and {n} is ignored", "option values decided")
    a = ("sym", "host_object_deserializer", "obj")
    ps, ip = _loads(p, lambda ip: {"nodejs": TRUE, "host_object_deserializer": a})
    for q in ps:
        rep.require(q.outcome == "raise" and q.exc_name() == "TypeError", "option-conflict", "loads",
                    "nodejs together with host_object_deserializer is accepted", "option values decided")
    rep.at_least("option values decided", 40)


def _constants_ok(p, rep, tr, given, ip):
    d = tr.fields.get("js_constants")
    if not isinstance(d, DictV):
        return
    for k, want in CONSTANTS.items():
        st = p.cls("SerializationTag").qual
        v = d.items.get(("enum", st, k))
        dv = v
        if given is not None:
            ok = kind_(v) == "default" and given in _subs(v[1]) and ("enum", st, k) in _subs(v[1])
            if not ok:
                rep.viol("constants-option", "TagReader", f"js_constants does not decide what {k} is read as")
                continue
            dv = v[2]
        got = dv[2] if kind_(dv) in ("enum", "c") else None
        if v is None or got != want:
            rep.viol("constants-option", "TagReader", f"{k} is read as {show(dv) if dv is not None else 'nothing'} by default instead of {want}")


def check_option_use(p, rep):
    rep.rule("the value read for each tag is built with the option configured for that type")
    from .reader import decode_paths
    uses = {"kBeginJSMap": "jsmap_type", "kBeginJSSet": "jsset_type", "kBeginJSObject": "js_object_type",
            "kBeginDenseJSArray": "js_array_type", "kBeginSparseJSArray": "js_array_type", "kError": "js_error_builder",
            "kDate": "default_timezone", "kHostObject": "host_object_deserializer"}
    for tag, opt in uses.items():
        ps, ip = decode_paths(p, tag)
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "return":
                continue
            ok = any(kind_(x) == "attr" and x[2] == opt or kind_(x) == "sym" and x[1] == opt for x in _event_terms(q))
            rep.require(ok, "option-use", f"TagReader.decode({tag})", f"the value is not built with {opt}", "option uses decided")
    given = ("sym", "js_constants", "obj")
    for k in CONSTANTS:
        ps, ip = decode_paths(p, k, extra={"js_constants": given})
        for q in ps:
            if q.outcome == "return":
                ok = kind_(q.value) == "default" and given in _subs(q.value[1]) and any(
                    kind_(x) == "enum" and x[2] == k for x in _subs(q.value[1]))
                rep.require(ok, "option-use", f"TagReader.decode({k})",
                            f"{show(q.value)} is returned instead of the configured constant", "option uses decided")
    rep.at_least("option uses decided", 10)


MUTABLE_SET = {"add", "discard", "remove", "pop", "clear", "__contains__", "__iter__", "__len__", "__ior__", "__iand__", "isdisjoint"}
MUTABLE_MAP = {"__setitem__", "update", "setdefault", "get", "pop", "popitem", "clear", "items", "keys", "values", "__getitem__",
               "__delitem__", "__contains__", "__iter__", "__len__"}


def check_collection_types(p, rep):
    rep.rule("the sets and maps given are filled using only what every mutable set or mapping offers, so that built-in and other "
             "types can be used")
    from .reader import decode_paths
    for tag, opt, have in (("kBeginJSSet", "jsset_type", MUTABLE_SET), ("kBeginJSMap", "jsmap_type", MUTABLE_MAP)):
        ps, ip = decode_paths(p, tag)
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "return":
                continue
            rep.ob("fillings decided")
            for e in q.events:
                if e.kind != "call" or kind_(e.f) != "attr" or not (kind_(e.f[1]) == "call" and opt in show(e.f[1][1])):
                    continue
                m = e.f[2]
                if m not in have:
                    rep.viol("collection-type", f"TagReader.decode({tag})", f"the value built with {opt} is filled with {m}, which not every such type has")
                elif m == "__ior__" and any(isinstance(a, (GenV, GenExp)) for a in e.args):
                    rep.viol("collection-type", f"TagReader.decode({tag})",
                             f"the value built with {opt} is filled with |= of a generator, which built-in sets do not accept")
    rep.at_least("fillings decided", 2)


def check_host_objects(p, rep):
    rep.rule("host objects are read and written by calling the object's documented method, or the function itself, with the "
             "documented keyword arguments")
    from .reader import decode_paths
    from .writer import write_paths
    for what, m, param, need in (("read", "deserialize_host_object", "host_object_deserializer", {"stream"}),
                                 ("write", "serialize_host_object", "serializer", {"stream", "value"})):
        ps, ip = decode_paths(p, "kHostObject") if what == "read" else write_paths(p, "write_host_object")
        rep.use(ps, ip)
        at = "TagReader.decode(kHostObject)" if what == "read" else "WritableTagStream.write_host_object"
        kinds = {}
        for q in ps:
            if q.outcome != "return":
                continue
            calls = [(e.f, e.args, e.kw) for e in q.events if e.kind == "call" and e.f is not None]
            calls += [(t[1], t[2], t[3]) for t in _subs(q.value) if kind_(t) == "call"] if isinstance(q.value, tuple) else []
            for f, args, kw in calls:
                how = None
                if kind_(f) == "sym" and f[1] == param:
                    how = "function"
                elif kind_(f) == "attr" and kind_(f[1]) == "sym" and f[1][1] == param:
                    how = f[2]
                if how is None:
                    continue
                proto = [(t, b) for t, b in q.atoms.items() if t[0] == "isinstance" and t[1] == (f if how == "function" else f[1])]
                rep.ob("host object calls")
                if how not in ("function", m):
                    rep.viol("host-object", at, f"{how} of the {param} is called, which the documentation does not require it to have")
                elif set(dict(kw)) != need or args:
                    rep.viol("host-object", at, f"the {param} is not called with the keyword arguments {', '.join(sorted(need))}")
                for t, b in proto:
                    if show(t).rstrip(")").endswith("Obj"):
                        kinds.setdefault(b, set()).add(how)
        if True in kinds and m not in kinds[True] or kinds.get(False, {"function"}) != {"function"}:
            rep.viol("host-object", at, f"{m} of the {param} is not what is called when it has it, or the {param} itself when it has not")
    rep.at_least("host object calls", 4)


REGISTRY = [
    ("a reader registered for a tag replaces the one before", """
r = TagReaderRegistry()
r.register(T.kTrue, f)
r.register(T.kTrue, g)
return r.match(T.kTrue) is g, r.match(T.kFalse) is None, r.index[T.kTrue] is g"""),
    ("a registry copied into another replaces what was registered there, and stays as it is", """
a = TagReaderRegistry()
b = TagReaderRegistry()
a.register(T.kTrue, f)
a.register(T.kNull, f)
b.register(T.kTrue, g)
a.register_all(b)
return a.match(T.kTrue) is g, b.match(T.kTrue) is g, a.match(T.kNull) is f, b.match(T.kNull) is None, a.index[T.kTrue] is g"""),
    ("the readers given take the place of the default ones for their tags only", """
b = TagReaderRegistry()
b.register(T.kTrue, g)
r = TagReader(tag_readers=b)
n = r.tag_readers
return n.match(T.kTrue) is g, n.match(T.kFalse) is not g, n.match(T.kFalse) is not None, b.match(T.kFalse) is None"""),
    ("a reader registered for a set of tags reads exactly those", """
a = TagReaderRegistry()
a.register(JS_OBJECT_KEY_TAGS, f)
return (a.match(T.kUtf8String) is f, a.match(T.kOneByteString) is f, a.match(T.kTwoByteString) is f, a.match(T.kInt32) is f,
        a.match(T.kTrue) is None, a.match(T.kBigInt) is None)"""),
    ("registries made from one another are separate", """
a = TagReaderRegistry()
a.register(T.kTrue, f)
b = TagReaderRegistry(a)
a.register(T.kNull, f)
b.register(T.kFalse, g)
return b.match(T.kTrue) is f, b.match(T.kNull) is None, a.match(T.kFalse) is None"""),
    ("readers registered with one tag reader are not seen by another", """
a = TagReader()
b = TagReader()
a.tag_readers.register(T.kTrue, g)
return a.tag_readers.match(T.kTrue) is g, b.tag_readers.match(T.kTrue) is not g"""),
]


def check_registry(p, rep):
    rep.rule("readers registered for tags take effect for exactly those tags, the latest registration first, and registries "
             "share nothing")
    for what, src in REGISTRY:
        ps, ip = script(p, "T = SerializationTag\nf = object()\ng = object()" + src, {}, None, "v8serialize.decode")
        rep.use(ps, ip)
        for q in ps:
            rep.ob("registry scenarios decided")
            if q.outcome != "return":
                rep.viol("registry", "TagReaderRegistry", f"{what}: fails with {q.exc_name()}")
                continue
            vals = list(q.value[1]) if kind_(q.value) == "tup" else [q.value]
            if any(v == C(False) for v in vals):
                rep.viol("registry", "TagReaderRegistry", f"{what}: this does not hold")
            elif any(v != C(True) for v in vals):
                rep.undecided.append(f"TagReaderRegistry: {what}: {show(q.value)} is not understood")
    rep.at_least("registry scenarios decided", 4)


def _event_terms(q):
    out = set(_subs(q.value)) if isinstance(q.value, tuple) else set()
    for e in q.events:
        for x in (e.f, *e.args, *[v for _, v in e.kw], e.result):
            if isinstance(x, tuple):
                out |= _subs(x)
    return out
