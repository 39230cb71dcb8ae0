"""Abstract model of the decoding side.

Every tag is decoded abstractly by `TagReader.decode` with the stream's
primitive operations (varint, tag, nested object, object log) replaced by
tokens; everything else of the package on the way is inlined.
"""

from __future__ import annotations

from .interp import AbsRaise, Config, Infeasible, Interp, kind_
from .project import AnalysisError, Class
from .terms import C, FALSE, NONE, TRUE, Obj, is_c, is_int, lin_add, show

RTS = "ReadableTagStream"


class Tok:
    __slots__ = ("kind", "a", "b", "node", "func", "facts")

    def __init__(self, kind, a=None, b=None, node=None, func=None, facts=None):
        self.kind, self.a, self.b, self.node, self.func, self.facts = kind, a, b, node, func, facts

    def loc(self):
        if self.func is None:
            return "?"
        return f"{self.func.module.relpath}:{getattr(self.node, 'lineno', '?')} in {self.func.qual}"

    def __repr__(self):
        def s(x):
            return "" if x is None else (show(x) if isinstance(x, tuple) else repr(x))
        return f"{self.kind}({s(self.a)}{', ' + s(self.b) if self.b is not None else ''})"


# exceptions that external operations raise for some value of a data-dependent argument
EXT_RAISES = {
    "codecs.decode": ["builtins.UnicodeDecodeError"],
    "datetime.datetime.fromtimestamp": ["builtins.ValueError", "builtins.OverflowError", "builtins.OSError"],
    "datetime.datetime.utcfromtimestamp": ["builtins.ValueError", "builtins.OverflowError", "builtins.OSError"],
}


STRINGS = {"kUtf8String", "kOneByteString", "kTwoByteString", "kStringObject"}


def unpack_size(fmt):
    import struct
    try:
        return struct.calcsize(fmt[2]) if is_c(fmt) else None
    except struct.error:
        return None


def never_raises(f, args, kwargs):
    """Every byte is a latin-1 character."""
    if f[1] == "codecs.decode":
        c = args[1] if len(args) > 1 else kwargs.get("encoding")
        return is_c(c) and str(c[2]).lower().replace("_", "-") in ("latin1", "latin-1", "iso-8859-1", "iso8859-1")
    return False


class ReaderConfig(Config):
    """exc: model exceptions of external operations (for the error-discipline rule)."""

    max_paths = 20000

    def __init__(self, project, exc=False, assert_fork=False, prims=True):
        self.p = project
        self.exc = exc
        self.exc_mode = "handlers"
        self.assert_mode = "fork" if assert_fork else "assume"
        rts = project.cls(RTS)
        self.prims = {}
        if prims:
            for n in ("read_varint", "read_tag", "peak_tag", "ensure_capacity", "throw", "read_padding"):
                f = rts.methods.get(n)
                if f is None:
                    raise AnalysisError(f"{RTS}.{n} not found")
                self.prims[f.qual] = n
        log = project.cls("SerializedObjectLog")
        for n in ("record_reference", "replace_reference", "get_object", "record_acyclic_reference", "get_serialized_id"):
            f = log.methods.get(n)
            if f is None:
                raise AnalysisError(f"SerializedObjectLog.{n} not found")
            self.prims[f.qual] = n
        self.err = project.cls("DecodeV8SerializeError")

    def may_raise(self, ip, f):
        """Which of the handled exception types a call can raise."""
        if isinstance(f, tuple) and f[0] == "ext":
            r = EXT_RAISES.get(f[1])
            if r is not None:
                return False if self.exc else [("ext", x) for x in r] + [("ext", "builtins.Exception")]
            return False
        if isinstance(f, tuple) and f[0] in ("idx",):
            return False
        if self.exc:
            return False
        return True

    def tok(self, ip, kind, a=None, b=None, node=None, frame=None, facts=None):
        ip.emit("tok", extra=Tok(kind, a, b, node, frame.func if frame is not None else None, facts))

    def advance(self, ip, rts):
        ip.nsym += 1
        rts.fields["pos"] = ("sym", f"pos#{ip.nsym}", "nat")
        ip.note_mod(("f", rts.oid, "pos"), rts)

    def on_call(self, ip, f, args, kwargs, node, frame):
        if not isinstance(f, tuple):
            return NotImplemented
        if f[0] == "fn" and f[1] in self.prims:
            return self.prim(ip, self.prims[f[1]], args, kwargs, node, frame)
        if f[0] == "attr" and f[2] == "decode_object" and isinstance(f[1], Obj) and f[1].name == "ctx":
            t = kwargs.get("tag", args[0] if args else NONE)
            t = ip.value_of(t)
            r = ip.fresh("nest") + ("obj",)
            if t == NONE:
                self.tok(ip, "NEST", None, r, node, frame)
            else:
                self.tok(ip, "NEST", t, r, node, frame)
                # the default steps decode string tags to str
                d = [t] if kind_(t) == "enum" else list(ip.dom(t) or ())
                if d and all(kind_(x) == "enum" and x[2] in STRINGS for x in d):
                    ip.types[r] = ({"str"}, set())
            self.advance(ip, ip.rts)
            self.may(ip, [("cls", self.err.qual)], node, frame, ctxonly=True)
            return r
        if self.exc and f[0] == "ext" and f[1] in EXT_RAISES and not never_raises(f, args, kwargs):
            self.may(ip, [("ext", x) for x in EXT_RAISES[f[1]]], node, frame, f=f)
        if self.exc and f[0] == "cls" and len(args) == 1 and not kwargs and ip.p.is_enum(ip.p.classes[f[1]]) and not ip.is_flag(
                ip.p.classes[f[1]]):
            v = ip.value_of(args[0])
            if not is_c(v) and kind_(v) != "enum" and "_missing_" not in ip.p.classes[f[1]].methods and not ip.contains(v, f):
                ip.raise_("ValueError", (v,), node)
        if f[0] == "ext" and f[1] == "struct.unpack_from" and len(args) == 3:
            n = unpack_size(args[0])
            self.tok(ip, "UNPACK", args[0], args[2], node, frame,
                     n is not None and self.inside(ip, args[2], lin_add(args[2], C(n))))
        return NotImplemented

    def inside(self, ip, start, stop):
        """0 <= start, stop <= len(data) is known here."""
        d = ip.rts.fields.get("data")
        n = ip.x_len([d], {}, None, None)
        return ip.le0(lin_add(C(0), start, -1)) is True and ip.le0(lin_add(stop, n, -1)) is True

    def may(self, ip, types, node, frame, f=None, ctxonly=False):
        """Split the path on whether one of the exceptions is raised."""
        if ctxonly and not ip.exc_ctx:
            return
        if ctxonly:
            ctx = [t for c in ip.exc_ctx for t in c]
            types = [t for t in types if ip.matches(self.mk(ip, t), ctx)]
            if not types:
                return
        k = ip.choose(1 + len(types))
        if k:
            e = self.mk(ip, types[k - 1])
            ip.emit("raised", f, (types[k - 1],), node=node, frame=frame)
            raise AbsRaise(e, node)

    def mk(self, ip, t):
        e = Obj(ip.new_oid(), None, "exc", True)
        if t[0] == "cls":
            e.cls = self.p.classes[t[1]]
        else:
            e.ename = t[1]
        return e

    def prim(self, ip, name, args, kwargs, node, frame):
        if name in ("record_reference", "replace_reference", "get_object", "record_acyclic_reference", "get_serialized_id"):
            return self.log_prim(ip, name, args, kwargs, node, frame)
        rts = args[0]
        if not isinstance(rts, Obj):
            return NotImplemented
        if name == "throw":
            self.tok(ip, "THROW", None, None, node, frame)
            e = Obj(ip.new_oid(), self.err)
            raise AbsRaise(e, node)
        if name == "read_varint":
            mb = kwargs.get("max_bits", args[1] if len(args) > 1 else NONE)
            v = ip.fresh("varint") + ("nat",)
            if is_int(mb) and mb[2]:
                ip.assume_le0(lin_add(v, C((1 << (-(-mb[2] // 7) * 7)) - 1), -1), True)
            self.tok(ip, "VARINT", v, mb, node, frame)
            self.advance(ip, rts)
            self.may(ip, [("cls", self.err.qual)], node, frame, ctxonly=True)
            return v
        if name == "read_tag":
            t = ip.value_of(kwargs.get("tag", args[1] if len(args) > 1 else NONE))
            consume = ip.value_of(kwargs.get("consume", TRUE))
            st = self.p.cls("SerializationTag")
            allowed = self.tagset(ip, t)
            v = ip.fresh("tag") + ("obj",)
            full = frozenset(("enum", st.qual, n) for n in ip.enum_info(st))
            ip.doms[v] = full if allowed is None else frozenset(allowed)
            self.tok(ip, "TAG", v, C(consume != FALSE), node, frame)
            self.advance(ip, rts)
            self.may(ip, [("cls", self.err.qual)], node, frame, ctxonly=True)
            return ip.value_of(v)
        if name == "peak_tag":
            st = self.p.cls("SerializationTag")
            v = ip.fresh("peek") + ("peek",)
            ip.doms[v] = frozenset(("enum", st.qual, n) for n in ip.enum_info(st)) | {NONE}
            self.tok(ip, "PEEK", v, None, node, frame)
            return v
        if name == "ensure_capacity":
            n = kwargs.get("count", args[1] if len(args) > 1 else NONE)
            self.tok(ip, "CAP", n, rts.fields["pos"], node, frame)
            # on return: pos + n <= len(data)
            pos = rts.fields["pos"]
            d = ip.x_len([rts.fields["data"]], {}, node, frame)
            ip.assume_le0(lin_add(lin_add(pos, n), d, -1), True)
            self.may(ip, [("cls", self.err.qual)], node, frame, ctxonly=True)
            return NONE
        if name == "read_padding":
            self.tok(ip, "PAD", None, None, node, frame)
            self.advance(ip, rts)
            return NONE
        raise AnalysisError(name)

    def log_prim(self, ip, name, args, kwargs, node, frame):
        log, rest = args[0], list(args[1:])
        a = rest[0] if rest else next(iter(kwargs.values()), NONE)
        if name == "record_reference":
            r = ip.fresh("serialid") + ("obj",)
            self.tok(ip, "REC", a, r, node, frame)
            return r
        if name == "replace_reference":
            b = rest[1] if len(rest) > 1 else kwargs.get("obj", NONE)
            self.tok(ip, "REPLACE", a, b, node, frame)
            return NONE
        if name == "get_object":
            r = ip.fresh("refobj") + ("obj",)
            self.tok(ip, "GETREF", a, r, node, frame)
            if ip.exc_ctx or self.exc:
                self.may(ip, [("cls", self.p.cls("ObjectNotSerializedV8SerializeError").qual)]
                         if any(c.name == "ObjectNotSerializedV8SerializeError" for c in self.p.classes.values())
                         else [("cls", self.p.cls("V8SerializeError").qual)], node, frame)
            return r
        return NotImplemented

    def tagset(self, ip, t):
        """Allowed tags of a read_tag constraint, or None for any."""
        if t == NONE:
            return None
        if isinstance(t, Obj):
            a = t.fields.get("allowed_tags")
            items = ip.const_items(a) if a is not None else None
            if items is None:
                raise AnalysisError(f"cannot resolve tag constraint {show(t)}")
            return items
        if kind_(t) == "enum":
            return [t]
        d = ip.dom(t)
        if d is not None:
            return list(d)
        raise AnalysisError(f"cannot resolve tag constraint {show(t)}")

    def on_setattr(self, ip, base, name, value, node, frame):
        if base is ip.rts and name == "pos":
            self.tok(ip, "ADV", lin_add(value, base.fields["pos"], -1), base.fields["pos"], node, frame,
                     self.inside(ip, value, value))

    def on_index(self, ip, base, key, node, frame):
        d = ip.rts.fields.get("data") if getattr(ip, "rts", None) is not None else None
        if d is not None and (base == d or base == ("call", ("ext", "builtins.memoryview"), (d,), (), 0)):
            if isinstance(key, tuple) and key[0] == "slice":
                a = C(0) if key[1] == NONE else key[1]
                b = ip.x_len([d], {}, None, None) if key[2] == NONE else key[2]
                ok = self.inside(ip, a, b)
            else:
                ok = self.inside(ip, key, lin_add(key, C(1)))
            self.tok(ip, "RAW", base, key, node, frame, ok)


OPTS = ("jsmap_type", "jsset_type", "js_object_type", "js_array_type", "js_error_builder")


def mk_stream(ip, version=None):
    rts = Obj(ip.new_oid(), ip.p.cls(RTS), "stream", True)
    ip.rts = rts
    rts.fields["data"] = ("sym", "data", "bytes")
    pos = ("sym", "pos0", "nat")
    rts.fields["pos"] = pos
    ip.assume_le0(lin_add(pos, ("len", ("sym", "data", "bytes")), -1), True)
    log = Obj(ip.new_oid(), ip.p.cls("SerializedObjectLog"), "log", True)
    rts.fields["objects"] = log
    rts.fields["version"] = version if version is not None else ("sym", "version", "nat")
    return rts


def mk_reader(ip, overrides=True, host=True, extra=None):
    kw = dict(extra or {})
    if overrides:
        for n in OPTS:
            s = ("sym", n, "obj")
            ip.atoms[("truthy", s)] = True
            kw[n] = s
    kw["default_timezone"] = ("sym", "default_timezone", "opt")
    if host is True:
        hs = ("sym", "host_object_deserializer", "obj")
        ip.atoms[("truthy", hs)] = True
        kw["host_object_deserializer"] = hs
    tr = ip.construct(ip.p.cls("TagReader"), [], kw, None, _frame(ip))
    return tr


def _frame(ip):
    from .interp import Frame, _module_func
    return Frame(-1, _module_func(ip.p.modules["v8serialize.decode"]))


def serialization_tags(p):
    ip = Interp(p)
    ip.prefix, ip.pending = (), []
    c = p.cls("SerializationTag")
    return {n: r["_value_"][2] for n, r in ip.enum_info(c).items()}


def decode_paths(p, tagname, exc=False, assert_fork=False, host=True, extra=None, cfg_cls=None, overrides=True):
    """All abstract paths of TagReader.decode(tag) -> list of Path."""
    cfg = (cfg_cls or ReaderConfig)(p, exc, assert_fork)
    ip = Interp(p, cfg)
    st = p.cls("SerializationTag")

    def setup(ip):
        ip.rts = None
        rts = mk_stream(ip)
        tr = mk_reader(ip, overrides, host=host, extra=extra)
        ctx = ip.sym_obj("DecodeContext", "ctx")
        ctx.fields["stream"] = rts
        ip.roots = [ctx, rts, tr]
        nxt = ("sym", "next", "obj")
        del ip.events[:]
        dec = p.find_method(tr.cls, "decode")
        return ip.call(("bound", ("fn", dec.qual), tr), [("enum", st.qual, tagname)],
                       {"ctx": ctx, "next": nxt}, None, _frame(ip))

    ps = ip.explore(setup)
    return ps, ip


def stream_paths(p, mname, args=(), kw=None, prims=(), exc=True, setup_extra=None):
    """Abstract paths of a method of the stream itself; prims: operations kept opaque."""
    cfg = ReaderConfig(p, exc, True)
    cfg.prims = {q: n for q, n in cfg.prims.items() if n in prims or n in ("record_reference", "replace_reference", "get_object")}
    ip = Interp(p, cfg)
    f = p.find_method(p.cls(RTS), mname)
    if f is None:
        raise AnalysisError(f"{RTS}.{mname} not found")

    def setup(ip):
        ip.rts = None
        rts = mk_stream(ip)
        ctx = ip.sym_obj("DecodeContext", "ctx")
        ctx.fields["stream"] = rts
        ip.roots = [ctx, rts]
        a, k = (args(ip) if callable(args) else list(args)), dict((kw(ip) if callable(kw) else kw) or {})
        ip.ctx = {"stream": rts, "args": a, "kw": k, "ctx": ctx}
        del ip.events[:]
        if f.is_property:
            return ip.get_attr(rts, mname, None, _frame(ip))
        return ip.call(("bound", ("fn", f.qual), rts), a, k, None, _frame(ip))

    return ip.explore(setup), ip


def toks(path):
    return [e.extra for e in path.events if e.kind == "tok"]


def seq(path):
    """Tokens plus loop/yield/consume markers, in order."""
    out = []
    for e in path.events:
        if e.kind == "tok":
            out.append(e.extra)
        elif e.kind in ("loop", "endloop"):
            out.append(Tok("LOOP" if e.kind == "loop" else "ENDLOOP", None, C(e.extra[1]), e.node, e.func, e.extra[0]))
        elif e.kind == "yielded":
            out.append(Tok("YIELD", e.args[0], None, e.node, e.func))
        elif e.kind in ("consume", "consumed"):
            out.append(Tok(e.kind.upper(), e.f, None, e.node, e.func))
        elif e.kind == "call":
            out.append(Tok("CALL", e.f, ("tup", e.args + tuple(("kw", k, v) for k, v in e.kw)), e.node, e.func))
        elif e.kind == "setitem":
            out.append(Tok("SETITEM", e.f, ("tup", e.args), e.node, e.func))
        elif e.kind == "setattr":
            out.append(Tok("SETATTR", e.f, e.args[0], e.node, e.func))
    return out
