"""Abstract model of the encoding side.

Every entry point that can put bytes on a stream is interpreted abstractly
with the stream's primitive operations (tag, varint, raw bytes, nested object,
object log) replaced by tokens; everything else of the package is inlined.
"""

from __future__ import annotations

import ast

from .interp import AbsRaise, Config, Interp, kind_, _body_func, _module_func, Frame
from .project import AnalysisError, Class
from .reader import Tok
from .terms import C, FALSE, NONE, TRUE, Obj, is_c, is_int, lin_add, show

WTS = "WritableTagStream"
LOG = "SerializedObjectLog"


class WriterConfig(Config):
    max_paths = 20000
    fail_nested = False          # may any nested write fail?

    def __init__(self, project, assert_fork=False):
        self.p = project
        self.exc_mode = "handlers"
        self.assert_mode = "fork" if assert_fork else "assume"
        wts = project.cls(WTS)
        self.prims = {}
        for n in ("write_tag", "write_varint"):
            f = wts.methods.get(n)
            if f is None:
                raise AnalysisError(f"{WTS}.{n} not found")
            self.prims[f.qual] = n
        # alternative constructors (conversions from Python objects) return a new
        # instance of their class; what they convert is not part of the layout
        self.opaque_ctors = {}
        for cn in ("JSErrorData",):
            c = project.cls(cn)
            for f in c.methods.values():
                if f.is_class and f.name.startswith("from_"):
                    self.opaque_ctors[f.qual] = c
        log = project.cls(LOG)
        for n in ("record_reference", "replace_reference", "get_object", "get_serialized_id", "__contains__"):
            f = log.methods.get(n)
            if f is None:
                raise AnalysisError(f"{LOG}.{n} not found")
            self.prims[f.qual] = n

    def on_attr(self, ip, base, name, node, frame):
        # what a view computes about its own extent is a fact about the value, not part of the layout
        if isinstance(base, Obj) and base.symbolic and base.cls is not None and name in (
                "byte_length", "byte_offset", "is_in_range") and any(
                    getattr(k, "name", None) == "JSArrayBufferView" for k in self.p.mro(base.cls)):
            return base.fields[name] if name in base.fields else ip.sym_field(base, name)
        return NotImplemented

    def may_raise(self, ip, f):
        if isinstance(f, tuple) and f[0] == "attr" and f[2] == "encode":
            return [("ext", "builtins.UnicodeEncodeError"), ("ext", "builtins.Exception"), ("ext", "builtins.ValueError")]
        if isinstance(f, Obj) or (isinstance(f, tuple) and f[0] in ("sym", "attr") and f[0] == "sym"):
            return True
        return False

    def tok(self, ip, kind, a=None, b=None, node=None, frame=None, facts=None):
        ip.emit("tok", extra=Tok(kind, a, b, node, frame.func if frame is not None else None, facts))

    def grow(self, ip, n):
        w = ip.wts
        old = w.fields["_len"]
        ip.note_mod(("f", w.oid, "_len"), w)
        if n is None:
            ip.nsym += 1
            n = ("sym", f"vlen#{ip.nsym}", "nat")
        w.fields["_len"] = lin_add(old, n)

    def on_call(self, ip, f, args, kwargs, node, frame):
        if not isinstance(f, tuple):
            return NotImplemented
        w = getattr(ip, "wts", None)
        if w is None:
            return NotImplemented
        data = w.fields.get("data")
        if f[0] == "fn" and f[1] in self.opaque_ctors:
            c = self.opaque_ctors[f[1]]
            o = Obj(ip.new_oid(), c, "converted", True)
            ip.emit("call", f, tuple(args), tuple(sorted(kwargs.items())), o, node, frame)
            return o
        if f[0] == "fn" and f[1] in self.prims:
            return self.prim(ip, self.prims[f[1]], args, kwargs, node, frame)
        if f == ("ext", "builtins.len") and len(args) == 1 and ip.value_of(args[0]) == data:
            return w.fields["_len"]
        if f[0] == "attr" and f[1] == data and data is not None:
            if f[2] == "append":
                self.tok(ip, "PUT", ip.value_of(args[0]), None, node, frame)
                self.grow(ip, C(1))
                return NONE
            if f[2] == "extend":
                v = ip.value_of(args[0])
                self.tok(ip, "BYTES", v, None, node, frame)
                self.grow(ip, ip.x_len([v], {}, node, frame) if not is_c(v) else C(len(v[2])))
                return NONE
            if f[2] == "insert":
                self.tok(ip, "INS", ip.value_of(args[0]), ip.value_of(args[1]), node, frame)
                self.grow(ip, C(1))
                return NONE
            if f[2] in ("pop", "clear", "remove", "reverse", "__setitem__", "__delitem__"):
                self.tok(ip, "MUT", ("str", f[2]), None, node, frame)
                self.grow(ip, None)
                return NONE
        if f[0] == "attr" and f[2] == "encode_object" and isinstance(f[1], Obj) and f[1].name == "ctx":
            v = ip.value_of(args[0] if args else kwargs.get("value", NONE))
            self.tok(ip, "NEST", v, w.fields.get("allowed_tags"), node, frame)
            self.grow(ip, None)
            if self.fail_nested and ip.choose(2):
                e = Obj(ip.new_oid(), None, "exc", True)
                e.ename = "builtins.Exception"
                ip.emit("nestfailed", None, (v,), node=node, frame=frame)
                raise AbsRaise(e, node)
            self.may(ip, node, frame)
            return NONE
        if f[0] == "attr" and f[2] == "deduplicate" and isinstance(f[1], Obj) and f[1].name == "ctx":
            # an equal object seen before, or the value itself (verified separately)
            v = ip.value_of(args[0] if args else kwargs.get("value", NONE))
            r = ("dedup", v)
            if v in ip.types:
                ip.types[r] = (set(ip.types[v][0]), set(ip.types[v][1]))
            elif not is_c(v) and ip.not_none(v):
                ip.types[r] = (set(), {"NoneType"})
            return r
        if f == ("sym", "next", "obj"):
            self.tok(ip, "NEXT", ip.value_of(args[0]) if args else NONE, None, node, frame)
            self.grow(ip, None)
            self.may(ip, node, frame)
            return NONE
        return NotImplemented

    def on_iop(self, ip, cur, op, rhs, node, frame):
        w = getattr(ip, "wts", None)
        data = w.fields.get("data") if w is not None else None
        if data is None or cur != data or op != "+":
            return False
        self.on_call(ip, ("attr", data, "extend"), [rhs], {}, node, frame)
        return True

    def may(self, ip, node, frame):
        """Nested writes can raise whatever an enclosing handler distinguishes."""
        if not ip.exc_ctx:
            return
        types = []
        for c in reversed(ip.exc_ctx):
            for t in c:
                if t not in types:
                    types.append(t)
        k = ip.choose(1 + len(types))
        if k:
            e = Obj(ip.new_oid(), None, "exc", True)
            t = types[k - 1]
            if t[0] == "cls":
                e.cls = self.p.classes[t[1]]
            else:
                e.ename = t[1]
            ip.emit("raised", None, (t,), node=node, frame=frame)
            raise AbsRaise(e, node)

    def prim(self, ip, name, args, kwargs, node, frame):
        w = ip.wts
        if name == "write_tag":
            t = ip.value_of(kwargs.get("tag", args[1] if len(args) > 1 else NONE))
            if t == NONE:
                return NONE
            if not (kind_(t) in ("enum", "c")) and not ip.not_none(t):
                if ip.eq(t, NONE):
                    return NONE
            t = ip.value_of(t)
            self.tok(ip, "TAG", t, w.fields.get("allowed_tags"), node, frame, facts=ip.dom(t))
            self.grow(ip, C(1))
            return NONE
        if name == "write_varint":
            n = ip.value_of(kwargs.get("n", args[1] if len(args) > 1 else NONE))
            self.tok(ip, "VARINT", n, None, node, frame, facts=ip.lin_bounds(n) if hasattr(ip, "lin_bounds") else None)
            self.grow(ip, None)
            return NONE
        log, rest = args[0], list(args[1:])
        a = ip.value_of(rest[0] if rest else next(iter(kwargs.values()), NONE))
        if name == "record_reference":
            r = ip.fresh("serialid") + ("obj",)
            self.tok(ip, "REC", a, r, node, frame)
            return r
        if name == "replace_reference":
            b = rest[1] if len(rest) > 1 else kwargs.get("value", NONE)
            self.tok(ip, "REPLACE", a, ip.value_of(b), node, frame)
            return NONE
        if name == "get_object":
            r = ip.fresh("refobj") + ("obj",)
            self.tok(ip, "GETREF", a, r, node, frame)
            return r
        if name == "get_serialized_id":
            r = ip.fresh("serialid") + ("nat",)
            self.tok(ip, "GETID", a, r, node, frame)
            return r
        if name == "__contains__":
            return C(ip.split(("inlog", a)))
        raise AnalysisError(name)


def mk_wstream(ip):
    w = Obj(ip.new_oid(), ip.p.cls(WTS), "stream", True)
    ip.wts = None
    w.fields["data"] = ("sym", "out", "bytes")
    w.fields["_len"] = ("sym", "len0", "nat")
    w.fields["objects"] = Obj(ip.new_oid(), ip.p.cls(LOG), "log", True)
    w.fields["features"] = ("sym", "features", "obj")
    init = ip.p.find_method(w.cls, "__post_init__")
    if init is not None:
        ip.call_func(init, [w], {}, None, frame0(ip))
    w.fields["allowed_tags"] = NONE
    ip.wts = w
    return w


def frame0(ip):
    return Frame(-1, _module_func(ip.p.modules["v8serialize.encode"]))


def sym_value(ip, tn, name="value"):
    """A symbolic instance of a class named tn (as given by cls_name)."""
    if tn in ip.p.classes:
        c = ip.p.classes[tn]
        if ip.p.is_enum(c):
            v = ("sym", name, "obj")
            ip.doms[v] = frozenset(("enum", tn, n) for n in ip.enum_info(c))
            return v
        return Obj(ip.new_oid(), c, name, True)
    short = tn.rsplit(".", 1)[-1]
    v = ("sym", name, {"int": "int", "str": "str", "bytes": "bytes"}.get(short, "obj"))
    if short == "NoneType":
        return NONE
    if short == "bool":
        v = ("sym", name, "obj")
        ip.doms[v] = frozenset([TRUE, FALSE])
        return v
    ip.types[v] = ({tn}, set())
    return v


def mk_ctx(ip):
    w = mk_wstream(ip)
    ctx = ip.sym_obj("EncodeContext", "ctx")
    ctx.fields["stream"] = w
    return ctx, w


def writer_dispatch(p):
    """[(class name, Func)] of TagWriter.encode plus its default."""
    ip = Interp(p, WriterConfig(p))
    ip.prefix, ip.pending = (), []
    f = p.find_method(p.cls("TagWriter"), "encode")
    if f is None or not f.is_dispatch:
        raise AnalysisError("TagWriter.encode is not a dispatch method")
    return ip.dispatch_table(f), f


def encode_paths(p, tn, key=None, assert_fork=False):
    """Paths of TagWriter.encode(value of type tn). key: allowed_tags constraint active."""
    cfg = WriterConfig(p, assert_fork)
    ip = Interp(p, cfg)

    def setup(ip):
        ip.wts = None
        ctx, w = mk_ctx(ip)
        tw = ip.construct(p.cls("TagWriter"), [], {}, None, frame0(ip))
        if key is not None:
            w.fields["allowed_tags"] = ip.global_value(p.modules["v8serialize.constants"], key)
        v = sym_value(ip, tn)
        ip.roots = [ctx, w, tw, v]
        ip.ctx = {"value": v, "params": {"value": v}, "stream": w}
        del ip.events[:]
        tab, f = ip.dispatch_table(p.find_method(tw.cls, "encode")), p.find_method(tw.cls, "encode")
        target = next((fn for cn, fn in tab if cn == tn), f)
        return ip.call_func(target, [tw, v], {"ctx": ctx, "next": ("sym", "next", "obj")}, None, frame0(ip))

    return ip.explore(setup), ip


def _param_value(ip, func, a, default):
    name = a.arg
    ann = ast.unparse(a.annotation) if a.annotation is not None else ""
    if name == "ctx":
        return None
    if name == "tag" and default is not None:
        v = ("sym", "tag", "opt")
        d = ip.ev(default, Frame(-1, _module_func(func.module)))
        ip.doms[v] = frozenset([d, NONE])
        return v
    if default is not None and isinstance(default, ast.Constant) and default.value is None:
        return ("sym", name, "opt")
    if default is not None:
        return ip.ev(default, Frame(-1, _module_func(func.module)))
    names = [x.strip() for x in ann.replace('"', "").split("|")]
    if names == ["int"] or names == ["SerializedId"]:
        v = ("sym", name, "int")
        ip.types[v] = ({"int"}, set())
        return v
    if names == ["str"]:
        return sym_value(ip, "str", name)
    if len(names) == 1:
        for c in ip.p.classes.values():
            if c.name == names[0]:
                return sym_value(ip, c.qual, name)
    return ("sym", name, "obj")


def write_method_names(p):
    c = p.cls(WTS)
    return [n for n, f in c.methods.items()
            if n.startswith("write_") and n not in ("write_tag", "write_varint")]


def write_paths(p, mname, assert_fork=False, preset=None, cfg_cls=None):
    """Paths of WritableTagStream.<mname> with symbolic arguments."""
    cfg = (cfg_cls or WriterConfig)(p, assert_fork)
    ip = Interp(p, cfg)
    func = p.cls(WTS).methods[mname]

    def setup(ip):
        ip.wts = None
        ctx, w = mk_ctx(ip)
        a = func.node.args
        args, kw = [w], {}
        pos = (a.posonlyargs + a.args)[1:]
        dpos = [None] * (len(pos) - len(a.defaults)) + list(a.defaults)
        for x, d in zip(pos, dpos):
            v = ctx if x.arg == "ctx" else _param_value(ip, func, x, d)
            if preset and x.arg in preset:
                v = preset[x.arg](ip)
            args.append(v)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            v = ctx if x.arg == "ctx" else _param_value(ip, func, x, d)
            if preset and x.arg in preset:
                v = preset[x.arg](ip)
            kw[x.arg] = v
        ip.roots = [ctx, w] + args + list(kw.values())
        ip.params = {x.arg: v for x, v in zip(pos, args[1:])}
        ip.params.update(kw)
        ip.ctx = {"value": args[1] if len(args) > 1 else None, "params": dict(ip.params), "stream": w}
        del ip.events[:]
        try:
            return ip.call_func(func, args, kw, None, frame0(ip))
        except AbsRaise:
            if cfg.fail_nested:
                ip.emit("left", extra=w.fields.get("allowed_tags"))
            raise

    return ip.explore(setup), ip
