"""Node.js's own encoding of buffer views inside host objects."""

from __future__ import annotations

from . import v8spec as V
from .fn import FnConfig, script
from .interp import kind_
from .terms import C, NONE, TRUE, Obj, is_c, lin_add, lin_scale, show
from .rules_buffers import Undecided, subterms, tag_term, view_class, zeros

MOD = "v8serialize.extensions"
HANDLER = "NodeJsArrayBufferViewHostObjectHandler"
MAPPER = "serialize_js_array_buffer_views_as_nodejs_host_object"
D, L, P = ("sym", "data", "bytes"), ("sym", "length", "nat"), ("sym", "pos", "nat")
OUT = ("sym", "out", "bytearray")
NEXT = ("sym", "next", "obj")
BASE, OFF, N = ("sym", "backing", "obj"), ("sym", "offset", "nat"), ("sym", "bytes", "nat")


def _name(f):
    """The qualified name of a called function or method of the package."""
    if kind_(f) == "bound":
        f = f[1]
    return f[1] if kind_(f) == "fn" else None


class _ReadCfg(FnConfig):
    max_paths = 5000

    def __init__(self, p, code):
        super().__init__()
        self.code = code
        self.exact_div = True
        rts = p.cls("ReadableTagStream")
        self.reads = {rts.methods[n].qual: n for n in ("read_uint32", "read_varint") if n in rts.methods}

    def on_call(self, ip, f, args, kwargs, node, frame):
        if _name(f) in self.reads:
            n = sum(1 for e in ip.events if e.kind == "number")
            ip.emit("number", f, (C(n),), node=node, frame=frame)
            return C(self.code) if n == 0 else L if n == 1 else ("unknown", "number", n)
        return NotImplemented


def _stream(p, cn, **fields):
    def mk(ip):
        o = ip.new_obj(p.cls(cn))
        o.symbolic, o.name = True, "stream"
        o.fields.update(fields)
        return o
    return mk


def _label(p, n):
    f = p.find_method(p.cls(HANDLER), n)
    return f"{f.module.relpath}:{f.node.lineno} {f.qual.rsplit('.', 1)[-1]}"


def strip(t):
    """The bytes shown by t, whatever form they are in."""
    while True:
        if kind_(t) == "call" and t[1] in (("ext", "builtins.bytes"), ("ext", "builtins.bytearray"), ("ext", "builtins.memoryview")) and len(t[2]) == 1:
            t = t[2][0]
        elif kind_(t) == "call" and kind_(t[1]) == "attr" and t[1][2] in ("tobytes", "cast", "toreadonly"):
            t = t[1][1]
        elif kind_(t) == "idx" and kind_(t[2]) == "slice" and all(x in (None, NONE) for x in t[2][1:]):
            t = t[1]
        elif kind_(t) == "buf" and len(t) > 2 and isinstance(t[-1], tuple):
            t = t[-1]
        else:
            return t


def check_read(p, rep):
    rep.rule("a host object is read as a view code, a byte length and that many bytes, checked against the data that is left; the result is "
             "a view of the code's type over a copy of exactly these bytes, and the position is behind them")
    label = _label(p, "deserialize_host_object")
    src = f"return {HANDLER}().deserialize_host_object(stream=stream)"
    for code in list(range(14)) + [255, 2**32 - 1]:
        ps, ip = script(p, src, {"stream": _stream(p, "ReadableTagStream", data=D, pos=P)}, _ReadCfg(p, code), MOD)
        rep.use(ps, ip)
        tag = V.NODE_VIEWS.get(code)
        want = view_class(p, tag_term(p, tag)) if tag else None
        for q in ps:
            rep.ob("host object reads decided")
            reads = sum(1 for e in q.events if e.kind == "number")
            if q.outcome == "raise":
                exc = q.exc_name()
                cls = p.cls(exc) if exc in {c.name for c in p.classes.values()} else None
                if cls is None or not any(getattr(k, "name", None) == "DecodeV8SerializeError" for k in p.mro(cls)):
                    rep.viol("node-error", label, f"view code {code} ends in {exc}, which is not a decoding error")
                elif tag and not _past(q):
                    if q.atoms and any(kind_(s) in ("call", "attr", "unknown") for a in q.atoms for s in subterms(a)):
                        rep.undecided.append(f"{label}: when code {code} is refused is not understood")
                    else:
                        rep.viol("node-read", label, f"a {tag[1:]} whose bytes are all there is refused")
                continue
            if not tag:
                rep.viol("node-read", label, f"unknown view code {code} is accepted")
                continue
            if reads != 2:
                rep.viol("node-read", label, f"{reads} numbers are read before the bytes instead of two")
                continue
            v = q.value
            if not isinstance(v, Obj) or v.cls is None:
                rep.undecided.append(f"{label}: result {show(v)[:60]} is not understood")
                continue
            if ("cls", v.cls.qual) != want:
                rep.viol("node-read", label, f"code {code} is read as {v.cls.name} instead of {tag[1:]}")
            stream = next((e.f[1] for e in q.events if e.kind == "setattr" and kind_(e.f) == "attr" and e.f[2] == "pos"), None)
            pos = [e.args[0] for e in q.events if e.kind == "setattr" and kind_(e.f) == "attr" and e.f[2] == "pos"]
            end = lin_add(P, L)
            if stream is None or not q.same(pos[-1], end):
                if pos and any(kind_(s) in ("call", "unknown") for s in subterms(pos[-1])):
                    rep.undecided.append(f"{label}: position {show(pos[-1])[:60]} is not understood")
                else:
                    rep.viol("node-read", label, "the position afterwards is not behind the bytes read")
            if not q.le(end, ("len", D)):
                rep.viol("node-bounds", label, "the byte length is not checked against the data that is left")
            _shown(rep, q, label, v, code)
    rep.at_least("host object reads decided", 16)


def _past(q):
    """Are the bytes known not to be all there?"""
    return q.le(lin_add(("len", D), C(1)), lin_add(P, L))


def _shown(rep, q, label, v, code):
    buf = v.fields.get("backing_buffer")
    data = buf.fields.get("_data", buf.fields.get("data")) if isinstance(buf, Obj) else None
    if data is None:
        rep.undecided.append(f"{label}: the buffer of the view is not understood")
        return
    copied = kind_(data) == "buf" and data[1] == "bytearray" or kind_(data) == "call" and data[1] == ("ext", "builtins.bytearray")
    inner = strip(data)
    if kind_(inner) == "idx" and strip(inner[1]) == D and kind_(inner[2]) == "slice":
        lo, hi = inner[2][1], inner[2][2]
        if not (q.same(lo if lo not in (None, NONE) else C(0), P) and hi not in (None, NONE) and q.same(hi, lin_add(P, L))):
            rep.viol("node-read", label, "the view is not made of the bytes behind the length")
        elif not copied:
            rep.viol("node-read", label, "the view's bytes cannot be changed")
    elif not any(s == D for s in subterms(inner)):
        z = zeros(inner)
        if z is not None and q.same(z, C(0)) and q.same(L, C(0)):
            return
        rep.undecided.append(f"{label}: buffer content {show(inner)[:60]} is not understood")
    else:
        rep.undecided.append(f"{label}: buffer content {show(inner)[:60]} is not understood")
    off = v.fields.get("byte_offset", C(0))
    if off != C(0) and kind_(off) == "c":
        rep.viol("node-read", label, f"the view starts at byte {off[2]} of its bytes")
    n = v.fields.get("item_length")
    if n not in (None, NONE):
        k = V.VIEW_ELEMENTS[V.NODE_VIEWS[code]][0]
        odd = [s for s in subterms(n) if kind_(s) in ("call", "attr", "unknown", "idx")]
        size = lin_scale(n, k)
        if odd:
            rep.undecided.append(f"{label}: item count {show(n)[:60]} is not understood")
        elif not (q.le(size, L) and q.le(lin_add(L, size, -1), C(k - 1))):
            rep.viol("node-read", label, f"the elements of the {V.NODE_VIEWS[code][1:]} do not cover its bytes")


class _WriteCfg(FnConfig):
    def __init__(self, p, fmt="B"):
        super().__init__()
        self.exact_div = True
        self.fmt = fmt
        w = p.cls("WritableTagStream")
        self.writes = {w.methods[n].qual: n for n in ("write_uint32", "write_varint", "write_tag", "write_host_object") if n in w.methods}
        self.gets = "get_buffer_as_memoryview"

    def on_call(self, ip, f, args, kwargs, node, frame):
        n = _name(f)
        if n in self.writes:
            a = list(args)
            if not (kind_(f) == "bound"):
                a = a[1:]
            ip.emit("written", ("sym", self.writes[n]), tuple(a) + tuple(kwargs.values()), kw=tuple(kwargs.items()), node=node, frame=frame)
            return NONE
        if n and n.rsplit(".", 1)[-1] in ("get_buffer_as_memoryview", "get_buffer"):
            return ("mv", BASE, OFF, N, False, self.fmt if n.endswith("memoryview") else "B")
        return NotImplemented

    def on_iop(self, ip, cur, op, rhs, node, frame):
        if cur == OUT:
            ip.emit("call", ("attr", OUT, "extend"), (rhs,), node=node, frame=frame)
        return False


def check_write(p, rep):
    rep.rule("a view is written as its code, the number of bytes it shows, and exactly these bytes")
    label = _label(p, "serialize_host_object")
    for tag, (_, fmt) in V.VIEW_ELEMENTS.items():
        if tag not in V.NODE_VIEWS.values():
            continue
        code = min(c for c, t in V.NODE_VIEWS.items() if t == tag)
        cls = view_class(p, tag_term(p, tag))

        def mk(ip, cls=cls):
            o = ip.new_obj(p.classes[cls[1]])
            o.symbolic, o.name = True, "value"
            return o
        ps, ip = script(p, f"return {HANDLER}().serialize_host_object(stream=stream, value=value)",
                        {"stream": _stream(p, "WritableTagStream", data=OUT), "value": mk}, _WriteCfg(p, fmt), MOD)
        rep.use(ps, ip)
        for q in ps:
            rep.ob("host object writes decided")
            if q.outcome == "raise":
                rep.viol("node-write", label, f"a {tag[1:]} cannot be written ({q.exc_name()})")
                continue
            seq = []
            for e in q.events:
                if e.kind == "written":
                    seq.append((e.f[1], e.args[0] if e.args else None, e.kw))
                elif e.kind == "call" and kind_(e.f) == "attr" and e.f[1] == OUT and e.f[2] in ("extend", "append", "__iadd__"):
                    seq.append((e.f[2], e.args[0], ()))
            if [s[0] for s in seq] != ["write_uint32", "write_uint32", "extend"]:
                if any(s[0] == "write_tag" for s in seq) or len(seq) != 3:
                    rep.viol("node-write", label, f"a {tag[1:]} is written as {', '.join(s[0] for s in seq) or 'nothing'}")
                else:
                    rep.undecided.append(f"{label}: the parts written are not understood")
                continue
            for s in seq[:2]:
                if dict(s[2]).get("tag", TRUE) != NONE:
                    rep.viol("node-write", label, "a number inside a host object is written with a tag")
            if seq[0][1] != C(code):
                if is_c(seq[0][1]):
                    rep.viol("node-write", label, f"a {tag[1:]} is written with code {show(seq[0][1])} instead of {code}")
                else:
                    rep.undecided.append(f"{label}: code {show(seq[0][1])[:60]} is not understood")
            body = strip(seq[2][1])
            if kind_(body) != "mv":
                whole = any(kind_(s) == "attr" and s[2] in ("backing_buffer", "_data", "data") for s in subterms(body))
                if whole:
                    rep.viol("node-write", label, "bytes outside the view are written")
                else:
                    rep.undecided.append(f"{label}: bytes {show(body)[:60]} are not understood")
                continue
            if not (q.same(body[2], OFF) and q.same(body[3], N) and body[1] == BASE):
                rep.viol("node-write", label, "the bytes written are not those the view shows")
            raw = seq[2][1]
            if raw == body and body[5] not in ("B", "b", "c"):
                rep.viol("node-write", label, f"a {tag[1:]} is written as elements and not as bytes")
            n = seq[1][1]
            if body[5] not in ("B", "b", "c") and (kind_(n) == "len" and n[1] == body or
                                                   kind_(n) == "attr" and n[2] == "item_length" and isinstance(n[1], Obj)):
                rep.viol("node-write", label, f"the length of a {tag[1:]} is counted in elements")
            elif not (kind_(n) == "len" and strip(n[1]) == body or n == ("attr", body, "nbytes") or q.same(n, N)):
                if any(kind_(s) in ("call", "attr", "len") for s in subterms(n)):
                    rep.undecided.append(f"{label}: length {show(n)[:60]} is not understood")
                else:
                    rep.viol("node-write", label, f"the length of a {tag[1:]} is not the number of bytes written")
    rep.at_least("host object writes decided", 12)


def check_mapper(p, rep):
    rep.rule("as an encode step, every view with a Node.js code is written as a host object once and handled by no other step; everything else "
             "is handed on once and unchanged")
    f = p.funcs[f"{MOD}.{MAPPER}"]
    label = f"{f.module.relpath}:{f.node.lineno} {f.name}"
    kinds = [(t, view_class(p, tag_term(p, t)), t in V.NODE_VIEWS.values()) for t in V.VIEW_ELEMENTS]
    kinds += [("an array buffer", ("cls", p.cls("JSArrayBuffer").qual), False), ("an object", ("cls", p.cls("JSObject").qual), False), ("a string", None, False)]
    for what, cls, ours in kinds:
        def mk(ip, cls=cls):
            if cls is None:
                return ("sym", "value", "str")
            o = ip.new_obj(p.classes[cls[1]])
            o.symbolic, o.name = True, "value"
            return o

        def ctx(ip):
            o = ip.new_obj(p.cls("DefaultEncodeContext"))
            o.symbolic, o.name = True, "ctx"
            o.fields["stream"] = _stream(p, "WritableTagStream", data=OUT)(ip)
            return o
        ps, ip = script(p, f"return {MAPPER}(value, ctx, next)", {"value": mk, "ctx": ctx, "next": NEXT}, _WriteCfg(p), MOD)
        rep.use(ps, ip)
        for q in ps:
            mro = {k.qual for k in p.mro(p.classes[cls[1]]) if hasattr(k, "qual")} if cls else ()
            if any(a[0] == "isinstance" and v and kind_(a[2]) == "cls" and a[2][1] not in mro for a, v in q.atoms.items()):
                continue  # some other kind of value that is also this one
            rep.ob("encode step decisions")
            name = what[1:] if what.startswith("k") else what
            if q.outcome == "raise":
                rep.viol("node-step", label, f"{name} makes the encode step raise {q.exc_name()}")
                continue
            wrote = [e for e in q.events if e.kind == "written"]
            nexts = [e for e in q.events if e.kind == "call" and e.f == NEXT]
            val = ip.ctx["args"][0]
            if ours:
                if len(wrote) != 1 or wrote[0].f[1] != "write_host_object" or nexts:
                    rep.viol("node-step", label, f"a {name} is not written as exactly one host object")
                    continue
                a = dict(wrote[0].kw)
                first = wrote[0].args[0] if wrote[0].args else a.get("value")
                if not (isinstance(first, Obj) and first.name == "value"):
                    rep.undecided.append(f"{label}: what is written is not understood")
                ser = a.get("serializer") or (wrote[0].args[1] if len(wrote[0].args) > 1 else None)
                if not (isinstance(ser, Obj) and ser.cls is not None and ser.cls.name == HANDLER):
                    rep.undecided.append(f"{label}: the host object's serializer is not understood")
            elif wrote or len(nexts) != 1:
                rep.viol("node-step", label, f"{name} is " + ("written as a host object" if wrote else "not handed on exactly once"))
            elif not (nexts[0].args and (nexts[0].args[0] == val or isinstance(nexts[0].args[0], Obj) and nexts[0].args[0].name == "value")):
                rep.viol("node-step", label, f"{name} is changed before it is handed on")
    rep.at_least("encode step decisions", 14)


def check_codes(p, rep):
    rep.rule("every Node.js view code stands for the view type Node.js gives it, and no other code is known")
    label = f"{p.cls('NodeBufferFormat').module.relpath}:{p.cls('NodeBufferFormat').node.lineno} NodeBufferFormat"
    for code in list(range(14)) + [255]:
        ps, ip = script(p, "return NodeBufferFormat(code).view_format.view_tag", {"code": C(code)}, FnConfig(), MOD)
        rep.use(ps, ip)
        tag = V.NODE_VIEWS.get(code)
        for q in ps:
            rep.ob("host view codes decided")
            got = q.value[2] if q.outcome == "return" and kind_(q.value) == "enum" else None
            if q.outcome == "return" and got is None:
                rep.undecided.append(f"{label}: type of code {code} is not understood")
            elif got != tag:
                rep.viol("node-code", label, f"Node.js view code {code} stands for {got or 'nothing'} instead of {tag or 'nothing'}")
