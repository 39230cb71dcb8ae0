"""Errors as values (JSError, JSErrorData, exceptions turned into them), wrapper objects, and what error reports carry."""

from __future__ import annotations

from .fn import FnConfig, fn_paths, looped, script, sunk
from .interp import kind_
from .project import AnalysisError
from .rules_arrays import sym
from .rules_equality import _EqCfg
from .terms import C, NONE, TRUE, Obj, is_c, show, subterms

J = "v8serialize.jstypes.jserror"
TB = "v8serialize.jstypes._v8traceback"


def _strs(*names):
    return {n: ("sym", n, "str") for n in names}


PARTS = {**_strs("m", "n", "s"), "c": sym("c"), "d": sym("d")}
FIELDS = ("message", "name", "stack", "cause")


class _Stop(FnConfig):
    """The functions named are opaque: a call is a term ('call', ('ext', name), args, kwargs, 0)."""

    def __init__(self, p, names, unless=None):
        super().__init__()
        self.stop, self.unless = {p.func(n).qual for n in names}, unless

    def on_call(self, ip, f, args, kwargs, node, frame):
        if kind_(f) != "fn" or f[1] not in self.stop:
            return NotImplemented
        vals = tuple(ip.value_of(a) for a in args)
        if self.unless is not None and self.unless in vals:
            return NotImplemented
        return ("call", ("ext", f[1].rsplit(".", 1)[-1]), vals, tuple((k, ip.value_of(v)) for k, v in kwargs.items()), 0)


def _called(t, name):
    return kind_(t) == "call" and t[1] == ("ext", name)


def _whole(q):
    return q.value[1] if q.outcome == "return" and kind_(q.value) == "tup" else None


# ------------------------------------------------------------------ making and copying errors
def check_error_parts(p, rep):
    rep.rule("an error made from parts, or copied from another error, has exactly those parts; a builder gives the same object both as the "
             "error to fill in and as the one to use")
    for cn in ("JSError", "JSErrorData"):
        exc = cn == "JSError"
        for how, src, from_ in (
            ("made from its parts", f"e = {cn}(m, name=n, stack=s, cause=c)" if exc else f"e = {cn}(message=m, name=n, stack=s, cause=c)", None),
            ("given by its builder", f"e, f = {cn}.builder(d)", "d"),
        ) + ((("copied", f"e = {cn}.from_js_error(d)", "d"),) if exc else ()):
            ps, ip = script(p, src + "\nreturn e.message, e.name, e.stack, e.cause" + (", e is f" if "f =" in src else ""), dict(PARTS), _EqCfg(), J)
            rep.use(ps, ip)
            for q in ps:
                rep.ob("error parts decided")
                vals = _whole(q)
                if vals is None:
                    rep.viol("error-parts", cn, f"one {how} ends in {q.exc_name() if q.outcome == 'raise' else show(q.value)}")
                    continue
                want = [("attr", PARTS["d"], f) for f in FIELDS] if from_ else [PARTS["m"], PARTS["n"], PARTS["s"], PARTS["c"]]
                for f, v, w in zip(FIELDS, vals, want):
                    empty = exc and f == "message" and v == C("") and q.doms.get(w) == frozenset([NONE])
                    if v == w or empty:
                        continue
                    if w not in set(subterms(v)) and not is_c(v) and kind_(v) not in ("sym", "attr", "enum"):
                        rep.undecided.append(f"{cn}: the {f} of one {how} is {show(v)[:60]}")
                        continue
                    if is_c(v) and q.doms.get(w) == frozenset([v]):
                        continue
                    rep.viol("error-parts", cn, f"the {f} of one {how} is {show(v)[:80]} instead of {show(w)}")
                if len(vals) == 5:
                    rep.require(vals[4] == TRUE, "error-parts", cn, "the builder gives one object to fill in and another to use")
    for src, what, want in (
        ("return JSError(None, cause=c).message", "the message of an error made without one", C("")),
        ("e = JSError(m)\ne.message = None\nreturn e.message", "the message after setting it to None", C("")),
        ("e = JSError(m)\ne.message = 'other'\nreturn e.message", "the message after setting another", C("other")),
        ("return JSError(m).cause", "the cause of an error made without one", NONE),
        ("return JSError(m).stack", "the stack of an error made without one", NONE),
        ("return JSErrorData().message", "the message of error data made without one", NONE),
        ("return JSErrorData().cause", "the cause of error data made without one", NONE),
        ("return JSErrorData().stack", "the stack of error data made without one", NONE),
        ("return JSError(m).name == JSErrorName.Error", "whether the name defaults to Error", TRUE),
        ("return JSErrorData().name == JSErrorName.Error", "whether the name of error data defaults to Error", TRUE),
    ):
        ps, ip = script(p, src, dict(PARTS), _EqCfg(), J)
        rep.use(ps, ip)
        for q in ps:
            rep.ob("error parts decided")
            if q.outcome != "return":
                rep.viol("error-parts", "JSError", f"{what}: {q.exc_name()}")
            elif q.value != want:
                (rep.viol if is_c(q.value) or kind_(q.value) in ("sym", "enum") else _undec(rep))("error-parts", "JSError", f"{what} is {show(q.value)[:60]}")
    rep.at_least("error parts decided", 15)


def _undec(rep):
    return lambda rule, where, msg: rep.undecided.append(f"{where}: {msg}")


# ------------------------------------------------------------------ exceptions
def check_exceptions(p, rep):
    rep.rule("a Python exception becomes an error named Error whose message is the first line of Python's description, whose stack is the whole "
             "formatted report, and whose cause is the explicit cause converted the same way")
    t, x = sym("t"), sym("c")
    again = p.cls("JSErrorData").methods.get("from_traceback_exception")
    if again is None or p.cls("JSErrorData").methods.get("from_exception") is None:
        rep.undecided.append("the conversion of exceptions is not found")
        return
    ps, ip = script(p, "return JSErrorData.from_exception(c)", {"c": x}, _Stop(p, ["JSErrorData.from_traceback_exception"]), J)
    rep.use(ps, ip)
    for q in ps:
        rep.ob("exception conversions decided")
        v = q.value if q.outcome == "return" else None
        arg = v[2][-1] if _called(v, "from_traceback_exception") and v[2] else None
        if arg is None or not (kind_(arg) == "call" and arg[2] and arg[2][0] == x):
            rep.undecided.append(f"JSErrorData.from_exception gives {show(v)[:80] if v is not None else q.exc_name()}")
    cfg = _Stop(p, ["JSErrorData.from_traceback_exception", "_v8traceback.format_exception_for_v8"], unless=t)
    cfg2 = _Both(p, cfg, t)
    ps, ip = script(p, "return JSErrorData.from_traceback_exception(t)", {"t": t}, cfg2, J)
    rep.use(ps, ip)
    label = "JSErrorData.from_traceback_exception"
    cause = ("attr", t, "__cause__")
    for q in ps:
        rep.ob("exception conversions decided")
        e = q.value
        if q.outcome != "return" or not isinstance(e, Obj):
            rep.viol("exception", label, f"raises {q.exc_name()}") if q.outcome == "raise" else rep.undecided.append(f"{label} gives {show(e)[:60]}")
            continue
        f = {k: ip.value_of(v) if not isinstance(v, tuple) else v for k, v in e.fields.items()}
        has = q.atoms.get(("truthy", cause))
        if has is None and q.doms.get(cause) == frozenset([NONE]):
            has = False
        elif has is None and NONE in q.excl.get(cause, ()):
            has = True
        c = f.get("cause")
        if has is True:
            if not (_called(c, "from_traceback_exception") and c[2][-1] == cause):
                other = _called(c, "from_traceback_exception") or c == NONE or c == cause
                (rep.viol if other else _undec(rep))("exception", label, f"the cause of an exception with an explicit cause is {show(c)[:80]}")
        elif has is False:
            if c != NONE:
                rep.viol("exception", label, f"an exception without an explicit cause gets {show(c)[:80]} as its cause")
        else:
            sub = set(subterms(c)) if c is not None else set()
            if ("attr", t, "__context__") in sub:
                rep.viol("exception", label, "the cause is taken from the context")
            elif c == NONE:
                rep.viol("exception", label, "the explicit cause is dropped")
            else:
                rep.undecided.append(f"{label}: the cause is {show(c)[:60]}")
        m = f.get("message")
        lines = [u for u in subterms(m) if _lines(u, t)]
        if m == NONE:
            if any(lp["entered"] and _lines(lp["iter"], t) for lp in q.loops.values()) or not any(e.kind == "call" and e.f == ("attr", t, "format_exception_only")
                                                                                               for e in q.events):
                rep.viol("exception", label, "the message is dropped")
        elif not lines:
            rep.viol("exception", label, f"the message is {show(m)[:80]}") if "format_exception_only" not in show(m) else rep.undecided.append(
                f"{label}: the message is {show(m)[:60]}")
        elif kind_(_stripped(m)) == "idx" and _lines(_stripped(m)[1], t) and _stripped(m)[2] not in (C(0),):
            rep.viol("exception", label, "the message is not the first line of Python's description")
        s = f.get("stack")
        txt = _stripped(s)
        text = any(_called(u, "format_exception_for_v8") and u[2] and u[2][0] == t for u in subterms(s)) if s is not None else False
        if not text:
            rep.viol("exception", label, f"the stack is {show(s)[:80]}, not the formatted report")
        elif kind_(s) == "call" and kind_(s[1]) == "attr" and s[1][2] in ("strip", "lstrip", "upper", "lower", "title"):
            rep.viol("exception", label, f"the report is changed by {s[1][2]}()")
        elif kind_(txt) in ("idx", "slice"):
            rep.viol("exception", label, "only part of the report is kept as the stack")
        name = f.get("name")
        if not (kind_(name) == "enum" and name[2] == "Error" or name == C("Error")):
            (rep.viol if kind_(name) == "enum" or is_c(name) else _undec(rep))("exception", label, f"the name is {show(name)}")
    rep.at_least("exception conversions decided", 4)
    for fn in (_report_text, _stack_text, _frame_text, _indented):
        try:
            fn(p, rep, t)
        except AnalysisError as e:
            rep.undecided.append(f"{fn.__name__}: {e}")


class _Both(FnConfig):
    def __init__(self, p, inner, t):
        super().__init__()
        self.inner, self.t = inner, t
        self.again = p.func("JSErrorData.from_traceback_exception").qual

    def on_call(self, ip, f, args, kwargs, node, frame):
        if kind_(f) == "fn" and f[1] in self.inner.stop and not (f[1] == self.again and args and ip.value_of(args[-1]) == self.t):
            vals = tuple(ip.value_of(a) for a in args)
            return ("call", ("ext", f[1].rsplit(".", 1)[-1]), vals, tuple((k, ip.value_of(v)) for k, v in kwargs.items()), 0)
        return NotImplemented


def _stripped(t):
    while kind_(t) == "call" and kind_(t[1]) == "attr" and t[1][2] in ("rstrip", "removesuffix"):
        t = t[1][1]
    return t


def _lines(u, t):
    return kind_(u) == "call" and u[1] == ("attr", t, "format_exception_only")


def _report_text(p, rep, t):
    """The report: the exception itself, then each exception it came up in, unless suppressed."""
    rep.rule("the report of an exception lists its own stack once and then that of each exception it arose from, up to one whose context is suppressed")
    sink = ("sym", "sink", "obj")
    ps, ip = script(p, "for x in format_exception_for_v8(t, group_path=()):\n    sink(x)", {"t": t, "sink": sink}, _Stop(p, ["_v8traceback.format_v8_stack"]), TB)
    rep.use(ps, ip)
    label, own, related = "format_exception_for_v8", False, False
    for q in ps:
        rep.ob("report paths decided")
        if q.outcome != "return":
            rep.viol("exception-report", label, f"raises {q.exc_name()}")
            continue
        mine = 0
        for src in looped(q):
            if not _called(src, "format_v8_stack"):
                continue
            x = src[2][0]
            if x == t:
                mine += 1
                own = True
            elif kind_(x) == "attr" and x[2] == "__context__":
                related = True
                if q.atoms.get(("truthy", ("attr", x[1], "__suppress_context__"))) is not False:
                    rep.viol("exception-report", label, "a suppressed context is reported")
            elif kind_(x) == "attr" and x[2] == "__cause__":
                rep.viol("exception-report", label, "causes are repeated in the report")
            else:
                rep.undecided.append(f"{label}: reports {show(x)[:60]}")
                related = True
        rep.require(mine <= 1, "exception-report", label, "the exception itself is reported more than once")
        for a, v in q.atoms.items():
            if a[0] == "truthy" and kind_(a[1]) == "attr" and a[1][2] == "__context__" and kind_(a[1][1]) == "lv" and a[1][1][-1] == "out" and v:
                if q.atoms.get(("truthy", ("attr", a[1][1], "__suppress_context__"))) is not True:
                    rep.viol("exception-report", label, "the list of contexts ends before the last one")
    rep.require(own, "exception-report", label, "the exception itself is not reported")
    rep.require(related, "exception-report", label, "the exceptions it arose from are not reported")


def _stack_text(p, rep, t):
    rep.rule("the stack of an exception starts with Python's description, then has every frame, the most recent call first, then every exception of a group")
    sink = ("sym", "sink", "obj")
    cfg = _Stop(p, ["_v8traceback.format_v8_frame", "_v8traceback.format_exception_for_v8", "_v8traceback.prefix_lines"])
    ps, ip = script(p, "for x in format_v8_stack(t, group_path=g):\n    sink(x)", {"t": t, "g": sym("g"), "sink": sink}, cfg, TB)
    rep.use(ps, ip)
    label, frames, subs, head = "format_v8_stack", False, False, False
    stack = ("attr", t, "stack")
    for q in ps:
        rep.ob("report paths decided")
        if q.outcome != "return":
            rep.viol("exception-report", label, f"raises {q.exc_name()}")
            continue
        seen = []
        for v in sunk(q):
            if kind_(v) == "elem" and kind_(v[1]) == "call" and v[1][1] == ("attr", t, "format_exception_only"):
                head = True
                rep.require(not seen, "exception-report", label, "the description comes after the frames")
            elif _called(v, "format_v8_frame"):
                seen.append("frame")
                frames = True
                src = v[2][0]
                if kind_(src) == "elem" and src[1] == stack:
                    rep.viol("exception-report", label, "frames are listed with the most recent call last")
                elif not (kind_(src) == "elem" and stack in set(subterms(src[1]))):
                    rep.undecided.append(f"{label}: the frame {show(src)[:60]} is not understood")
            elif any(_called(u, "format_exception_for_v8") for u in subterms(v)):
                subs = True
                u = next(u for u in subterms(v) if _called(u, "format_exception_for_v8"))
                if u[2] and u[2][0] == t:
                    rep.viol("exception-report", label, "a member of a group is reported as the group itself")
    rep.require(head, "exception-report", label, "Python's description is missing")
    rep.require(frames, "exception-report", label, "the frames are missing")
    rep.require(subs, "exception-report", label, "the exceptions of a group are missing")


def _frame_text(p, rep, t):
    rep.rule("a frame names its function and each of file, line and column that is known")
    for fn, parts in (("format_v8_frame", ("name", "filename", "lineno", "colno")), ("format_v8_frame_location", ("filename", "lineno", "colno"))):
        ps, ip = script(p, f"return {fn}(t)", {"t": t}, None, TB)
        rep.use(ps, ip)
        for q in ps:
            rep.ob("report paths decided")
            if q.outcome != "return":
                rep.viol("exception-report", fn, f"raises {q.exc_name()}")
                continue
            sub = set(subterms(q.value))
            for a in parts:
                forms = [("attr", t, a)] + [u for u in list(sub) + list(q.doms) + list(q.excl) if _called(u, "builtins.getattr") and u[2][:2] == (t, C(a))]
                if any(f in sub for f in forms):
                    continue
                if any(q.doms.get(f) == frozenset([NONE]) for f in forms):
                    continue
                if a == "colno" and ("hasattr", t, C("colno")) in q.atoms and not q.atoms[("hasattr", t, C("colno"))]:
                    continue
                rep.viol("exception-report", fn, f"the {a} of a frame that has one is left out")


def _indented(p, rep, t):
    """prefix_lines gives every line."""
    sink = ("sym", "sink", "obj")
    ps, ip = script(p, "for x in prefix_lines(a, b):\n    sink(x)", {"a": sym("a"), "b": sym("b"), "sink": sink}, None, TB)
    rep.use(ps, ip)
    for q in ps:
        rep.ob("report paths decided")
        for key, lp in q.loops.items():
            if not lp["entered"]:
                continue
            got = [v for v in sunk(q)]
            if got and not any(kind_(u) == "elem" for v in got for u in subterms(v)):
                rep.viol("exception-report", "prefix_lines", "a line is left out")
            if not got:
                none = any(d == frozenset([NONE]) for u, d in q.doms.items() if kind_(u) in ("elem", "idx"))
                if not none:
                    rep.viol("exception-report", "prefix_lines", "a line is left out")


# ------------------------------------------------------------------ wrapper objects
KINDS = {
    "str": ("kStringObject",), "true": ("kTrueObject",), "false": ("kFalseObject",), "float": ("kNumberObject",),
    "int": ("kNumberObject", "kBigIntObject"),
}
WRAPPERS = ("kTrueObject", "kFalseObject", "kNumberObject", "kBigIntObject", "kStringObject")
BIG = 2 ** 53


def check_wrappers(p, rep):
    rep.rule("a wrapper object is only made with a value its tag can hold exactly, holds that very value, and every value of a supported kind has one")
    tags = p.cls("SerializationTag").qual
    vals = {"str": ("sym", "v", "str"), "true": C(True), "false": C(False), "float": ("call", ("ext", "builtins.float"), (sym("x"),), (), 0), "int": ("sym", "v", "int")}
    label = "JSPrimitiveObject"
    for kind, v in vals.items():
        for tag in (None, *WRAPPERS):
            w = NONE if tag is None else ("enum", tags, tag)
            ps, ip = script(p, "o = JSPrimitiveObject(v, w)\nreturn o.value, o.tag", {"v": v, "w": w}, None, "v8serialize.jstypes.jsprimitiveobject")
            rep.use(ps, ip)
            for q in ps:
                if kind == "int" and q.atoms.get(("isinstance", v, ("cls", "bool"))):
                    continue  # booleans are looked at by themselves
                rep.ob("wrapper objects decided")
                inside = kind != "int" or q.le(C(-BIG), v) and q.le(v, C(BIG))
                outside = kind == "int" and (q.le(C(BIG), v) or q.le(v, C(-BIG)))
                if q.outcome == "return":
                    got = _whole(q)
                    if got is None:
                        rep.undecided.append(f"{label}: gives {show(q.value)}")
                        continue
                    rep.require(got[0] == v, "wrapper", label, f"the value held for a {kind} is {show(got[0])}")
                    t = got[1][2] if kind_(got[1]) == "enum" else None
                    if t is None:
                        rep.undecided.append(f"{label}: the tag is {show(got[1])}")
                        continue
                    if tag is not None and t != tag:
                        rep.viol("wrapper", label, f"asked for {tag} with a {kind} it takes {t}")
                    elif t not in KINDS[kind]:
                        rep.viol("wrapper", label, f"a {kind} can be held as {t}")
                    elif kind == "int" and t == "kNumberObject" and not inside:
                        rep.viol("wrapper", label, "an integer that a Number may not hold exactly can be held as one")
                    elif kind == "int" and t == "kBigIntObject" and tag is None and not outside:
                        rep.viol("wrapper", label, "an integer within the safe range is a BigInt unless asked otherwise")
                elif tag is None:
                    rep.viol("wrapper", label, f"a {kind} is refused with {q.exc_name()}")
                elif tag in KINDS[kind] and not (tag == "kNumberObject" and outside):
                    rep.viol("wrapper", label, f"a {kind} is refused as {tag}")
                else:
                    rep.require(q.exc_name() == "ValueError", "wrapper", label, f"a {kind} as {tag} ends in {q.exc_name()}")
    for other in (NONE, ("sym", "v", "bytes")):
        ps, ip = script(p, "o = JSPrimitiveObject(v)\nreturn o.tag", {"v": other}, None, "v8serialize.jstypes.jsprimitiveobject")
        for q in ps:
            rep.ob("wrapper objects decided")
            rep.require(q.outcome == "raise" and q.exc_name() == "TypeError", "wrapper", label, "a value of an unsupported kind is accepted")
    rep.at_least("wrapper objects decided", 30)


# ------------------------------------------------------------------ error reports
REPORTS = [
    ("v8serialize._errors", "e = DecodeV8SerializeError(m, position=n, data=d)\nreturn e.message, e.position, e.data", ("m", "n", "d")),
    ("v8serialize._errors", "e = UnhandledTagDecodeV8SerializeError(m, tag=c, position=n, data=d)\nreturn e.message, e.tag, e.position, e.data", ("m", "c", "n", "d")),
    ("v8serialize.encode", "e = UnhandledValueEncodeV8SerializeError(m, value=c)\nreturn e.message, e.value", ("m", "c")),
    ("v8serialize.encode", "e = FeatureNotEnabledEncodeV8SerializeError(m, feature_required=c)\nreturn e.message, e.feature_required", ("m", "c")),
]
BASES = [("DecodeV8SerializeError", ("V8SerializeError", "builtins.ValueError")), ("UnhandledTagDecodeV8SerializeError", ("DecodeV8SerializeError",)),
         ("EncodeV8SerializeError", ("V8SerializeError", "builtins.ValueError")), ("UnhandledValueEncodeV8SerializeError", ("EncodeV8SerializeError",)),
         ("FeatureNotEnabledEncodeV8SerializeError", ("EncodeV8SerializeError",)), ("JSRegExpV8SerializeError", ("V8SerializeError",)),
         ("JSError", ("V8SerializeError",)), ("NormalizedKeyError", ("builtins.KeyError",)), ("NodeJsArrayBufferViewHostObjectHandlerDecodeError", ("DecodeV8SerializeError",)),
         ("ObjectReferenceV8SerializeError", ("V8SerializeError",)), ("ByteLengthJSArrayBufferError", ("V8SerializeError", "builtins.ValueError")),
         ("JSArrayBufferError", ("V8SerializeError",))]


def check_reports(p, rep):
    rep.rule("errors hold what they are raised with: decoding errors the input and a position, an unread tag the tag, an unwritten value the value, a "
             "missing feature the feature; and each is of the family it belongs to")
    for mod, src, want in REPORTS:
        cn = src.split("(")[0].split()[-1]
        ps, ip = script(p, src, dict(PARTS), _EqCfg(), mod)
        rep.use(ps, ip)
        for q in ps:
            rep.ob("error reports decided")
            vals = _whole(q)
            if vals is None:
                rep.viol("error-report", cn, f"ends in {q.exc_name() if q.outcome == 'raise' else show(q.value)}")
                continue
            fields = src.split("return ")[1].replace("e.", "").split(", ")
            for f, v, w in zip(fields, vals, want):
                if v == PARTS[w]:
                    continue
                (rep.viol if is_c(v) or kind_(v) in ("sym", "idx") else _undec(rep))("error-report", cn, f"its {f} is {show(v)[:60]}, not the one it is raised with")
    for cn, bases in BASES:
        try:
            c = p.cls(cn)
        except (AnalysisError, KeyError):
            rep.undecided.append(f"{cn} is not found")
            continue
        mro = p.mro(c)
        for b in bases:
            rep.ob("error families decided")
            ok = b in mro or b.rpartition(".")[2] in [k for k in mro if isinstance(k, str)] or any(not isinstance(k, str) and k.name == b for k in mro)
            rep.require(ok, "error-report", cn, f"is not a {b.rpartition('.')[2]}")
    _raised(p, rep)
    rep.at_least("error reports decided", 6)


def _raised(p, rep):
    st, t = sym("st"), sym("t")
    # the stream's own
    from .rules_stream import method
    ps, ip = method(p, "throw", [C("x")])
    rep.use(ps, ip)
    for q in ps:
        rep.ob("error reports decided")
        if q.outcome == "raise" and isinstance(q.value, Obj):
            _carries(rep, q, "ReadableTagStream.throw", q.value.kwargs, {"data": "data", "position": "pos"})
            rep.require(bool(q.value.args) and q.value.args[0] == C("x"), "error-report", "ReadableTagStream.throw", "the message is not the one given")
    ps, ip = script(p, "ctx = DefaultDecodeContext(stream=st, decode_steps=[])\nreturn ctx.decode_object(tag=t)", {"st": st, "t": t}, FnConfig(), "v8serialize.decode")
    rep.use(ps, ip)
    for q in ps:
        rep.ob("error reports decided")
        label = "DefaultDecodeContext.decode_object"
        if q.outcome != "raise" or not isinstance(q.value, Obj):
            rep.viol("error-report", label, "a tag no step reads is not reported")
            continue
        if q.exc_name() != "UnhandledTagDecodeV8SerializeError":
            rep.viol("error-report", label, f"a tag no step reads is reported as {q.exc_name()}")
            continue
        kw = q.value.kwargs
        rep.require(kw.get("tag") == t, "error-report", label, "the tag reported is not the one that was not read")
        _carries(rep, q, label, kw, {"data": "data", "position": "pos"}, st)
    ps, ip = script(p, "ctx = DefaultEncodeContext(stream=st, encode_steps=[])\nctx.encode_object(t)", {"st": st, "t": t}, FnConfig(), "v8serialize.encode")
    rep.use(ps, ip)
    for q in ps:
        rep.ob("error reports decided")
        label = "DefaultEncodeContext.encode_object"
        if q.outcome != "raise" or not isinstance(q.value, Obj):
            rep.viol("error-report", label, "a value no step writes is not reported")
        elif q.exc_name() != "UnhandledValueEncodeV8SerializeError":
            rep.viol("error-report", label, f"a value no step writes is reported as {q.exc_name()}")
        else:
            rep.require(q.value.kwargs.get("value") == t, "error-report", label, "the value reported is not the one that was not written")


def _carries(rep, q, label, kw, want, base=None):
    for k, a in want.items():
        v = kw.get(k)
        if v is None:
            rep.viol("error-report", label, f"the error does not carry its {k}")
        elif base is not None and v != ("attr", base, a):
            (rep.viol if is_c(v) or kind_(v) == "attr" else _undec(rep))("error-report", label, f"the {k} is {show(v)[:60]}")


def check_refusals(p, rep):
    rep.rule("an encoding error for a missing feature names a feature the path established to be disabled")
    from .rules_tables import features_state, writer_runs
    for label, ps, ip in writer_runs(p):
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "raise" or q.exc_name() != "FeatureNotEnabledEncodeV8SerializeError" or not isinstance(q.value, Obj):
                continue
            rep.ob("refusals decided")
            f = q.value.kwargs.get("feature_required", q.value.fields.get("feature_required"))
            if f is None:
                rep.viol("error-report", label, "the error does not name the feature that is missing")
            elif kind_(f) == "enum" and features_state(p, q, f[2]) is not False:
                rep.viol("error-report", label, f"the error names {f[2]}, which is not established to be disabled")
    rep.at_least("refusals decided", 3)


def check_node_reports(p, rep):
    rep.rule("errors of the Node.js host-object reader carry the input and a position the reader had reached")
    from .rules_node import HANDLER, MOD, D, P, _ReadCfg, _stream
    src = f"return {HANDLER}().deserialize_host_object(stream=stream)"
    for code in (0, 1, 9, 255, 2**32 - 1):
        ps, ip = script(p, src, {"stream": _stream(p, "ReadableTagStream", data=D, pos=P)}, _ReadCfg(p, code), MOD)
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "raise" or not isinstance(q.value, Obj):
                continue
            rep.ob("host object errors decided")
            kw = q.value.kwargs
            if not kw:
                continue
            rep.require("data" in kw and "position" in kw, "error-report", "deserialize_host_object", "an error does not carry the input and position")
            d, pos = kw.get("data"), kw.get("position")
            if d is not None and d != D:
                (rep.viol if is_c(d) or kind_(d) in ("idx", "slice") else _undec(rep))("error-report", "deserialize_host_object", f"the data is {show(d)[:60]}")
            if pos is not None and (q.le(("len", D), pos) and not q.le(pos, ("len", D)) or is_c(pos)):
                rep.viol("error-report", "deserialize_host_object", f"the position is {show(pos)[:60]}")
