"""Step chains, type dispatch, integer forms and the independence of calls."""

from __future__ import annotations

from . import v8spec as V
from .fn import FnConfig, fn_paths, frame_of
from .interp import kind_
from .project import AnalysisError
from .terms import C, NONE, DictV, ListV, Obj, is_c, show

STEPS = 3


def _step_no(f):
    """(number, form) when f is one of the symbolic steps or its method."""
    if kind_(f) == "sym" and f[1].startswith("step"):
        return int(f[1][4:]), "callable"
    if kind_(f) == "attr" and kind_(f[1]) == "sym" and f[1][1].startswith("step"):
        return int(f[1][1][4:]), f[2]
    return None


def chain_config(passes, log, nested=None):
    """Each step records its arguments; step i calls next `passes[i]` times with a new value."""
    def call(ip, f, args, kwargs, node, frame):
        s = _step_no(f)
        if s is None:
            return NotImplemented
        i, form = s
        pos = [ip.value_of(a) for a in args]
        ip.emit("step", extra=(i, form, pos, dict(kwargs)))
        got = None
        for k in range(passes[i] if i < len(passes) else 0):
            nxt = kwargs.get("next") if "next" in kwargs else (args[2] if len(args) > 2 else None)
            if nxt is None:
                break
            got = ip.call(nxt, [("sym", f"v{i}.{k}", "obj")], {}, node, frame)
            ip.emit("nexted", extra=(i, k, got))
        if nested is not None and i == nested[0]:
            ctx = kwargs.get("ctx")
            ip.call(ip.getattr_(ctx, nested[1], node, frame), [("sym", "sub", "obj")] if nested[1] == "encode_object" else [],
                    {"tag": ("sym", "sub", "obj")} if nested[1] == "decode_object" else {}, node, frame)
        return ("sym", f"result{i}", "obj")
    return FnConfig(call=call)


SIDES = {
    "encode": ("DefaultEncodeContext", "encode_object", "encode", "UnhandledValueEncodeV8SerializeError", "value"),
    "decode": ("DefaultDecodeContext", "decode_object", "decode", "UnhandledTagDecodeV8SerializeError", "tag"),
}


def chain_paths(p, side, passes, nested=None):
    cn, mn, meth, exc, field = SIDES[side]
    f = p.find_method(p.cls(cn), mn)
    if f is None:
        raise AnalysisError(f"{cn}.{mn} not found")

    def mk(ip):
        from .reader import mk_stream
        from .writer import mk_wstream
        ip.rts = ip.wts = None
        st = mk_stream(ip) if side == "decode" else mk_wstream(ip)
        steps = ip.list_([("sym", f"step{i}", "obj") for i in range(STEPS)])
        kw = {"stream": st}
        kw["decode_steps" if side == "decode" else "encode_steps"] = steps
        ctx = ip.construct(p.cls(cn), [], kw, None, frame_of(ip, f))
        v = ("sym", "item", "obj")
        if side == "decode":
            return [ctx], {"tag": v}
        return [ctx, v], {}
    return fn_paths(p, f, mk, chain_config(passes, None, nested))


def _expected(passes, item):
    """The step calls a chain makes: [(step number, value)] and whether it ends unhandled."""
    out = []

    def go(i, v):
        if i >= STEPS:
            return ("unhandled", v)
        out.append((i, v))
        for k in range(passes[i] if i < len(passes) else 0):
            r = go(i + 1, f"v{i}.{k}")
            if r:
                return r
        return None
    end = go(0, item)
    return out, end


def check_steps(p, rep):
    rep.rule("each value goes to the first step; next hands the value given to it to the following step only, any number of "
             "times; when no step is left the library's unhandled error names the value; a nested value starts over at the first step")
    plans = [[0, 0, 0], [1, 0, 0], [1, 1, 0], [1, 1, 1], [2, 0, 0], [1, 2, 0], [2, 1, 0], [0]]
    for side, (cn, mn, meth, exc, field) in SIDES.items():
        label = f"{cn}.{mn}"
        for plan in plans:
            ps, ip = chain_paths(p, side, plan)
            rep.use(ps, ip)
            want, end = _expected(plan, "item")
            for q in ps:
                _one_chain(p, rep, q, ip, label, side, meth, exc, field, want, end)
        for at in (0, 1, 2):
            plan = [1 if i < at else 0 for i in range(STEPS)]
            ps, ip = chain_paths(p, side, plan, nested=(at, mn))
            rep.use(ps, ip)
            for q in ps:
                got = [(e.extra[0], _name(e.extra[2][0]) if e.extra[2] else None) for e in q.events if e.kind == "step"]
                want = [(i, "item" if i == 0 else f"v{i - 1}.0") for i in range(at + 1)]
                rep.require(got[:at + 2] == want + [(0, "sub")], "step-nested", label,
                            f"a nested value met in step {at} goes to steps {got[at + 1:at + 2]} instead of starting at the first step",
                            "step chains decided")
    rep.at_least("step chains decided", 40)


def _name(t):
    return t[1] if kind_(t) == "sym" else show(t)


def _one_chain(p, rep, q, ip, label, side, meth, exc, field, want, end):
    rep.ob("step chains decided")
    steps = [e.extra for e in q.events if e.kind == "step"]
    got = [(i, _name(pos[0]) if pos else None) for i, form, pos, kw in steps]
    if got != want:
        rep.viol("step-order", label, f"the steps are called with {got} instead of {want}")
        return
    ctx = q.ctx["args"][0]
    for i, form, pos, kw in steps:
        c = q.ip_callable.get(i) if hasattr(q, "ip_callable") else None
        if kw.get("ctx", pos[1] if len(pos) > 1 else None) is not ctx:
            rep.viol("step-context", label, f"step {i} is not given this context")
        truth = next((v for a, v in q.atoms.items() if isinstance(a, tuple) and a[0] == "callable" and a[1] == ("sym", f"step{i}", "obj")), None)
        if truth is not None and (form == "callable") != truth:
            rep.viol("step-form", label, f"a step that is {'a function' if truth else 'an object'} is called as {form}")
        if form not in ("callable", meth):
            rep.viol("step-form", label, f"a step's {form} method is called")
    if end:
        if q.outcome != "raise" or q.exc_name() != exc:
            rep.viol("step-unhandled", label, f"when no step is left the outcome is {q.outcome} {q.exc_name() if q.outcome == 'raise' else show(q.value)}, not {exc}")
        else:
            e = q.value
            v = e.fields.get(field) if isinstance(e, Obj) else None
            if v is None or _name(v) != end[1]:
                rep.viol("step-unhandled", label, f"the unhandled error reports {show(v) if v is not None else 'nothing'} instead of the {field}")
    elif q.outcome != "return":
        rep.viol("step-order", label, f"a handled value ends in {q.exc_name()}")
    elif side == "decode":
        if _name(q.value) != "result0":
            rep.viol("step-result", label, f"{show(q.value)} is returned instead of the first step's result")
    for e in q.events:
        if e.kind == "nexted" and side == "decode":
            i, k, r = e.extra
            if _name(r) != f"result{i + 1}":
                rep.viol("step-result", label, f"next returns {show(r)} instead of the following step's result")


# ------------------------------------------------------------------ merging of equal values
def _tup(*x):
    return ("tup", tuple(x))


def _fs(x):
    return ("fset", frozenset([x]))


MERGE_PAIRS = [
    ("tuples", _tup(C(1)), _tup(C(True))), ("tuples", _tup(C(1)), _tup(C(1.0))), ("tuples", _tup(C(0.0)), _tup(C(-0.0))),
    ("tuples", _tup(C("a"), C(0)), _tup(C("a"), C(False))), ("nested tuples", _tup(_tup(C(1))), _tup(_tup(C(True)))),
    ("frozensets", _fs(C(1)), _fs(C(True))), ("frozensets", _fs(C(0)), _fs(C(0.0))), ("nested frozensets", _fs(_tup(C(1))), _fs(_tup(C(True)))),
    ("frozensets", _fs(C(0.0)), _fs(C(-0.0))), ("floats", C(0.0), C(-0.0)), ("numbers", C(1), C(True)), ("numbers", C(1), C(1.0)),
    ("primitive objects", ("prim", C(1)), ("prim", C(True))), ("primitive objects", ("prim", C(0.0)), ("prim", C(-0.0))),
    ("primitive objects", ("prim", C(1)), ("prim", C(1.0))), ("nested primitive objects", _tup(("prim", C(1))), _tup(("prim", C(True)))),
]


def _build(p, ip, f, t):
    """The value a pair stands for: ("prim", x) is a JSPrimitiveObject holding x."""
    if kind_(t) == "prim":
        return ip.construct(p.cls("JSPrimitiveObject"), [_build(p, ip, f, t[1])], {}, None, frame_of(ip, f))
    if kind_(t) == "tup":
        return ("tup", tuple(_build(p, ip, f, x) for x in t[1]))
    return t


def surely_equal(a, b, top=False):
    """Do two key terms certainly compare equal in Python?"""
    if is_c(a) and is_c(b):
        return a[2] == b[2]
    if kind_(a) in ("tup", "fset") and kind_(a) == kind_(b):
        x, y = list(a[1]), list(b[1])
        return len(x) == len(y) and all(surely_equal(i, j) for i, j in zip(x, y))
    if isinstance(a, Obj) and isinstance(b, Obj) and a is not b:
        return (a.cls is not None and a.cls is b.cls and a.cls.is_dataclass() and "__eq__" not in a.cls.methods
                and a.fields.keys() == b.fields.keys() and all(surely_equal(v, b.fields[k]) for k, v in a.fields.items()))
    if isinstance(a, tuple) and isinstance(b, tuple) and a == b:
        return not any(is_c(x) and isinstance(x[2], float) for x in _all(a))
    return a is b


def _alike(x, y):
    """Are the arguments surely one key of the memo? (It tells arguments of different types apart.)"""
    return len(x) == len(y) and all(surely_equal(i, j) and not (is_c(i) and is_c(j) and i[1] != j[1]) for i, j in zip(x, y))


def _all(t):
    yield t
    for x in t if isinstance(t, (tuple, frozenset)) else ():
        if isinstance(x, (tuple, frozenset)):
            yield from _all(x)
        elif isinstance(x, Obj):
            yield x


def _dedupe(p, value):
    f = p.find_method(p.cls("DefaultEncodeContext"), "deduplicate")
    if f is None:
        raise AnalysisError("DefaultEncodeContext.deduplicate not found")

    def mk(ip):
        from .writer import mk_wstream
        ip.wts = None
        ctx = ip.construct(p.cls("DefaultEncodeContext"), [], {"stream": mk_wstream(ip)}, None, frame_of(ip, f))
        return [ctx, _build(p, ip, f, value)], {}
    cfg = FnConfig()
    return fn_paths(p, f, mk, cfg)


def _memo_calls(q):
    return [e for e in q.events if e.kind == "call" and kind_(e.f) == "memo"]


def check_merge(p, rep):
    rep.rule("equal values are merged only if they are encoded alike: the memo's key tells apart equal values of different "
             "types, at any depth, and the memo gives back the first value it was given")
    label = "DefaultEncodeContext.deduplicate"
    for what, a, b in MERGE_PAIRS:
        ka, kb = set(), set()
        for v, keys in ((a, ka), (b, kb)):
            ps, ip = _dedupe(p, v)
            rep.use(ps, ip)
            for q in ps:
                for e in _memo_calls(q):
                    keys.add((e.args, tuple(e.kw)))
                    fn = e.f[1]
                    if not _first_arg(p, fn):
                        rep.viol("merge-value", label, "the memo does not give back the value it was given")
                if q.outcome == "return" and not _memo_calls(q) and not any(isinstance(x, Obj) for x in (q.value, *_all(q.value))) and q.value != v:
                    rep.undecided.append(f"{label}: merges through {show(q.value)}, which is not understood")
        rep.ob("merges decided")
        for x, kx in ka:
            for y, ky in kb:
                if _alike(x, y) and _alike([v for _, v in kx], [v for _, v in ky]):
                    rep.viol("merge-key", label, f"{what} that are equal but encoded differently, like {_py(a)} and {_py(b)}, are merged")
    rep.at_least("merges decided", 4)


def _py(t):
    if is_c(t):
        return repr(t[2])
    if t[0] == "prim":
        return f"JSPrimitiveObject({_py(t[1])})"
    inner = ", ".join(_py(x) for x in t[1])
    return f"({inner},)" if t[0] == "tup" else f"frozenset({{{inner}}})"


def _first_arg(p, fn):
    import ast
    f = getattr(fn, "func", None) or (p.funcs.get(fn[1]) if kind_(fn) == "fn" else None)
    if f is None:
        return True
    node = f.node
    a = node.args.posonlyargs + node.args.args
    if isinstance(node, ast.Lambda):
        return isinstance(node.body, ast.Name) and a and node.body.id == a[0].arg
    rets = [n for n in ast.walk(node) if isinstance(n, ast.Return)]
    return all(isinstance(r.value, ast.Name) and r.value.id in {x.arg for x in a} for r in rets)


# ------------------------------------------------------------------ the object log
LOG = [
    ("numbers follow the order of registration", """
log = SerializedObjectLog()
i = log.record_reference(x)
j = log.record_reference(y)
k = log.record_reference(z)
return i, j, k
""", ("c", "(0, 1, 2)")),
    ("registering an object again takes a new number", """
log = SerializedObjectLog()
i = log.record_reference(x)
j = log.record_reference(x)
k = log.record_reference(y)
return i, j, k
""", ("c", "(0, 1, 2)")),
    ("a number gives back the object registered under it", """
log = SerializedObjectLog()
i = log.record_reference(x)
j = log.record_reference(y)
return log.get_object(i) is x, log.get_object(j) is y, log.get_object(0) is x, log.get_object(1) is y
""", "all"),
    ("a registered object is found under its number", """
log = SerializedObjectLog()
i = log.record_reference(x)
j = log.record_reference(y)
return x in log, y in log, log.get_serialized_id(x) == i, log.get_serialized_id(y) == j
""", "all"),
    ("an object never registered is not found", """
log = SerializedObjectLog()
i = log.record_reference(x)
return (z in log) == False
""", "fresh"),
    ("an object never registered has no number", """
log = SerializedObjectLog()
i = log.record_reference(x)
return log.get_serialized_id(z)
""", "ObjectNotSerializedV8SerializeError"),
    ("a number never registered is refused", """
log = SerializedObjectLog()
i = log.record_reference(x)
return log.get_object(1)
""", "SerializedIdOutOfRangeV8SerializeError"),
    ("replacing the latest registration keeps its number", """
log = SerializedObjectLog()
i = log.record_reference(x)
j = log.record_reference(y)
log.replace_reference(j, z)
return log.get_object(1) is z, log.get_object(0) is x
""", "all"),
    ("an acyclic registration takes the next number and holds its object afterwards", """
log = SerializedObjectLog()
i = log.record_reference(x)
with log.record_acyclic_reference(y) as j:
    k = log.record_reference(z)
m = log.record_reference(w)
return j == 1, k == 2, m == 3, log.get_serialized_id(y) == 1, log.get_object(1).get_value() is y, log.get_object(2) is z
""", "all"),
    ("an object cannot be referenced while its acyclic registration is open", """
log = SerializedObjectLog()
with log.record_acyclic_reference(y) as j:
    log.get_serialized_id(y)
return None
""", "IllegalCyclicReferenceV8SerializeError"),
    ("an object whose acyclic registration is open is refused even when others were registered since", """
log = SerializedObjectLog()
with log.record_acyclic_reference(y) as j:
    k = log.record_reference(z)
    log.get_serialized_id(y)
return None
""", "IllegalCyclicReferenceV8SerializeError"),
    ("a number far beyond the last registration is refused", """
log = SerializedObjectLog()
i = log.record_reference(x)
return log.get_object(2147483648)
""", "SerializedIdOutOfRangeV8SerializeError"),
    ("the largest number is refused", """
log = SerializedObjectLog()
i = log.record_reference(x)
j = log.record_reference(y)
return log.get_object(4294967295)
""", "SerializedIdOutOfRangeV8SerializeError"),
    ("the first unused number is refused", """
log = SerializedObjectLog()
i = log.record_reference(x)
j = log.record_reference(y)
return log.get_object(2)
""", "SerializedIdOutOfRangeV8SerializeError"),
    ("a failure inside an acyclic registration is passed on", """
log = SerializedObjectLog()
with log.record_acyclic_reference(y) as j:
    raise ZeroDivisionError()
return None
""", "ZeroDivisionError"),
]


def check_log(p, rep):
    rep.rule("the object log numbers objects 0, 1, 2, … in the order they are registered, finds them by identity, gives back the "
             "very objects registered, keeps them alive, and refuses numbers and objects it does not hold")
    for what, src, want in LOG:
        ps, ip = _log_paths(p, src)
        rep.use(ps, ip)
        n = 0
        for q in ps:
            if _sentinel_path(q):
                continue
            n += 1
            rep.ob("object log scenarios decided")
            if isinstance(want, tuple):
                if q.outcome != "return" or show(q.value) != want[1]:
                    rep.viol("log", "SerializedObjectLog", f"{what}: {_outcome(q)} instead of {want[1]}")
            elif want in ("all", "fresh"):
                vals = list(q.value[1]) if q.outcome == "return" and kind_(q.value) == "tup" else [q.value]
                ok = q.outcome == "return"
                for v in vals:
                    if v == C(True):
                        continue
                    if want == "fresh" and not is_c(v):
                        continue
                    ok = False
                rep.require(ok, "log", "SerializedObjectLog", f"{what}: it does not ({_outcome(q)})")
            elif q.outcome != "raise" or q.exc_name() != want:
                rep.viol("log", "SerializedObjectLog", f"{what}: {_outcome(q)} instead of {want}")
        if not n:
            rep.undecided.append(f"SerializedObjectLog: no path of the scenario '{what}'")
    for what, src, names in LOG_KEEPS:
        ps, ip = _log_paths(p, src)
        rep.use(ps, ip)
        for q in ps:
            if _sentinel_path(q):
                continue
            rep.ob("object log scenarios decided")
            held = _held(q.value) if q.outcome == "return" else set()
            for n in names:
                rep.require(n in held, "log-alive", "SerializedObjectLog",
                            f"{what}: the object is not kept alive, so its identity can be taken over by another object")
    rep.at_least("object log scenarios decided", 10)


LOG_KEEPS = [
    ("a registered object", """
log = SerializedObjectLog()
log.record_reference(x)
log.record_reference(y)
return log
""", "xy"),
    ("an acyclic registration", """
log = SerializedObjectLog()
with log.record_acyclic_reference(y) as j:
    pass
return log
""", "y"),
]


def _held(x):
    """Symbols reachable from an abstract object other than through an id() of them."""
    out, seen, todo = set(), set(), [x]
    while todo:
        v = todo.pop()
        if id(v) in seen:
            continue
        seen.add(id(v))
        if kind_(v) == "sym":
            out.add(v[1])
        elif isinstance(v, Obj):
            todo += list(v.fields.values())
        elif isinstance(v, ListV):
            todo += [y for y in (v.items or ())]
        elif isinstance(v, DictV):
            todo += [y for y in (*v.items.values(), *v.items) if not _is_id(y)]
            if v.rest is not None:
                todo.append(v.rest)
        elif isinstance(v, tuple) and v and v[0] in ("tup", "ntup", "proxy"):
            todo += [y for part in v[1:] if isinstance(part, tuple) for y in part]
    return out


class _LogConfig(FnConfig):
    """Different live objects have different ids."""

    def on_index(self, ip, base, key, node, frame):
        if isinstance(base, DictV) and base.rest is None and key not in base.items and _is_id(key) and all(
                _is_id(k) and k != key for k in base.items):
            ip.raise_("KeyError", node=node)


def _is_id(k):
    return kind_(k) == "call" and k[1] == ("ext", "builtins.id") and kind_(k[2][0]) == "sym"


def _log_paths(p, src):
    from .fn import script
    return script(p, src, {n: ("sym", n, "obj") for n in "xyzw"}, _LogConfig(), module="v8serialize._references")


def _outcome(q):
    return f"raises {q.exc_name()}" if q.outcome == "raise" else f"gives {show(q.value)}"


def _sentinel_path(q):
    """The caller's object is neither the private sentinel nor a forward reference, and distinct objects are distinct."""
    for a, v in q.atoms.items():
        if not v or not isinstance(a, tuple):
            continue
        if a[0] == "isinstance" and "ForwardReference" in show(a):
            return True
        if a[0] == "is" and kind_(a[1]) == "sym" and a[1] != a[2]:
            return True
        if a[0] in ("==", "eq") and "id(" in show(a):
            return True
    return False
