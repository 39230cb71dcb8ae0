"""Comparing and printing values that contain themselves; the state these leave behind."""

from __future__ import annotations

from .fn import FnConfig, script
from .interp import kind_
from .project import Class
from .terms import C, FALSE, NONE, TRUE, Obj, SetV, is_c, show

EQ = "v8serialize._recursive_eq"
RP = "v8serialize.jstypes._repr"
INNER = ("sym", "inner", "obj")
A, B = ("sym", "a", "obj"), ("sym", "b", "obj")
EXC, BASE = ("ext", "builtins.Exception"), ("ext", "builtins.BaseException")
WRAP = "try:\n    {}\nexcept (Exception, BaseException):\n    raise\n"
THREADS = ("get_ident", "current_thread", "get_native_id")
CYCLIC = ("JSObject", "JSArray", "JSMap", "JSSet", "JSError", "JSErrorData")


def site_of(x):
    return f"{x.module.relpath}:{x.node.lineno} {x.qual.rsplit('.', 1)[-1]}"


def within(t):
    """All terms within t, those inside call arguments and tuples included."""
    stack, seen = [t], []
    while stack:
        x = stack.pop()
        seen.append(x)
        if isinstance(x, tuple):
            stack.extend(y for y in x if isinstance(y, (tuple, Obj, SetV)))
    return seen


def key_of(key, x):
    """Whether key identifies the object x."""
    return ("call", ("ext", "builtins.id"), (x,)) in [y[:3] for y in within(key) if kind_(y) == "call"]


def per_thread(key):
    return any(kind_(y) == "call" and kind_(y[1]) == "ext" and y[1][1].rsplit(".", 1)[-1] in THREADS for y in within(key))


def by_thread(t):
    return any(isinstance(y, tuple) and len(y) > 1 and isinstance(y[1], str) and
               (y[1].startswith(("threading.local", "contextvars", "_thread._local"))) for y in within(t))


def changes(q):
    """('add'|'del', set, key) in order; None for a change that is not understood."""
    out = []
    for i, e in enumerate(q.events):
        if e.kind == "call" and kind_(e.f) in ("cmeth", "attr") and isinstance(e.f[1], SetV):
            n = e.f[2]
            if n == "add":
                out.append((i, "add", e.f[1], e.args[0]))
            elif n in ("remove", "discard"):
                out.append((i, "del", e.f[1], e.args[0]))
            elif n in ("update", "difference_update", "__ior__", "__isub__") and e.args:
                for a in e.args:
                    if isinstance(a, SetV) and a.items is not None:
                        ks = list(a.items)
                    elif kind_(a) in ("tup", "fset"):
                        ks = list(a[1])
                    else:
                        return None
                    out += [(i, "add" if n in ("update", "__ior__") else "del", e.f[1], k) for k in ks]
            elif n in ("clear", "pop"):
                return None
    return out


def member_atoms(q):
    """(key, set) -> whether it was present when tested, before any change"""
    return {(a[1], id(a[2])): v for a, v in q.atoms.items() if a[0] == "in" and isinstance(a[2], SetV)}


class _EqCfg(FnConfig):
    def may_raise(self, ip, f):
        return [EXC, BASE] if f == INNER else False


def _guarded(ip):
    o = ip.new_obj(None)
    o.symbolic, o.name = True, "cls"
    o.fields["__eq__"] = INNER
    return o


def check_recursive_eq(p, rep):
    if EQ not in p.modules or f"{EQ}.recursive_eq" not in p.funcs:
        rep.undecided.append("recursive_eq: not found; how comparison of cyclic values ends is not understood")
        return
    f = p.funcs[f"{EQ}.recursive_eq"]
    ps, ip = script(p, WRAP.format("made = recursive_eq(cls)\n    return made.__eq__(a, b)"), {"cls": _guarded, "a": A, "b": B}, _EqCfg(), EQ)
    site = site_of(f)
    rep.use(ps, ip)
    for q in ps:
        rep.ob("guarded_comparisons_decided")
        same = q.atoms.get(("is", A, B), q.atoms.get(("is", B, A)))
        calls = [i for i, e in enumerate(q.events) if e.kind == "call" and e.f == INNER]
        ch, mem = changes(q), member_atoms(q)
        if ch is None:
            rep.undecided.append("recursive_eq: how it records running comparisons is not understood")
            continue
        if not calls:
            if q.outcome == "raise":
                rep.viol("recursive-eq", site, f"raises {q.exc_name()} without comparing")
            elif same is True:
                if q.value != TRUE:
                    _bad(rep, site, q.value, "comparing an object to itself is not True")
            else:
                run = [any(v for (k, _), v in mem.items() if key_of(k, x)) for x in (A, B)]
                known = [any(key_of(k, x) for (k, _), v in mem.items()) for x in (A, B)]
                if not any(known):
                    rep.undecided.append("recursive_eq: when it stops is not understood")
                elif not any(run):
                    rep.viol("recursive-eq", site, "answers without comparing objects neither of which is being compared")
                elif q.value not in (TRUE, FALSE) or not all(known) and q.value == TRUE:
                    _bad(rep, site, q.value, "an object being compared already meets one that is not, but is not unequal to it")
                elif all(known) and (q.value == TRUE) != all(run):
                    rep.viol("recursive-eq", site, "two objects both being compared already are not equal" if all(run) else
                                  "an object being compared already equals one that is not")
                elif ch:
                    rep.viol("recursive-eq", site, "changes the running comparisons although it starts none")
            continue
        if len(calls) > 1:
            rep.viol("recursive-eq", site, "compares twice")
            continue
        i, e = calls[0], q.events[calls[0]]
        if tuple(e.args) != (A, B):
            rep.viol("recursive-eq", site, f"compares ({', '.join(show(x) for x in e.args)}) instead of the two objects")
        before = [c for c in ch if c[0] < i]
        keys = {}
        for x, n in ((A, "left"), (B, "right")):
            ks = [(c[2], c[3]) for c in before if c[1] == "add" and key_of(c[3], x)]
            if not ks:
                if any(isinstance(y, SetV) for ev in q.events for y in within(ev.f)) or not ch:
                    rep.viol("recursive-eq", site, f"compares without recording that the {n} object is being compared, so a "
                                  "cycle through it is not noticed")
                else:
                    rep.undecided.append("recursive_eq: how it records running comparisons is not understood")
                continue
            s, k = ks[0]
            keys[n] = (s, k)
            if not per_thread(k) and not by_thread(k) and not by_thread(s):
                rep.viol("recursive-eq", site, f"the record of the {n} object's comparison is shared with other threads")
            if mem.get((k, id(s))) is not False:
                rep.viol("recursive-eq", site, f"compares although the {n} object may be being compared already")
        left = list(before)
        after = [c for c in ch if c[0] > i]
        for c in [c for c in ch if c[1] == "add"]:
            if not any(d[1] == "del" and d[2] is c[2] and d[3] == c[3] for d in after):
                rep.viol("recursive-eq", site, "leaves an object marked as being compared after " +
                              ("the comparison ended" if q.outcome == "return" else "the comparison raised"))
        for d in [c for c in ch if c[1] == "del"]:
            if not any(c[1] == "add" and c[2] is d[2] and c[3] == d[3] for c in left):
                rep.viol("recursive-eq", site, "removes the mark of a comparison it did not start")
            elif d[0] < i:
                rep.viol("recursive-eq", site, "removes the mark before comparing")
        if q.outcome == "return" and not (kind_(q.value) == "call" and q.value[1] == INNER):
            _bad(rep, site, q.value, "the result of the comparison is not returned")
    ps, ip = script(p, "made = recursive_eq(cls)\nreturn made.__eq__(a, a)", {"cls": _guarded, "a": A}, _EqCfg(), EQ)
    rep.use(ps, ip)
    for q in ps:
        ch, gone = changes(q) or [], set()
        for i, what, s, k in ch:
            if what == "del" and (id(s), k) in gone and q.events[i].f[2] == "remove":
                rep.viol("recursive-eq", site, "comparing an object with itself fails")
            (gone.add if what == "del" else gone.discard)((id(s), k))
    _guards(p, rep)


def _bad(rep, site, v, msg):
    if is_c(v):
        rep.viol("recursive-eq", site, msg)
    else:
        rep.undecided.append(f"recursive_eq: result {show(v)[:60]} is not understood")


def _guards(p, rep):
    """Every class that can contain itself compares through the guard."""
    for c in sorted(p.classes.values(), key=lambda c: c.qual):
        if not any(isinstance(k, Class) and k.name in CYCLIC for k in p.mro(c)):
            continue
        rep.ob("comparison_methods_decided")
        for k in p.mro(c):
            if not isinstance(k, Class):
                continue
            decos = [_deco(p, k, d) for d in k.node.decorator_list]
            guard = [i for i, d in enumerate(decos) if d == f"{EQ}.recursive_eq"]
            own = "__eq__" in k.methods or "__eq__" in k.attrs
            data = [i for i, d in enumerate(decos) if d == "dataclasses.dataclass"]
            makes = bool(data) and not own and not _eq_off(k, data)
            if not own and not makes and not guard:
                continue
            if guard and makes and guard[0] > data[0]:
                rep.viol("recursive-eq", site_of(k), f"{k.name} wraps the inherited comparison, and not the one @dataclass "
                              "generates")
            elif not guard:
                m = k.methods.get("__eq__")
                if m is not None and any(_calls_guard(p, k, d) for d in m.node.decorator_list):
                    rep.undecided.append(f"{k.name}.__eq__: decorated in a way that is not understood")
                else:
                    rep.viol("recursive-eq", site_of(m or k), f"the comparison of {c.name} (defined by {k.name}) does not "
                                  "end for values that contain themselves")
            break


def _deco(p, k, d):
    import ast
    if isinstance(d, ast.Call):
        d = d.func
    r = p.resolve_expr(k.module, d)
    return r[1].qual if r[0] in ("func", "class") else r[1] if r[0] == "ext" else None


def _calls_guard(p, k, d):
    return _deco(p, k, d) is not None


def _eq_off(k, data):
    import ast
    d = k.node.decorator_list[data[0]]
    return isinstance(d, ast.Call) and any(w.arg == "eq" and isinstance(w.value, ast.Constant) and w.value.value is False
                                           for w in d.keywords)


# --------------------------------------------------------------------------- printing


class _RpCfg(FnConfig):
    max_paths = 20000

    def __init__(self, names=()):
        super().__init__()
        self.names = names

    def may_raise(self, ip, f):
        return [EXC, BASE] if f == ("sym", "body", "obj") or _is_super(f, "repr1") else False

    def opaque_func(self, f):
        return f.qual in self.names


def _is_super(f, name):
    """Whether f is the method of the base class outside the package."""
    return kind_(f) == "attr" and f[2] == name and (kind_(f[1]) == "super" or isinstance(f[1], Obj) and f[1].name == "printer")


def _printer(p):
    def mk(ip):
        o = ip.new_obj(p.cls("JSRepr"))
        o.symbolic, o.name = True, "printer"
        return o
    return mk


def check_recursive_repr(p, rep):
    c = p.cls("JSRepr")
    m = p.find_method(c, "repr1")
    if m is None or isinstance(m, str):
        rep.viol("repr", site_of(c), "printing a value that contains itself does not end")
        return
    site = site_of(m)
    X, L = ("sym", "x", "obj"), ("sym", "level", "int")
    ps, ip = script(p, WRAP.format("return printer.repr1(x, level)"), {"printer": _printer(p), "x": X, "level": L}, _RpCfg(), RP)
    rep.use(ps, ip)
    for q in ps:
        rep.ob("printing_paths_decided")
        calls = [i for i, e in enumerate(q.events) if e.kind == "call" and _is_super(e.f, "repr1")]
        ch, mem = changes(q), member_atoms(q)
        if ch is None:
            rep.undecided.append("repr1: how it records what is being printed is not understood")
            continue
        run = [v for (k, _), v in mem.items() if key_of(k, X)]
        if not calls:
            if q.outcome == "raise":
                rep.viol("repr", site, f"raises {q.exc_name()} without printing")
                continue
            low = q.le(L, C(0))
            if low is not True and True not in run:
                if not run and not all(a[0] in ("le0", "eq0") for a in q.atoms):
                    rep.undecided.append("repr1: when it stops is not understood")
                else:
                    rep.viol("repr", site, "does not print an object that is not being printed yet, at a level above zero")
            elif kind_(q.value) == "call":
                rep.undecided.append("repr1: what stands for the object is not understood")
            continue
        i = calls[0]
        marks = [c_ for c_ in ch if c_[1] == "add" and c_[0] < i and key_of(c_[3], X)]
        if not marks:
            if ch or not mem:
                rep.viol("repr", site, "prints an object without recording that it is being printed")
            else:
                rep.viol("repr", site, "prints an object without recording that it is being printed, so a cycle through it is not noticed")
            continue
        s, k = marks[0][2], marks[0][3]
        if not per_thread(k) and not by_thread(k) and not by_thread(s):
            rep.viol("repr", site, "what one thread is printing is left out when another thread prints it")
        if mem.get((k, id(s))) is not False:
            rep.viol("repr", site, "prints an object that may be being printed already")
        if not any(d[1] == "del" and d[0] > i and d[2] is s and d[3] == k for d in ch):
            rep.viol("repr", site, "leaves an object marked as being printed after " +
                          ("it was printed" if q.outcome == "return" else "printing it raised"))
    _printed(p, rep, c)


def _printed(p, rep, c):
    """Every class that prints itself with js_repr is printed by a method for it, also as the base of another class."""
    names = {f.qual for k in p.mro(c) if isinstance(k, Class) for n, f in k.methods.items() if n.startswith("repr_") and n != "repr_instance"}
    for k in sorted(p.classes.values(), key=lambda k: k.qual):
        m = p.find_method(k, "__repr__")
        if m is None or isinstance(m, str) or getattr(m, "module", None) is None or k.name.startswith("_"):
            continue

        def mk(ip, k=k):
            o = ip.new_obj(k)
            o.symbolic, o.name = True, "x"
            return o
        ps, ip = script(p, "return x.__repr__()", {"x": mk}, _RpCfg(names), k.module.name)
        via = [q for q in ps if q.outcome == "return" and any(
            e.kind == "call" and isinstance(e.f, tuple) and e.f[-1] == "repr" and "active" in show(e.f) for e in q.events)]
        if not via:
            if any(isinstance(b, Class) and b.name in CYCLIC for b in p.mro(k)):
                formats = any(kind_(y) == "fstr" or kind_(y) == "call" and y[1] in (("ext", "builtins.repr"), ("ext", "builtins.str"))
                              for q in ps if q.outcome == "return" for y in within(q.value))
                if k.is_dataclass() and "__repr__" not in k.methods:
                    pass
                elif formats and not m.decos:
                    rep.viol("repr", site_of(m), f"printing a {k.name} that contains itself does not end")
                else:
                    rep.undecided.append(f"{k.name}.__repr__: how it ends for values that contain themselves is not understood")
            continue
        rep.ob("printed_classes_decided")
        site = site_of(m)
        if not any(f"repr_{k.name}" in b.methods for b in p.mro(c) if isinstance(b, Class)):
            rep.viol("repr", site, f"the printer has no method for {k.name}, so it is always printed as if it contained itself")
            continue
        ps, ip = script(p, "return printer.repr_instance(x, level)", {"printer": _printer(p), "x": mk, "level": ("sym", "level", "int")},
                       _RpCfg(names), RP)
        for q in ps:
            if q.outcome != "return":
                continue
            f = q.value[1] if kind_(q.value) == "call" else None
            if f is not None and _is_super(f, "repr_instance"):
                rep.viol("repr", site_of(c), f"objects of a class derived from {k.name} are always printed as if they contained "
                              "themselves")
            elif not (kind_(f) == "fn" and f[1] in names):
                rep.undecided.append(f"repr_instance: {show(q.value)[:70]} is not understood for a class derived from {k.name}")


def check_repr_settings(p, rep):
    if f"{RP}.js_repr_settings" not in p.funcs:
        rep.undecided.append("js_repr_settings: not found")
        return
    f = p.funcs[f"{RP}.js_repr_settings"]
    site = site_of(f)
    start = ("sym", f"{RP}.active_js_repr", "obj")
    body = ("sym", "body", "obj")
    force = ("sym", "force", "bool")
    for src, given in (("with js_repr_settings(printer, force_restore=force) as got:\n    body(got, active_js_repr)\nreturn active_js_repr", True),
                       ("global active_js_repr\nwith js_repr_settings(printer, force_restore=force) as got:\n    active_js_repr = body(got, active_js_repr)\n"
                        "return active_js_repr", True),
                       ("with js_repr_settings(force_restore=force, maxjsobject=n, maxjsarray=m) as got:\n    body(got, active_js_repr)\nreturn active_js_repr",
                        False)):
        ps, ip = script(p, src, {"printer": _printer(p), "force": force, "body": body, "n": ("sym", "n", "int"), "m": NONE}, _RpCfg(), RP)
        rep.use(ps, ip)
        for q in ps:
            if q.outcome == "raise" and q.exc_name() == "TypeError":
                continue
            rep.ob("settings_paths_decided")
            calls = [e for e in q.events if e.kind == "call" and e.f == body]
            sets = [e for e in q.events if e.kind == "setglobal" and e.f == ("sym", "active_js_repr")]
            if not calls:
                rep.undecided.append("js_repr_settings: the block is not reached")
                continue
            got, active = calls[0].args[0], calls[0].args[1]
            if got is not active and got != active:
                rep.viol("repr-settings", site, "the settings given to the block are not the active ones")
            if given and not (isinstance(got, Obj) and got.name == "printer"):
                rep.viol("repr-settings", site, "the settings given are not the ones in force in the block")
            if not given:
                if not isinstance(got, Obj):
                    rep.undecided.append("js_repr_settings: how the settings are made is not understood")
                else:
                    want = {"maxjsobject": ("sym", "n", "int"), "maxjsarray": ("attr", start, "maxjsarray"),
                            "fillvalue": ("attr", start, "fillvalue"), "indent": ("attr", start, "indent")}
                    for n, v in want.items():
                        if got.fields.get(n) != v:
                            if any(x == start for x in within(got.fields.get(n) or NONE)) and kind_(got.fields.get(n)) != "attr":
                                rep.undecided.append(f"js_repr_settings: value of {n} is not understood")
                            else:
                                rep.viol("repr-settings", site, f"{n} in the block is neither the value asked for nor the one in force outside")
            if not sets:
                rep.undecided.append("js_repr_settings: how the settings are activated is not understood")
                continue
            last = sets[-1].args[0]
            if "global" not in src or q.outcome == "raise":
                ok = last == start
            else:
                now = ("call", body)
                ours = [v for a, v in q.atoms.items() if a[0] == "is" and any(kind_(y) == "call" and y[:2] == now for y in a[1:])]
                forced = _forced(q, force)
                if not ours and forced is None and any(y == force or kind_(y) == "call" and y[:2] == now for a in q.atoms for y in within(a)):
                    rep.undecided.append("js_repr_settings: when the settings are restored is not understood")
                    continue
                ok = last == start if ours == [True] or forced is True else last != start and ours == [False] and forced is False
            if not ok:
                rep.viol("repr-settings", site, ("the settings in force before the block are not restored after it" +
                                                 (" raises" if q.outcome == "raise" else "")) if last != start else
                              "settings activated by someone else are replaced at the end of the block without being asked to")


def _forced(q, force):
    for a, v in q.atoms.items():
        if a[0] == "truthy" and a[1] == force:
            return v
        if a == force or a[0] == "eq" and force in a[1:]:
            return v
    d = q.doms.get(force)
    if d is not None and len(d) == 1:
        return list(d)[0] in (True, TRUE)
    return None
