"""Space and work: nothing is made or repeated merely because a number in the input says so."""

from __future__ import annotations

from .fn import FnConfig, script
from .interp import kind_
from .reader import ReaderConfig, decode_paths, seq, serialization_tags
from .terms import C, NONE, ListV, Obj, is_c, lin_add, lin_of, show, subterms
from .writer import WriterConfig, write_method_names, write_paths

SMALL = 4096


def number(t):
    return kind_(t) in ("lin", "op") or kind_(t) == "sym" and t[2:3] in (("nat",), ("int",))


DATA = ("sym", "data", "bytes")
OUT = ("sym", "out", "bytes")


class _Sinks:
    """Records what is made in sizes that are not constant, and what is copied or sorted."""

    def on_alloc(self, ip, what, size, node, frame):
        if kind_(size) == "c":
            return
        ip.emit("alloc", extra=(what, size, self.bounded(ip, size)), node=node, frame=frame)

    def bounded(self, ip, size):
        return ip.le0(lin_add(size, C(SMALL), -1)) is True

    def on_call(self, ip, f, args, kwargs, node, frame):
        if kind_(f) == "ext" and args:
            n = f[1].rsplit(".", 1)[-1]
            if n in ("bytes", "bytearray") and len(args) == 1 and number(ip.value_of(args[0])):
                self.on_alloc(ip, n, ip.value_of(args[0]), node, frame)
        return super().on_call(ip, f, args, kwargs, node, frame)


class _ReadSinks(_Sinks, ReaderConfig):
    def opaque_func(self, f):
        """Setting one entry of an object is judged for any index by check_steps."""
        return f.cls is not None and f.name in ("__setitem__", "__getitem__") and f.cls.name in ("JSObject", "JSArray", "JSMap", "JSSet") \
            or super().opaque_func(f)

    def on_index(self, ip, base, key, node, frame):
        if kind_(key) == "slice" and base == DATA:
            ip.emit("cut", extra=key, node=node, frame=frame)
        return super().on_index(ip, base, key, node, frame)

    def on_call(self, ip, f, args, kwargs, node, frame):
        n = f[1].rsplit(".", 1)[-1] if kind_(f) == "ext" else None
        if n in COPIES and any(ip.value_of(a) == DATA for a in args):
            ip.emit("cut", extra=None, node=node, frame=frame)
        return super().on_call(ip, f, args, kwargs, node, frame)

    def bounded(self, ip, size):
        if super().bounded(ip, size):
            return True
        d = ip.x_len([ip.rts.fields["data"]], {}, None, None)
        return ip.le0(lin_add(size, d, -1)) is True


def where(e):
    return f"{e.func.module.relpath}:{getattr(e.node, 'lineno', '?')} in {e.func.qual}" if e.func is not None else "?"


def from_input(t):
    return any(kind_(s) == "sym" and str(s[1]).startswith("varint") for s in subterms(t))


def by_ratio(q, size, used=None):
    """On the path, the size is at most a constant times a number of things that are there (used: how it shows)."""
    sc, _ = lin_of(size)
    grow = {s for t in sc for s in subterms(t) if kind_(s) == "sym"}
    for a, v in q.atoms.items():
        ratio = None
        if a[0] == "le" and v and kind_(a[1]) == "c" and kind_(a[2]) == "op" and a[2][1] == "/":
            ratio, (num, den) = a[1][2], a[2][2]
        elif a[0] == "le" and not v and kind_(a[2]) == "c" and kind_(a[1]) == "op" and a[1][1] == "/":
            ratio, (num, den) = a[2][2], a[1][2]
        if ratio is None or not isinstance(ratio, (int, float)) or ratio < 1 / 64:
            continue
        if any(s in grow for s in subterms(num)):
            continue
        if used is not None and any(c > 0 and (show(t) != used or c > SMALL) for t, c in lin_of(num)[0].items()):
            continue
        # size <= den + a constant
        dc, dk = lin_of(den)
        _sc, sk = lin_of(size)
        if all(sc.get(t, 0) <= c for t, c in dc.items() if c > 0) and all(t in dc or c < 0 for t, c in sc.items()) and sk - dk <= SMALL:
            return True
    return False


def check_reader(p, rep):
    rep.rule("reading makes nothing of a size that is only a number in the input, and each repetition consumes input")
    for tag in serialization_tags(p):
        ps, ip = decode_paths(p, tag, cfg_cls=_ReadSinks)
        rep.use(ps, ip)
        progress(rep, tag, ps)
        made(rep, tag, ps)
        # with the types that are used unless told otherwise
        ps, ip = decode_paths(p, tag, cfg_cls=_ReadSinks, overrides=False)
        rep.use(ps, ip)
        made(rep, tag, ps)
        progress(rep, tag, ps, counted=True)
    rep.at_least("reading paths examined", 100)
    rep.at_least("repetitions examined", 8)
    rep.at_least("copies of input examined", 6)
    rep.at_least("numbers read examined", 30)


def progress(rep, tag, ps, counted=False):
    """counted: only repetitions a number in the input counts."""
    for q in ps:
        stack = []
        for k in seq(q):
            if k.kind == "LOOP":
                stack.append([k, 0])
            elif k.kind == "ENDLOOP" and stack:
                lp, n = stack.pop()
                if stack:
                    stack[-1][1] += n
                if counted and not from_input(q.loops.get(lp.facts, {}).get("iter")):
                    continue
                if lp.b == C("in"):
                    rep.ob("repetitions examined")
                    if n == 0 and q.outcome == "return":
                        rep.viol("work", lp.loc(), f"an iteration in reading {tag} consumes no input")
            elif stack and k.kind in ("VARINT", "NEST", "ADV", "TAG") and not (k.kind == "TAG" and k.b == C(False)):
                stack[-1][1] += 1


def made(rep, tag, ps):
    for q in ps:
        rep.ob("reading paths examined")
        for k in seq(q):
            if k.kind == "VARINT":
                rep.ob("numbers read examined")
                if k.b in (NONE, C(0), C(False)):
                    # each byte of a number without a limit makes all of it again
                    rep.viol("work", k.loc(), f"reading {tag} reads a number of any length")
        for e in q.events:
            if e.kind == "cut" and q.outcome == "return":
                rep.ob("copies of input examined")
                if e.extra is None or e.extra[2] == NONE or any(t == ("len", DATA) for t in lin_of(e.extra[2])[0]):
                    rep.viol("work", where(e), f"reading {tag} copies all of the input that follows")
            if e.kind == "call" and kind_(e.f) == "attr" and e.f[2] == "resize" and any(from_input(x) for x in e.args or ()):
                rep.viol("space", where(e), f"reading {tag} resizes something to a number in the input")
            if e.kind != "alloc":
                continue
            what, size, ok = e.extra
            if not from_input(size):
                continue
            rep.ob("sizes from the input examined")
            if not ok and not by_ratio(q, size):
                rep.viol("space", where(e), f"reading {tag} makes something of {show(size)[:50]} items or bytes, a number in the input")


class _Fn(_Sinks, FnConfig):
    pass


def _sym(p, cn, n, **fields):
    def f(ip):
        o = ip.new_obj(p.cls(cn))
        o.symbolic, o.exact, o.name = True, True, n
        for k, v in fields.items():
            o.fields[k] = v(ip) if callable(v) else v
        return o
    return f


COPIES = ("sorted", "list", "dict", "set", "tuple", "frozenset", "copy", "deepcopy", "bytes", "bytearray",
          "sum", "min", "max", "any", "all", "Counter", "deque", "OrderedDict", "fromkeys")
LAZY = ("iter", "map", "filter", "enumerate", "zip", "reversed", "values", "keys", "items", "elements", "element_indexes", "chain", "islice")


def _whole(t):
    """An existing object, or a container that is part of one, or its keys, values or items."""
    if isinstance(t, Obj):
        return t.symbolic
    if kind_(t) == "attr" and isinstance(t[1], Obj):
        return True
    if kind_(t) == "call":
        if kind_(t[1]) == "attr" and t[1][2] in LAZY:
            return _whole(t[1][1])
        if kind_(t[1]) == "ext" and t[1][1].rsplit(".", 1)[-1] in LAZY:
            return any(_whole(x) for x in t[2])
    return False


J = "v8serialize.jstypes."

V = {"v": ("sym", "v", "obj"), "w": ("sym", "w", "obj"), "n1": ("sym", "n1", "nat"), "s1": ("sym", "s1", "str")}

# class, storage, source, what; may: allowed to go over everything once (changing how it is stored)
STEPS = [
    ("JSObject", "DenseArrayProperties", "a[n1] = v", "setting an index of an object"),
    ("JSObject", "SparseArrayProperties", "a[n1] = v", "setting an index of an object stored sparsely"),
    ("JSObject", "DenseArrayProperties", "a['x'] = v", "setting a name of an object"),
    ("JSObject", "SparseArrayProperties", "a['x'] = v", "setting a name of an object stored sparsely"),
    ("JSMap", None, "a[v] = w", "setting an entry of a map"),
    ("JSMap", None, "return a[v]", "getting an entry of a map"),
    ("JSSet", None, "a.add(v)", "adding a member to a set"),
    ("SerializedObjectLog", None, "a.record_reference(v)", "numbering an object"),
    ("SerializedObjectLog", None, "return a.get_serialized_id(v)", "looking up the number of an object"),
    ("SerializedObjectLog", None, "return v in a", "looking whether an object has a number"),
    ("JSMap", None, "return v in a", "looking for a key in a map"),
    ("JSMap", None, "del a[v]", "removing an entry of a map"),
    ("JSSet", None, "return v in a", "looking for a member of a set"),
    ("JSSet", None, "a.discard(v)", "removing a member of a set"),
    ("JSObject", "DenseArrayProperties", "return a[n1]", "getting an index of an object"),
    ("JSObject", "SparseArrayProperties", "return a[n1]", "getting an index of an object stored sparsely"),
    ("JSObject", "SparseArrayProperties", "return n1 in a", "looking for an index of an object stored sparsely"),
    ("JSObject", "DenseArrayProperties", "del a[n1]", "removing an index of an object"),
    ("JSObject", "SparseArrayProperties", "del a[n1]", "removing an index of an object stored sparsely"),
    ("JSObject", "DenseArrayProperties", "del a[s1]", "removing a name of an object"),
    ("JSObject", "DenseArrayProperties", "return s1 in a", "looking for a name in an object"),
    ("SerializedObjectLog", None, "return a.get_object(n1)", "looking up an object by its number"),
    ("DenseArrayProperties", None, "a.append(v)", "appending to an array"),
    ("SparseArrayProperties", None, "a.append(v)", "appending to an array stored sparsely"),
]


class _Step(_Fn):
    def on_call(self, ip, f, args, kwargs, node, frame):
        n = f[1].rsplit(".", 1)[-1] if kind_(f) == "ext" else f[2] if kind_(f) == "attr" else None
        if kind_(f) in ("ext", "attr") and n in COPIES + ("extend", "update") and args and _whole(ip.value_of(args[0])):
            ip.emit("whole", extra=n, node=node, frame=frame)
        elif kind_(f) == "attr" and n in ("copy", "index", "count", "sort", "reverse", "remove") and _whole(f[1]):
            ip.emit("whole", extra=n, node=node, frame=frame)
        return super().on_call(ip, f, args, kwargs, node, frame)

    def on_spread(self, ip, v, node, frame):
        if _whole(ip.value_of(v)):
            ip.emit("whole", extra="unpacking", node=node, frame=frame)

    def on_index(self, ip, base, key, node, frame):
        if kind_(key) == "slice" and _whole(ip.value_of(base)):
            ip.emit("whole", extra="slice", node=node, frame=frame)
        return None


def searched(p, q):
    """Lists of existing objects that the path looks through for something."""
    for a in q.atoms:
        if a[0] == "in" and kind_(a[2]) == "attr" and isinstance(a[2][1], Obj) and a[2][1].cls is not None:
            if is_list(p, a[2][1].cls, a[2][2]):
                yield a[2]


def is_list(p, c, name):
    hit = p.__dict__.setdefault("_list_fields", {}).get((c.qual, name))
    if hit is None:
        ps, _ip = script(p, f"return {c.name}().{name}", {}, _Fn(), c.module.name)
        hit = p._list_fields[c.qual, name] = any(q.outcome == "return" and isinstance(q.value, ListV) for q in ps)
    return hit


def times(q, e):
    """How often a counted loop repeats."""
    if e.kind != "loop" or e.extra[1] != "in":
        return None
    it = q.loops.get(e.extra[0], {}).get("iter")
    if kind_(it) != "call" or it[1] != ("ext", "builtins.range") or len(it[2]) > 2:
        return None
    return lin_add(it[2][-1], it[2][0] if len(it[2]) == 2 else C(0), -1)


def used_count(p, c, env, cn, arr):
    """How the number of elements of the array which are not holes shows in a path."""
    if arr is None:
        return None
    ps, _ip = script(p, "return a.array.elements_used", env, _Step(), c.module.name)
    vs = {show(q.value) for q in ps if q.outcome == "return"}
    return vs.pop() if len(vs) == 1 else None


def check_steps(p, rep):
    rep.rule("adding or finding one entry does not go over the others, and gaps take no space beyond a constant times the entries")
    for cn, arr, src, what in STEPS:
        c = p.cls(cn)
        env = {"a": _sym(p, cn, "a", **({"array": _sym(p, arr, "arr")} if arr else {})), **V}
        ps, ip = script(p, src, env, _Step(), c.module.name)
        rep.use(ps, ip)
        said = set()
        used = used_count(p, c, env, cn, arr)
        for q in ps:
            if q.outcome == "raise":
                continue
            rep.ob("steps examined")
            changed = arr == "DenseArrayProperties" and any(
                e.kind == "setattr" and kind_(e.f) == "attr" and e.f[2] == "array" for e in q.events)
            for e in q.events:
                t = None
                n = times(q, e)
                if n is not None:
                    # counted: as something of that size
                    if not q.le(n, C(SMALL)) and not by_ratio(q, n, used):
                        t = "space", f"{what} repeats something {show(n)[:60]} times, whatever is there"
                elif e.kind == "loop" and e.extra and e.extra[1] == "in" and not changed:
                    t = "work", f"{what} goes over all entries"
                elif e.kind == "whole" and not changed:
                    t = "work", f"{what} copies or orders all entries ({e.extra})"
                elif e.kind == "alloc" and not e.extra[2] and not by_ratio(q, e.extra[1], used):
                    t = "space", f"{what} makes something of {show(e.extra[1])[:60]} items, whatever is there"
                if t and (t, where(e)) not in said:
                    said.add((t, where(e)))
                    rep.viol(t[0], where(e), t[1])
            for x in searched(p, q):
                if x not in said:
                    said.add(x)
                    rep.viol("work", f"{c.module.relpath} in {c.qual}", f"{what} searches the list {show(x)[:60]}")
    rep.at_least("steps examined", 30)


def one_term(p, src, env, module):
    """How the only term of a linear result shows."""
    ps, _ip = script(p, src, env, _Step(), module)
    vs = {tuple(show(t) for t, c in lin_of(q.value)[0].items() if c == 1) for q in ps if q.outcome == "return"}
    vs = vs.pop() if len(vs) == 1 else ()
    return vs[0] if len(vs) == 1 else None


def bounded_by(q, length, used):
    """The path establishes length <= c * used + d for constants c and d."""
    for a, v in q.atoms.items():
        if a[0] != "le0":
            continue
        sc, k = {show(t): c for t, c in a[1]}, a[2]
        if not v:
            sc, k = {t: -c for t, c in sc.items()}, 1 - k
        n = sc.pop(length, 0)
        if n > 0 and -k <= SMALL * n and all(t == used and -c <= SMALL * n for t, c in sc.items()):
            return True
    return False


ARRAYS = ("DenseArrayProperties", "SparseArrayProperties")


def check_written(p, rep):
    rep.rule("arrays are written with their gaps only if these are at most a constant times the entries")
    c = p.cls("JSArray")
    wm = p.cls("TagWriter").module.name
    for arr in ARRAYS:
        env = {"a": _sym(p, "JSArray", "a", array=_sym(p, arr, "arr")), "w": _sym(p, "TagWriter", "w"),
               "ctx": ("sym", "ctx", "obj"), "nx": ("sym", "nx", "fn"), "f": ("sym", "f", "fn")}
        used, length = used_count(p, c, env, "JSArray", arr), one_term(p, "return len(a.array)", env, c.module.name)
        if used is None or length is None:
            rep.undecided.append(f"the numbers of entries and indexes of {arr} were not understood")
            continue
        ps, ip = script(p, "w.encode(a, ctx=ctx, next=nx)", env, _Step(), wm)
        rep.use(ps, ip)
        for q in ps:
            for e in q.events:
                if e.kind == "call" and kind_(e.f) == "attr" and e.f[2] == "write_js_array_dense":
                    rep.ob("arrays written with their gaps")
                    if not bounded_by(q, length, used):
                        rep.viol("space", where(e), "an array is written with all its gaps, however many there are")
    rep.at_least("arrays written with their gaps", 2)


GOING = [
    ("JSObject", "for k in a: f(k)"),
    ("JSArray", "for k in a: f(k)"),
    ("SparseArrayProperties", "for k in a.elements(): f(k)"),
    ("SparseArrayProperties", "for k in a.element_indexes(): f(k)"),
    ("SparseArrayProperties", "for k in a.element_indexes(order=ORDER.DESCENDING): f(k)"),
    ("SparseArrayProperties", "for k in a.element_indexes(order=ORDER.UNORDERED): f(k)"),
    ("SparseArrayProperties", "return a.elements_used"),
    ("SparseArrayProperties", "return len(a)"),
    ("SparseArrayProperties", "return a[n1]"),
    ("SparseArrayProperties", "a[n1] = v"),
]


def counted(t):
    """Something that repeats a number of times which is not constant."""
    for s in subterms(t):
        if kind_(s) == "call" and kind_(s[1]) == "ext":
            n = s[1][1].rsplit(".", 1)[-1]
            if n in ("range", "repeat", "count") and any(kind_(x) != "c" for x in s[2]):
                yield s
            # an array stored sparsely gives its gaps too
            if n in LAZY + COPIES and any(isinstance(x, Obj) and x.cls is not None and x.cls.name == "SparseArrayProperties" for x in s[2]):
                yield s


def check_gaps(p, rep):
    rep.rule("going over the entries of something stored sparsely does not go over its gaps")
    for cn, src in GOING:
        c = p.cls(cn)
        order = p.cls("Order")
        env = {"a": _sym(p, cn, "a", **({} if cn.startswith("Sparse") else {"array": _sym(p, "SparseArrayProperties", "arr")})),
               "f": ("sym", "f", "fn"), "ORDER": ("cls", order.qual), **V}
        ps, ip = script(p, src, env, _Step(), c.module.name)
        rep.use(ps, ip)
        said = set()
        for q in ps:
            if q.outcome == "raise":
                continue
            rep.ob("ways over sparse entries examined")
            bad = [(e, f"makes something of {show(e.extra[1])[:60]} items") for e in q.events if e.kind == "alloc" and not e.extra[2]]
            for lp in q.loops.values():
                if lp["entered"] and lp["iter"] is not None:
                    bad += [(lp, f"repeats {show(s)[:60]}") for s in counted(lp["iter"])]
                    if isinstance(lp["iter"], Obj) and lp["iter"].cls is not None and lp["iter"].cls.name == "SparseArrayProperties":
                        bad.append((lp, "goes over the array itself, with its gaps"))
            bad += [(None, f"repeats {show(s)[:60]}") for s in counted(q.value)] if q.value is not None else []
            for e, t in bad:
                at = where(e) if e is not None and not isinstance(e, dict) else \
                    f"{e['func'].module.relpath}:{getattr(e['node'], 'lineno', '?')} in {e['func'].qual}" if e else f"{c.module.relpath} in {c.qual}"
                if (t, at) not in said:
                    said.add((t, at))
                    rep.viol("work", at, f"`{src}` over a {cn} stored sparsely {t}")
    rep.at_least("ways over sparse entries examined", 12)


def has(ip, t, sub):
    t = ip.value_of(t)
    return sub in subterms(t) or isinstance(t, ListV) and any(has(ip, x, sub) for x in t.items or ()) \
        or kind_(t) == "tup" and any(has(ip, x, sub) for x in t[1])


class _WriteSinks(WriterConfig):
    def on_call(self, ip, f, args, kwargs, node, frame):
        n = f[1].rsplit(".", 1)[-1] if kind_(f) == "ext" else f[2] if kind_(f) == "attr" else None
        if n in COPIES + ("join",) and any(has(ip, a, OUT) for a in args):
            ip.emit("whole", extra=n, node=node, frame=frame)
        return super().on_call(ip, f, args, kwargs, node, frame)

    def on_index(self, ip, base, key, node, frame):
        if kind_(key) == "slice" and base == OUT and (key[1] == NONE or is_c(key[1]) and key[1][2] >= 0):
            ip.emit("whole", extra="a slice", node=node, frame=frame)
        return super().on_index(ip, base, key, node, frame)


def check_output(p, rep):
    rep.rule("writing a value does not copy what is already written")
    for m in ["write_tag", "write_varint"] + write_method_names(p):
        ps, ip = write_paths(p, m, cfg_cls=_WriteSinks)
        rep.use(ps, ip)
        for q in ps:
            rep.ob("writing paths examined")
            for e in q.events:
                again = e.kind == "setattr" and kind_(e.f) == "attr" and e.f[2] == "data" and any(
                    x != o and o in subterms(x) for x in e.args or () if isinstance(x, tuple) for o in (OUT, e.extra) if isinstance(o, tuple))
                if e.kind == "whole" or again:
                    rep.viol("work", where(e), f"{m} copies everything written so far")
    rep.at_least("writing paths examined", 60)
