"""Going over the storage of arrays: the elements view, the regions of a sparse array and its iteration."""

from __future__ import annotations

import ast

from .fn import fn_paths, iterated, looped, script, sunk
from .interp import kind_
from .project import AnalysisError
from .rules_arrays import ArrayConfig, hole_of, known, method_paths, sym
from .terms import C, NONE, Obj, is_c, lin_add, mk_lin, show, subterms

MOD = "v8serialize.jstypes.jsarrayproperties"


def check_elements_view(p, rep):
    rep.rule("the elements view gives exactly the elements that are not holes under their indexes (never counting from the end), "
             "as many as there are, in the order it was asked for")
    hole = hole_of(p)
    cn = "ArrayPropertiesElementsView"
    key = sym("key", "int")
    ps, ip = method_paths(p, cn, "__getitem__", [key])
    rep.use(ps, ip)
    label = f"{cn}.__getitem__"
    for q in ps:
        me = q.ctx["args"][0]
        a = ("attr", me, "_array_properties")
        n = ("len", a)
        rep.ob("element views decided")
        el = [t for t in [*q.doms, *q.excl] if kind_(t) == "idx" and t[1] == a]
        if q.outcome == "return":
            r = q.value
            if not (kind_(r) == "idx" and r[1] == a and q.same(r[2], key)):
                rep.viol("view-read", label, f"index key gives {show(r) if isinstance(r, tuple) else r}")
            else:
                rep.require(q.le(C(0), key), "view-read", label, "a negative index is accepted")
                rep.require(known(q, r, hole) is False, "view-read", label, "a hole is given as an element")
                if not q.le(lin_add(key, C(1)), n) and _caught_index_error(q) is False:
                    rep.undecided.append(f"{label}: the upper bound is left to the array")
        elif q.exc_name() == "KeyError":
            ok = q.le(key, C(-1)) or q.le(n, key) or any(known(q, t, hole) for t in el)
            rep.require(ok or _caught_index_error(q), "view-read", label, "an index that has an element is refused")
        elif q.exc_name() != "IndexError":
            rep.viol("view-read", label, f"raises {q.exc_name()}")
    ps, ip = method_paths(p, cn, "__iter__", [])
    rep.use(ps, ip)
    for q in ps:
        me = q.ctx["args"][0]
        rep.ob("element views decided")
        r = q.value if q.outcome == "return" else None
        while kind_(r) == "iterwrap" or kind_(r) == "call" and r[1] == ("ext", "builtins.iter"):
            r = r[1] if kind_(r) == "iterwrap" else r[2][0]
        a = ("attr", me, "_array_properties")
        if not (kind_(r) == "call" and r[1] == ("attr", a, "element_indexes")):
            rep.undecided.append(f"{cn}.__iter__: gives {show(r) if isinstance(r, tuple) else r}")
            continue
        order = dict(r[3]).get("order", r[2][0] if r[2] else None)
        rep.require(order is not None and q.same(order, ("attr", me, "order")), "view-order", f"{cn}.__iter__",
                    f"the indexes come in {'the default order' if order is None else show(order)}, not in the order asked for")
    ps, ip = method_paths(p, cn, "__len__", [])
    rep.use(ps, ip)
    for q in ps:
        me = q.ctx["args"][0]
        rep.ob("element views decided")
        r = q.value if q.outcome == "return" else None
        a = ("attr", me, "_array_properties")
        if r == ("len", a):
            rep.viol("view-length", f"{cn}.__len__", "holes are counted as elements")
        elif r != ("attr", a, "elements_used"):
            rep.undecided.append(f"{cn}.__len__: gives {show(r) if isinstance(r, tuple) else r}")
    for owner in ("DenseArrayProperties", "SparseArrayProperties"):
        order = ("sym", "order", "obj")
        ps, ip = method_paths(p, owner, "elements", [], {"order": order})
        rep.use(ps, ip)
        for q in ps:
            me = q.ctx["args"][0]
            rep.ob("element views decided")
            r = q.value if q.outcome == "return" else None
            if not (isinstance(r, Obj) and r.cls is not None and r.cls.name == cn):
                rep.undecided.append(f"{owner}.elements: gives {show(r) if isinstance(r, tuple) else r}")
                continue
            rep.require(r.fields.get("_array_properties") == me, "view-made", f"{owner}.elements", "the view is not of this array")
            o = r.fields.get("order")
            rep.require(o is not None and (o == order or q.same(o, order)), "view-order", f"{owner}.elements", "the order asked for is not used")
    rep.at_least("element views decided", 6)


def _caught_index_error(q):
    return any(e.kind == "except" for e in q.events)


# ------------------------------------------------------------------ regions
def check_regions(p, rep):
    rep.rule("the regions of an array follow each other from its beginning to its end without gap or overlap; an occupied region has the "
             "values of adjacent elements in order, and iterating gives as many holes as an empty region has, and an occupied one's values")
    if MOD + ".alternating_regions" not in p.funcs:
        rep.undecided.append("alternating_regions is not there")
    else:
        _regions(p, rep)
        _grouping(p, rep)
    hole = hole_of(p)
    _sparse_iter(p, rep, hole)
    ps, ip = method_paths(p, "DenseArrayProperties", "__iter__", [])
    rep.use(ps, ip)
    for q in ps:
        me = q.ctx["args"][0]
        r = q.value if q.outcome == "return" else None
        while kind_(r) in ("iterwrap", "ver") or kind_(r) == "call" and r[1] == ("ext", "builtins.iter"):
            r = r[2][0] if kind_(r) == "call" else r[1]
        if r == ("attr", me, "_items"):
            rep.ob("region steps decided")
        elif kind_(r) == "call" and r[1] == ("ext", "builtins.reversed"):
            rep.viol("dense-iter", "DenseArrayProperties.__iter__", "the values come backwards")
        else:
            rep.undecided.append("DenseArrayProperties.__iter__: not understood")
    rep.at_least("region steps decided", 8)


def _fields(r):
    return r.fields.get("start"), r.fields.get("length"), r.fields.get("items")


def _group_of(t):
    """The groupby() call a term comes from."""
    for x in subterms(t):
        if kind_(x) == "call" and x[1] == ("ext", "itertools.groupby"):
            return x
    return None


def _regions(p, rep):
    label = "alternating_regions"
    arr = sym("arr")
    ps, ip = script(p, "for item in alternating_regions(arr):\n    sink(item)", {"arr": arr, "sink": sym("sink")},
                    ArrayConfig(may=lambda ip, f: f == ("ext", "builtins.next")), MOD)
    rep.use(ps, ip)
    n = ("len", arr)
    for q in ps:
        if any(NONE in d for t, d in q.doms.items() if kind_(t) == "idx" and t[2] == C(0) and _group_of(t)):
            continue  # an index is not None
        if q.outcome != "return":
            rep.viol("region", label, f"raises {q.exc_name()}")
            continue
        source = next((_group_of(x) for t in [*q.atoms, *(e.args[0] for e in q.events if e.args), *(lp["iter"] for lp in q.loops.values())]
                       if isinstance(t, tuple) for x in [t] if _group_of(x)), None)
        if source is None:
            regions = [e.args[0] for e in q.events if e.kind == "call" and e.f == ("sym", "sink", "obj")]
            if not any(isinstance(r, Obj) for r in regions):
                rep.undecided.append(f"{label}: the elements are not grouped")
                return
        else:
            src = source[2][0]
            if kind_(src) == "call" and kind_(src[1]) == "attr" and src[1][2] == "items" and kind_(src[1][1]) == "call" \
                    and src[1][1][1] == ("attr", arr, "elements"):
                order = dict(src[1][1][3]).get("order")
                if order is not None and not (kind_(order) == "enum" and order[2] == "ASCENDING"):
                    rep.viol("region", label, f"the elements are taken in order {show(order)}")
                    return
            else:
                rep.undecided.append(f"{label}: groups {show(src)}")
                return
        try:
            _walk(rep, q, n, label)
        except _Unknown as e:
            rep.undecided.append(f"{label}: {e}")


class _Unknown(Exception):
    pass


def _walk(rep, q, n, label):
    pos, last = C(0), None
    inside = None
    for e in q.events:
        key = e.extra[0] if e.kind in ("loop", "endloop") and e.extra else None
        if e.kind == "loop" and key in q.loops and q.loops[key]["entered"] and _group_of(q.loops[key]["iter"]) and not _inner(q.loops[key]):
            inside = q.loops[key]
            pos, var = _resume(inside, last, pos, "in")
        elif e.kind == "endloop" and inside is not None and key == inside["key"]:
            if e.extra[1] == "break":
                raise _Unknown("the loop over groups is left early")
            if var is not None and inside["end"].get(var) is not last and inside["end"].get(var) != pos:
                rep.viol("region", label, "the next region starts after another one than the last given")
            pos = _at(inside, var, "out") if var is not None else None
            inside = None
        elif e.kind == "call" and e.f == ("sym", "sink", "obj"):
            r = e.args[0]
            if not isinstance(r, Obj) or r.cls is None or r.cls.name not in ("EmptyRegion", "OccupiedRegion"):
                raise _Unknown(f"gives {show(r) if isinstance(r, tuple) else r}")
            start, length, items = _fields(r)
            if start is None or length is None or pos is None:
                raise _Unknown("a region's place is not understood")
            rep.ob("region steps decided")
            if not q.same(start, pos) and not (r.cls.name == "OccupiedRegion" and q.le(start, pos)):  # elements ascend: not before pos
                if any(kind_(x) in ("ver", "lv") for x in subterms(start)) and inside is None and before_loop(q):
                    raise _Unknown("a region's start is not understood")
                rep.viol("region", label, f"a region starts at {show(start)[:60]} where the one before it ends at {show(pos)[:60]}")
                return
            if r.cls.name == "OccupiedRegion":
                _items(rep, q, start, items, length, inside, label)
            pos, last = lin_add(start, length), r
    if pos is None:
        raise _Unknown("the end is not understood")
    rep.require(q.le(n, pos), "region", label, f"the regions end at {show(pos)[:60]}, before the end of the array")


def before_loop(q):
    return not any(e.kind == "loop" for e in q.events)


def _inner(lp):
    """A loop over the members of one group."""
    it = lp["iter"]
    return kind_(it) == "idx" and it[2] == C(1)


def _resume(lp, last, pos, side):
    """Where the regions had got to at the start of an iteration, as the loop's variables say."""
    for var, v in lp["init"].items():
        if last is not None and v is last:
            return _at(lp, var, side), var
    for var, v in lp["init"].items():
        if isinstance(v, tuple) and v == pos and (not is_c(v) or not is_c(lp["end"].get(var)) and lp["end"].get(var) is not None):
            return _at(lp, var, side), var
    raise _Unknown("what the loop continues from is not understood")


def _at(lp, var, side):
    t = ("lv", lp["key"], f"{var[1]}@{var[0]}", side)
    if isinstance(lp["init"].get(var), Obj):
        return lin_add(("attr", t, "start"), ("attr", t, "length"))
    return t


def _items(rep, q, start, items, length, inside, label):
    g = start[1] if kind_(start) == "idx" and start[2] == C(0) else None
    if g is None or not _group_of(g):
        raise _Unknown("an occupied region does not start at a group's key")
    name = f"the values of the region at {show(start)[:40]}"
    got = [t for e in q.events if e.kind == "comp" for t in (e.args or ()) if isinstance(t, tuple)]
    lp = next((x for x in q.loops.values() if x["iter"] == ("idx", g, C(1))), None)
    if lp is None:
        if any(_inner(x) and _group_of(x["iter"]) for x in q.loops.values()):
            rep.viol("region-values", label, f"{name} are another group's")
            return
        raise _Unknown(f"{name} are not understood")
    if lp["entered"] and got:
        mine = [t for t in got if any(kind_(x) == "elem" and x[1] == ("idx", g, C(1)) for x in subterms(t))]
        if mine and not any(kind_(t) == "idx" and kind_(t[1]) == "elem" and t[2] == C(1) for t in mine):
            rep.viol("region-values", label, f"{name} are {show(mine[0])[:60]}")


def _grouping(p, rep):
    """The key function of the grouping: adjacent indexes share the index of the first, others do not."""
    label = "alternating_regions"
    outer = p.funcs[MOD + ".alternating_regions"]
    calls = [c for c in ast.walk(outer.node) if isinstance(c, ast.Call) and isinstance(c.func, ast.Name) and c.func.id == "groupby"]
    inner = {d.name: d for d in outer.node.body if isinstance(d, ast.FunctionDef)}
    if len(calls) != 1 or len(calls[0].args) < 2 and not calls[0].keywords:
        rep.undecided.append(f"{label}: no grouping by key")
        return
    key = calls[0].args[1] if len(calls[0].args) > 1 else calls[0].keywords[0].value
    d = inner.get(key.id) if isinstance(key, ast.Name) else None
    names = [x for s in (ast.walk(d) if d else ()) if isinstance(s, ast.Nonlocal) for x in s.names]
    first = {}
    for s in outer.node.body:
        t = s.targets[0] if isinstance(s, ast.Assign) and len(s.targets) == 1 else s.target if isinstance(s, ast.AnnAssign) else None
        if isinstance(t, ast.Name) and t.id in names and t.id not in first:
            try:
                first[t.id] = ast.literal_eval(s.value)
            except ValueError:
                pass
    if d is None or len(names) != 2 or set(first) != set(names) or not all(isinstance(v, int) for v in first.values()):
        rep.undecided.append(f"{label}: the key of the grouping is not understood")
        return
    import copy
    body = copy.deepcopy(d)
    body.decorator_list = []
    src = f"{names[0]} = a0\n{names[1]} = b0\n{ast.unparse(body)}\nr = {d.name}((i, v))\nsink(r, {names[0]}, {names[1]})"
    i, a0, b0 = sym("i", "nat"), sym("a0", "int"), sym("b0", "int")
    ps, ip = script(p, src, {"i": i, "v": sym("v"), "a0": a0, "b0": b0, "sink": sym("sink")}, ArrayConfig(), MOD)
    rep.use(ps, ip)
    done = [(q, e.args) for q in ps if q.outcome == "return" for e in q.events if e.kind == "call" and e.f == ("sym", "sink", "obj")]
    if len(done) != len(ps) or not done or any(len(a) != 3 or not all(isinstance(t, tuple) for t in a) for _, a in done):
        rep.undecided.append(f"{label}: the key of the grouping is not understood")
        return
    prev = [k for k in (1, 2) if all(q.same(a[k], i) for q, a in done)]
    if not prev:
        rep.viol("region-grouping", label, "the index of the last element seen is not always kept")
        return
    k = prev[0]
    p0, s0 = (a0, b0) if k == 1 else (b0, a0)
    first_p, first_s = (first[names[0]], first[names[1]]) if k == 1 else (first[names[1]], first[names[0]])
    for q, a in done:
        rep.ob("region steps decided")
        r, s = a[0], a[3 - k]
        adjacent = True if q.same(i, lin_add(p0, C(1))) else False if _differs(q, i, lin_add(p0, C(1))) else None
        rep.require(q.same(r, s), "region-grouping", label, "the key given is not the start that is kept for the next element")
        if q.same(r, i) and not q.same(r, s0):
            rep.require(adjacent is False, "region-grouping", label, "a new group can start at an element adjacent to the one before")
        elif q.same(r, s0):
            rep.require(adjacent is True, "region-grouping", label, "elements that are not adjacent can be put in one region")
        else:
            rep.viol("region-grouping", label, f"an element's group is {show(r)}")
    rep.require(first_s == first_p + 1, "region-grouping", label, f"the first element's region starts at {first_s} when it is at {first_p + 1}")


def _differs(q, a, b):
    d = lin_add(a, b, -1)
    if q.le(lin_add(a, C(1)), b) or q.le(lin_add(b, C(1)), a):
        return True
    for t, v in q.atoms.items():
        if isinstance(t, tuple) and t[0] in ("eq", "eq0") and not v:
            x = lin_add(t[1], t[2], -1) if t[0] == "eq" else mk_lin(dict(t[1]), t[2])
            if x == d or x == lin_add(C(0), d, -1):
                return True
    return False


def _sparse_iter(p, rep, hole):
    label = "SparseArrayProperties.__iter__"
    regions = sym("regions")

    def call(ip, f, args, kw, node, frame):
        return regions if f == ("fn", MOD + ".alternating_regions") else NotImplemented
    ps, ip = iterated(p, "SparseArrayProperties", "o", ArrayConfig(call=call))
    rep.use(ps, ip)
    for q in ps:
        if q.outcome != "return":
            continue
        outer = [lp for lp in q.loops.values() if lp["iter"] == regions]
        if not outer:
            rep.undecided.append(f"{label}: does not go over regions")
            return
        key = outer[0]["key"]
        if not outer[0]["entered"]:
            rep.require(not sunk(q), "sparse-iter", label, "values are given without any region")
            continue
        r = ("elem", regions, key)
        items, length = ("attr", r, "items"), ("attr", r, "length")
        empty = known(q, items, NONE)
        for a, v in q.atoms.items():
            if isinstance(a, tuple) and a[0] == "isinstance" and a[1] == r:
                empty = v if "EmptyRegion" in show(a) else not v if "OccupiedRegion" in show(a) else empty
        if empty is None:
            rep.viol("sparse-iter", label, "empty regions are not told apart") if sunk(q) else rep.undecided.append(f"{label}: not understood")
            continue
        rep.ob("region steps decided")
        inner = [lp for lp in q.loops.values() if lp is not outer[0]]
        if not inner:
            rep.viol("sparse-iter", label, f"{len(sunk(q))} value(s) are given for a region of any length")
            continue
        src = inner[0]["iter"]
        if len(inner) > 1:
            rep.undecided.append(f"{label}: several loops")
            continue
        if empty:
            count = src[2][1] if kind_(src) == "call" and src[1] == ("ext", "itertools.repeat") and len(src[2]) > 1 else \
                src[2][0] if kind_(src) == "call" and src[1] == ("ext", "builtins.range") and len(src[2]) == 1 else None
            if count is None:
                rep.undecided.append(f"{label}: holes come from {show(src)}")
                continue
            rep.require(q.same(count, length) or q.same(count, ("len", r)), "sparse-iter", label,
                        f"{show(count)} holes are given for an empty region")
            vals = [src[2][0]] if src[1][1].endswith("repeat") else sunk(q)
            rep.require(all(v == hole for v in vals), "sparse-iter", label, f"{show(vals[0]) if vals else ''} is given for a hole")
        elif src != items:
            rep.viol("sparse-iter", label, f"values come from {show(src)} for an occupied region") if not any(x == items for x in subterms(src)) \
                else rep.undecided.append(f"{label}: values come from {show(src)}")
        elif inner[0]["entered"]:
            rep.require(sunk(q) == [("elem", items, inner[0]["key"])], "sparse-iter", label, "an element's value is not given as it is")
