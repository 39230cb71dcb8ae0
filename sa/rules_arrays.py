"""JavaScript array storage: the dense and the sparse representation keep their invariants under every operation."""

from __future__ import annotations

from .fn import FnConfig, fn_paths, frame_of, iterated, looped, sunk
from .interp import kind_
from .project import AnalysisError
from .terms import C, NONE, DictV, GenExp, GenV, ListV, Obj, is_c, lin_add, lin_scale, show

HOLE = ("enum", "v8serialize.jstypes.jsarrayproperties.JSHoleEnum", "JSHole")
MAXLEN = 2**32 - 1


def known(q, t, k):
    """True/False when the facts of the path decide t is k, else None."""
    if t == k:
        return True
    v = q.q.value_of(t)
    if v == k:
        return True
    if is_c(v) or kind_(v) == "enum" or isinstance(v, (Obj, ListV, DictV)) or kind_(v) == "tup":
        return False
    if k in q.excl.get(t, ()) or k in q.excl.get(v, ()):
        return False
    d = q.doms.get(t, q.doms.get(v))
    if d is not None:
        return False if k not in d else True if len(d) == 1 else None
    return None


class ArrayConfig(FnConfig):
    """A symbolic array whose private lists and dicts are symbolic too."""


def hole_of(p):
    c = p.cls("JSHoleEnum")
    return ("enum", c.qual, "JSHole")


def method_paths(p, cn, mn, args, kw=None):
    c = p.cls(cn)
    f = p.find_method(c, mn)
    if f is None:
        raise AnalysisError(f"{cn}.{mn} not found")

    def mk(ip):
        o = ip.new_obj(c)
        o.symbolic, o.name = True, "self"
        return [o, *args], dict(kw or {})
    return fn_paths(p, f, mk, ArrayConfig())


def sym(n, t="obj"):
    return ("sym", n, t)


def _root_list(t, me, name):
    """Is t the attribute `name` of self, at any version?"""
    while kind_(t) == "ver":
        t = t[1]
    return kind_(t) == "attr" and t[1] == me and t[2] == name


def _is_new(t):
    return isinstance(t, (ListV, DictV))


def slice_of(i):
    return kind_(i) == "slice"


# ------------------------------------------------------------------ dense
def nonhole(q, t, hole):
    """1 / 0 when it is known whether t is a hole, else None."""
    k = known(q, t, hole)
    return None if k is None else 0 if k else 1


class Unknown(Exception):
    pass


def old_element(q, me, idx, hole):
    """Is the element at idx (before the call) a hole?"""
    for t in list(q.excl) + list(q.doms):
        if kind_(t) == "idx" and _root_list(t[1], me, "_items") and (t[2] == idx or not isinstance(t[2], Obj) and not slice_of(t[2]) and same_index(q, me, t[2], idx)):
            k = nonhole(q, t, hole)
            if k is not None:
                return k
    return None


def same_index(q, me, a, b):
    if a == b:
        return True
    try:
        if q.same(a, b):
            return True
        n = ("len", ("attr", me, "_items"))
        for x, y in ((a, b), (b, a)):
            # a negative index denotes the same element as itself plus the length
            if q.le(x, C(-1)) and q.same(lin_add(n, x), y):
                return True
    except Exception:
        return False
    return False


def genexp_count(q, e_sum, q_events, me, hole):
    """(lo, hi) when the summed generator counts the non-holes of a slice of the items."""
    i = next((k for k, e in enumerate(q_events) if e.kind == "consume" and e.args and e.args[0] is e_sum), None)
    j = next((k for k, e in enumerate(q_events) if e.kind == "consumed" and e.args and e.args[0] is e_sum), None)
    if i is None or j is None:
        return None
    inner = q_events[i:j]
    loop = next((e for e in inner if e.kind == "loop"), None)
    if loop is None:
        return "empty"
    lp = q.loops.get(loop.extra[0])
    it = lp["iter"] if lp else None
    ys = [e for e in inner if e.kind == "yielded"]
    rng = _range_of(it, me)
    if rng is None:
        return None
    elems = [t for t in list(q.excl) + list(q.doms) if _elem_of_loop(t, me, loop.extra[0])]
    for t in elems:
        k = nonhole(q, t, hole)
        if k is not None:
            if len(ys) != k or any(y.args[0] != C(1) for y in ys):
                raise Miscount()
            return rng
    return None


class Miscount(Exception):
    pass


def _range_of(it, me):
    n = ("len", ("attr", me, "_items"))
    if kind_(it) == "call" and it[1] == ("ext", "builtins.range"):
        a = it[2]
        return (C(0), a[0]) if len(a) == 1 else (a[0], a[1]) if len(a) == 2 else None
    t = it[1] if kind_(it) == "iterwrap" else it
    if kind_(t) == "idx" and slice_of(t[2]) and _root_list(t[1], me, "_items"):
        lo, hi = t[2][1], t[2][2]
        return (C(0) if lo == NONE else lo, n if hi == NONE else hi)
    if _root_list(t, me, "_items"):
        return (C(0), n)
    return None


def _elem_of_loop(t, me, key):
    if kind_(t) == "idx" and _root_list(t[1], me, "_items"):
        return kind_(t[2]) == "sym" and key in t[2]
    return kind_(t) == "elem" and key in t


def check_dense(p, rep):
    rep.rule("dense array storage counts exactly its non-hole elements: every change of the list changes the count by the "
             "number of non-holes added less those removed")
    hole = hole_of(p)
    ops = {"__setitem__": [sym("i", "int"), sym("v")], "__delitem__": [sym("i", "int")], "insert": [sym("i", "int"), sym("v")],
           "append": [sym("v")], "resize": [sym("n", "int")]}
    inherited = [m for m in ("extend", "pop", "remove", "clear", "reverse", "__iadd__") if p.find_method(p.cls("DenseArrayProperties"), m)]
    for m in inherited:
        rep.undecided.append(f"DenseArrayProperties.{m} is defined in the package and not analysed")
    for mn, args in ops.items():
        ps, ip = method_paths(p, "DenseArrayProperties", mn, args)
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "return":
                _index_error(p, rep, q, "DenseArrayProperties", mn, ("len", ("attr", q.ctx["args"][0], "_items")))
                continue
            try:
                _dense_path(rep, q, mn, hole)
            except Miscount:
                rep.viol("array-count", f"DenseArrayProperties.{mn}", "the elements counted are not those that are not holes")
            except Unknown as e:
                rep.undecided.append(f"DenseArrayProperties.{mn}: {e}")
    rep.at_least("array operations decided", 10)


def _dense_path(rep, q, mn, hole):
    label = f"DenseArrayProperties.{mn}"
    me = q.ctx["args"][0]
    A = ("attr", me, "_items")
    n0 = ("len", A)
    used0 = ("attr", me, "_elements_used")
    delta, sums, absolute = 0, [], None
    used = used0
    changed = False
    unknowns = []
    for e in q.events:
        if e.kind == "setattr" and e.f == used0:
            used = e.args[0]
        elif e.kind == "setattr" and e.f == A:
            v = e.args[0]
            if v != A:
                raise Unknown("the list is replaced")
        elif e.kind == "setitem" and _root_list(e.f, me, "_items"):
            if slice_of(e.args[0]):
                raise Unknown("a slice is assigned")
            a, b = nonhole(q, e.args[1], hole), old_element(q, me, e.args[0], hole)
            unknowns += [w for w, x in (("the new value", a), ("the old element", b)) if x is None]
            delta += (a or 0) - (b or 0)
            changed = True
            _index(rep, q, label, me, e.args[0], n0, mn)
        elif e.kind == "delitem" and _root_list(e.f, me, "_items"):
            i = e.args[0]
            changed = True
            if slice_of(i):
                sums.append((i[1] if i[1] != NONE else C(0), i[2] if i[2] != NONE else n0))
            else:
                b = old_element(q, me, i, hole)
                unknowns += ["the removed element"] if b is None else []
                delta -= b or 0
                _index(rep, q, label, me, i, n0, mn)
        elif e.kind == "call" and kind_(e.f) == "attr" and _root_list(e.f[1], me, "_items"):
            m = e.f[2]
            if m in ("append", "insert"):
                a = nonhole(q, e.args[-1], hole)
                unknowns += ["the new value"] if a is None else []
                delta += a or 0
                changed = True
                if m == "insert" and mn == "insert":
                    _index(rep, q, label, me, e.args[0], n0, mn)
            elif m == "extend":
                if not _holes(e.args[0], hole):
                    raise Unknown("the list is extended with unknown values")
                changed = True
            elif m in ("copy", "index", "count", "__getitem__", "__len__"):
                pass
            else:
                raise Unknown(f"{m}() of the list is not modelled")
    rep.ob("array operations decided")
    if mn == "append" and not any(e.kind == "call" and kind_(e.f) == "attr" and e.f[2] in ("append", "insert", "extend") for e in q.events):
        rep.viol("array-op", label, "nothing is appended")
    if mn == "__setitem__" and not changed:
        if not (old_element(q, me, q.ctx["args"][1], hole) == 0 and nonhole(q, q.ctx["args"][2], hole) == 0):
            rep.viol("array-op", label, "the element is not set")
    if mn in ("__delitem__", "insert") and not changed:
        rep.viol("array-op", label, "the list is not changed")
    if unknowns and not changed:
        unknowns = []
    d = lin_add(used, used0, -1)
    if mn == "resize":
        _resize(rep, q, label, me, sums, used, used0, n0, hole)
        return
    if sums:
        raise Unknown("a slice is deleted")
    if unknowns:
        rep.viol("array-count", label, f"the count of elements is changed by {show(d)} whether or not {unknowns[0]} is a hole"
                 if not _mentions_hole(used) else "the count of elements does not follow the holes")
        return
    if d != C(delta):
        rep.viol("array-count", label, f"the count of elements changes by {show(d)} where {delta} elements are added")


def _mentions_hole(t):
    return "JSHole" in show(t)


def _holes(t, hole):
    """A list of holes only."""
    if isinstance(t, ListV):
        return t.items is not None and all(x == hole for x in t.items)
    return _repeat(t, hole) is not None


def _repeat(t, hole):
    """n for [hole] * n (or n * [hole], itertools.repeat(hole, n))."""
    if kind_(t) == "call" and t[1] == ("ext", "operator.*"):
        a, b = t[2]
    elif kind_(t) == "op" and t[1] == "*":
        a, b = t[2]
    elif kind_(t) == "call" and t[1] == ("ext", "itertools.repeat") and len(t[2]) == 2:
        return t[2][1] if t[2][0] == hole else None
    else:
        return None
    if isinstance(b, ListV):
        a, b = b, a
    return b if isinstance(a, ListV) and a.items is not None and len(a.items) == 1 and a.items[0] == hole else None


def _index(rep, q, label, me, idx, n, mn):
    """The index used is the one asked for, negative ones counting from the end."""
    asked = q.ctx["args"][1]
    ok = idx == asked or same_index(q, me, idx, asked) or q.le(asked, C(-1)) and q.same(idx, lin_add(asked, n))
    if ok and idx != asked and q.le(asked, C(-1)) and q.same(idx, lin_add(asked, n)) and not q.le(C(0), idx):
        rep.viol("array-range", label, "an index before the beginning of the array can be turned into another element's")
    if mn == "insert" and not ok:
        ok = q.le(n, asked) and q.same(idx, n) or q.le(asked, lin_add(C(0), lin_scale(n, -1))) and q.same(idx, C(0))
    if not ok:
        rep.viol("array-index", label, f"index {show(idx)} is used for index {show(asked)}")


def _index_error(p, rep, q, cn, mn, n):
    """An index error is only for indexes outside the array."""
    label = f"{cn}.{mn}"
    name = q.exc_name()
    rep.ob("array operations decided")
    if mn == "resize":
        x = q.ctx["args"][1]
        if not (q.le(x, C(-1)) or q.le(C(MAXLEN + 1), x)):
            rep.viol("array-range", label, f"{name} for a length that is allowed")
        return
    if name != "IndexError":
        if name == "NotImplementedError" and any(isinstance(a, tuple) and a[0] == "isinstance" and "slice" in show(a) and v for a, v in q.atoms.items()):
            return
        if cn == "DenseArrayProperties" and name == "AssertionError":
            rep.viol("array-range", label, "an assertion can fail")
        return
    if mn == "append":
        if not q.le(C(MAXLEN), n):
            rep.viol("array-range", label, "an element is refused although the array is not at its maximum length")
        return
    x = q.ctx["args"][1]
    low = q.le(lin_add(x, n), C(-1))
    high = q.le(n, x)
    full = mn == "insert" and q.le(C(MAXLEN), n)
    if not (low or full or high and mn != "insert"):
        rep.viol("array-range", label, "an index inside the array is refused")


def _resize(rep, q, label, me, sums, used, used0, n0, hole):
    n = q.ctx["args"][1]
    if not (q.le(C(0), n) and q.le(n, C(MAXLEN))):
        rep.viol("array-range", label, "a length outside 0 … 2**32-1 is accepted")
    ext = [e for e in q.events if e.kind == "call" and kind_(e.f) == "attr" and _root_list(e.f[1], me, "_items") and e.f[2] == "extend"]
    if sums:
        if len(sums) != 1 or not q.same(sums[0][0], n) or not (sums[0][1] == n0 or q.same(sums[0][1], n0)):
            rep.viol("array-resize", label, "the elements removed are not those from the new length on")
            return
        cs = [e.args[0] for e in q.events if e.kind == "consume" and e.args and isinstance(e.args[0], GenExp)]
        if len(cs) != 1:
            raise Unknown("how the remaining elements are counted is not understood")
        r = genexp_count(q, cs[0], q.events, me, hole)
        s = next((t for t in _linterms(used) if kind_(t) == "sym" and str(t[1]).startswith("sum")), None)
        if r == "empty":
            return
        if r is None or s is None:
            raise Unknown("how the remaining elements are counted is not understood")
        lo, hi = r
        kept = lin_add(used, s, -1) == C(0) and q.same(lo, C(0)) and q.same(hi, n)
        gone = lin_add(lin_add(used, used0, -1), s) == C(0) and q.same(lo, n) and (hi == n0 or q.same(hi, n0))
        rep.require(kept or gone, "array-count", label,
                    f"the count becomes {show(used)} where the summed elements are those from {show(lo)} to {show(hi)}")
        return
    if used != used0:
        rep.viol("array-count", label, "growing the array changes the count of elements")
    if not ext:
        grown = _grown_by(q, me, hole)
        if grown is None and any(e.kind == "call" and kind_(e.f) == "attr" and _root_list(e.f[1], me, "_items") for e in q.events):
            raise Unknown("how the array grows is not understood")
        if not q.same(n, lin_add(n0, grown or C(0))):
            rep.viol("array-resize", label, "the length is not changed" if grown is None else
                     f"{show(grown)} holes are added when growing from {show(n0)} to {show(n)}")
        return
    cnt = _repeat(ext[0].args[0], hole)
    if cnt is not None and not q.same(cnt, lin_add(n, n0, -1)):
        rep.viol("array-resize", label, f"{show(cnt)} holes are added when growing from {show(n0)} to {show(n)}")


def _grown_by(q, me, hole):
    """How many holes a loop appends, one in each of a counted number of repetitions."""
    cur, out = None, None
    for e in q.events:
        if e.kind == "loop":
            cur = (e.extra[0], 0) if e.extra[1] == "in" else None
        elif e.kind == "endloop" and cur is not None:
            it = q.loops[cur[0]]["iter"]
            if cur[1] != 1 or kind_(it) != "call" or it[1] != ("ext", "builtins.range") or len(it[2]) > 2 or e.extra[1] != "next":
                return None
            out = lin_add(it[2][-1], it[2][0] if len(it[2]) == 2 else C(0), -1)
            cur = None
        elif e.kind == "call" and kind_(e.f) == "attr" and _root_list(e.f[1], me, "_items"):
            if cur is None or e.f[2] != "append" or out is not None or list(e.args) != [hole]:
                return None
            cur = (cur[0], cur[1] + 1)
    return out


def _linterms(t):
    return [x for x, _ in t[1]] if kind_(t) == "lin" else [t]


# ------------------------------------------------------------------ sparse
class Sparse:
    """What a path of a method of the sparse array did to its parts."""

    def __init__(self, q, hole):
        self.q, self.hole = q, hole
        me = self.me = q.ctx["args"][0]
        self.A = ("attr", me, "_items")
        self.S0, self.M0 = ("attr", me, "_sorted_keys"), ("attr", me, "_max_index")
        self.items, self.sorted, self.max = self.A, self.S0, self.M0
        self.changes = []  # ("add"|"remove"|"keep", key) | ("map", comp) | ("truncate", loop) | ("filter", comp)
        self.sorted_ops = []
        self.stored = []
        self.in_loop = []
        for e in q.events:
            self.step(e)

    def is_items(self, t):
        return t is self.items or t == self.items or _root_list(t, self.me, "_items") and not _is_new(self.items)

    def is_sorted(self, t):
        while kind_(t) == "ver":
            t = t[1]
        return t is self.sorted or t == self.sorted

    def step(self, e):
        q = self.q
        if e.kind == "loop":
            self.in_loop.append(e.extra[0])
        elif e.kind == "endloop":
            self.in_loop = [k for k in self.in_loop if k != e.extra[0]]
        elif e.kind == "comp" and isinstance(e.f, DictV):
            self.comp = (e.f, e.args, [k for k in q.loops])
            self.comps = getattr(self, "comps", []) + [self.comp]
        elif e.kind == "setattr" and e.f == self.A:
            v = e.args[0]
            if isinstance(v, DictV):
                c = next((c for c in getattr(self, "comps", []) if c[0] is v), None)
                if c is None:
                    raise Unknown("the elements are replaced")
                self.changes.append(("map", c[1]))
                self.items = v
            elif not self.is_items(v):
                raise Unknown("the elements are replaced")
        elif e.kind == "setattr" and e.f == self.S0:
            self.sorted = e.args[0]
            self.sorted_ops.append(("set", e.args[0], len(self.changes)))
        elif e.kind == "setattr" and e.f == self.M0:
            self.max = e.args[0]
        elif e.kind == "setitem" and self.is_items(e.f):
            k, v = e.args
            self.stored.append((k, v))
            has = q.atoms.get(("in", k, self.A))
            if self.in_loop:
                self.changes.append(("addloop", k))
            else:
                self.changes.append(("keep" if has is True and self.items == self.A else "add", k))
        elif e.kind == "delitem" and self.is_items(e.f):
            self.changes.append(("removeloop" if self.in_loop else "remove", e.args[0]))
        elif e.kind == "call" and kind_(e.f) == "attr" and self.is_items(e.f[1]):
            m = e.f[2]
            if m == "pop":
                self.changes.append(("remove", e.args[0]))
            elif m not in ("get", "items", "keys", "values", "copy", "__contains__", "__len__"):
                raise Unknown(f"{m}() of the elements is not modelled")
        elif e.kind == "call" and kind_(e.f) == "attr" and self.is_sorted(e.f[1]):
            m = e.f[2]
            if m in ("append", "pop"):
                self.sorted_ops.append((m, e.args[0] if e.args else None, len(self.changes)))
            elif m not in ("copy", "index", "__getitem__", "__len__"):
                raise Unknown(f"{m}() of the sorted keys is not modelled")
        elif e.kind in ("setitem", "delitem") and self.is_sorted(e.f):
            if e.kind == "delitem":
                self.sorted_ops.append(("del", e.args[0], len(self.changes)))
            else:
                raise Unknown("the sorted keys are changed in place")


def sorted_valid(st, q, label, rep):
    """The sorted keys are dropped or follow every change of the keys."""
    cs = [c for c in st.changes if c[0] not in ("keep",)]
    final = st.sorted
    none = known(q, final, NONE)
    if none is True or final == NONE:
        return
    last = st.sorted_ops[-1] if st.sorted_ops else None
    n = len(st.changes)
    later = [c for c in st.changes[last[2]:] if c[0] != "keep"] if last else cs
    if last and last[0] == "set":
        v = last[1]
        if _fresh_keys(v, st) and not later:
            return
        if isinstance(v, ListV) and v.items == [] and not later and _no_items(st, q):
            return
        if isinstance(v, ListV) and v.items is not None and len(v.items) == 1 and not later and _one_item(st, q, v.items[0]):
            return
        if _listed(v, st) and not later:
            ln = ("len", st.items)
            if any(q.le(x, C(1)) for x in (ln, ("len", ("ver", st.items, ("n", n))))) or _len_le1(st, q):
                return
            rep.viol("array-sorted", label, "the elements' indexes are taken in order of insertion as if they were sorted")
            return
        if _is_bisect_slice(v, st, q.ctx["args"][1]):
            if all(c[0] in ("removeloop", "map", "filter") for c in cs):
                return
        if v == st.S0 and not cs:
            return
        trunc = any(c[0] in ("removeloop", "filter") or c[0] == "map" for c in cs)
        if trunc and label.endswith(".resize"):
            if v == st.S0 or kind_(v) == "call" and v[1] == ("ext", "builtins.sorted"):
                rep.viol("array-sorted", label, "the sorted indexes keep those that are removed")
                return
            b = v[2][2] if kind_(v) == "idx" and slice_of(v[2]) else None
            if kind_(b) == "call" and str(b[1][1]).endswith(("bisect_left", "bisect_right", "bisect")) and b[2][0] == v[1]:
                rep.viol("array-sorted", label, f"the sorted indexes are cut at {show(b)[:90]}, not at the new length")
                return
        if isinstance(v, ListV) and v.items:
            if isinstance(st.items, DictV) and st.items.rest is None and [x for x in st.items.items] == list(v.items) and len(v.items) == 1:
                return
            rep.viol("array-sorted", label, f"the sorted keys are set to {show(v)}, which need not be the indexes that are set")
            return
        if isinstance(v, ListV) and v.items == []:
            rep.viol("array-sorted", label, "the sorted keys are set empty although elements may be set")
            return
        if later:
            rep.viol("array-sorted", label, "the sorted keys are renewed before the last change of the elements")
            return
        raise Unknown(f"sorted keys {show(v)} are not understood")
    ops = [o for o in st.sorted_ops if o[0] != "set"]
    if not cs and not ops:
        return
    if len(cs) == 1 and cs[0][0] == "add" and len(ops) == 1 and ops[0][0] == "append":
        k = cs[0][1]
        if not (ops[0][1] == k or q.same(ops[0][1], k)):
            rep.viol("array-sorted", label, f"{show(ops[0][1])} is added to the sorted keys for index {show(k)}")
            return
        ln = ("len", st.sorted)
        lasts = [t for t in _terms(q) if kind_(t) == "idx" and st.is_sorted(t[1]) and t[2] == C(-1)]
        if q.le(ln, C(0)) or q.le(lin_add(st.M0, C(1)), k) or any(q.le(lin_add(t, C(1)), k) for t in lasts):
            return
        rep.viol("array-sorted", label, "an index is added at the end of the sorted keys without being the greatest")
        return
    if len(cs) == 1 and cs[0][0] == "remove" and len(ops) == 1 and ops[0][0] in ("pop", "del"):
        if ops[0][1] in (None, C(-1)):
            k = cs[0][1]
            lasts = [t for t in _terms(q) if kind_(t) == "idx" and st.is_sorted(t[1]) and t[2] == C(-1)]
            if any(q.atoms.get(("eq", t, k)) or q.atoms.get(("eq", k, t)) or q.same(t, k) for t in lasts):
                return
        rep.viol("array-sorted", label, "a key is removed from the end of the sorted keys without being the one removed")
        return
    if cs and not ops and known(q, st.S0, NONE) is not True:
        rep.viol("array-sorted", label, "the indexes set change but the cached sorted indexes are kept")
        return
    if ops and not cs:
        rep.viol("array-sorted", label, "the sorted indexes change although the elements do not")
        return
    if cs or ops:
        raise Unknown("how the sorted keys follow the elements is not understood")


def _terms(q):
    seen = set()
    from .terms import subterms
    for a in list(q.atoms) + list(q.ivals) + list(q.excl) + list(q.doms):
        if isinstance(a, tuple):
            for t in subterms(a):
                if isinstance(t, tuple) and t not in seen:
                    seen.add(t)
                    yield t
    for L in q.ivals:
        for t in L:
            if isinstance(t, tuple) and len(t) == 2 and isinstance(t[0], tuple) and t[0] not in seen:
                seen.add(t[0])
                yield t[0]


def _fresh_keys(v, st):
    return kind_(v) == "call" and v[1] == ("ext", "builtins.sorted") and v[2] and st.is_items(v[2][0]) or \
        kind_(v) == "call" and v[1] == ("ext", "builtins.sorted") and v[2] and (v[2][0] is st.items)


def _listed(v, st):
    return kind_(v) == "call" and v[1] == ("ext", "builtins.list") and len(v[2]) == 1 and (st.is_items(v[2][0]) or v[2][0] is st.items) or \
        kind_(v) == "iterwrap" and st.is_items(v[1])


def _len_le1(st, q):
    for t in _terms(q):
        if kind_(t) == "len":
            b = t[1]
            while kind_(b) == "ver":
                b = b[1]
            if (b is st.items or b == st.items or b == ("sym", repr(st.items)) or _root_list(b, st.me, "_items") and not _is_new(st.items)) and q.le(t, C(1)):
                return True
    return isinstance(st.items, DictV) and st.items.rest is None and len(st.items.items) <= 1


def _no_items(st, q):
    if isinstance(st.items, DictV):
        return st.items.rest is None and not st.items.items
    return any(kind_(t) == "len" and _root_list(t[1], st.me, "_items") and q.le(t, C(0)) for t in _terms(q))


def _one_item(st, q, k):
    if isinstance(st.items, DictV):
        return st.items.rest is None and list(st.items.items) == [k]
    if not any(c[0] == "add" and (c[1] == k or q.same(c[1], k)) for c in st.changes):
        return False
    for t in _terms(q):
        if kind_(t) == "len":
            b = t[1]
            while kind_(b) == "ver":
                b = b[1]
            if _root_list(b, st.me, "_items") and q.le(t, C(1)) and t[1] != b:
                return True
    return False


def _is_bisect_slice(v, st, n):
    """keys[:bisect_left(keys, n)] of valid sorted keys."""
    if kind_(v) != "idx" or not slice_of(v[2]) or v[2][1] not in (NONE, C(0)):
        return False
    b = v[2][2]
    base = v[1]
    if kind_(b) != "call" or not str(b[1][1]).endswith("bisect_left") or b[2][0] != base or b[2][1] != n:
        return False
    return base == st.S0 or _fresh_keys(base, st) or kind_(base) == "call" and base[1] == ("ext", "builtins.sorted")


def loop_key_parts(t):
    """(key term, value term) of an (key, value) pair taken from the elements."""
    return None


def check_sparse(p, rep):
    rep.rule("sparse array storage: elements never hold holes and lie inside the length; the cached sorted indexes are dropped "
             "or follow every change; inserting and deleting shift exactly the later elements by one")
    hole = hole_of(p)
    ops = {"__setitem__": [sym("i", "int"), sym("v")], "__delitem__": [sym("i", "int")], "insert": [sym("i", "int"), sym("v")],
           "append": [sym("v")], "resize": [sym("n", "int")], "_get_sorted_keys": []}
    for mn, args in ops.items():
        if mn == "_get_sorted_keys" and p.find_method(p.cls("SparseArrayProperties"), mn) is None:
            continue
        ps, ip = method_paths(p, "SparseArrayProperties", mn, args)
        rep.use(ps, ip)
        for q in ps:
            me = q.ctx["args"][0]
            n0 = lin_add(("attr", me, "_max_index"), C(1))
            if q.outcome != "return":
                _index_error(p, rep, q, "SparseArrayProperties", mn, n0)
                continue
            rep.ob("array operations decided")
            label = f"SparseArrayProperties.{mn}"
            try:
                st = Sparse(q, hole)
                sorted_valid(st, q, label, rep)
                _sparse_path(rep, q, st, mn, label, n0, hole)
            except Unknown as e:
                rep.undecided.append(f"{label}: {e}")
    rep.at_least("array operations decided", 20)


def _pairs(c):
    for kv in c:
        if kind_(kv) == "tup" and len(kv[1]) == 2:
            yield kv[1]


def _source_key(t):
    """The loop's key when t derives from it."""
    for x in ([t] if kind_(t) != "lin" else [y for y, _ in t[1]]):
        if kind_(x) == "elem":
            return x
    return None


def _shift(rep, q, st, label, i, kind):
    for ch in st.changes:
        if ch[0] != "map":
            continue
        for newk, newv in _pairs(ch[1]):
            K = _source_key(newk)
            if K is None:
                raise Unknown(f"the new index {show(newk)} is not understood")
            if not (kind_(newv) == "elem" and newv[:-1] == K[:-1] or kind_(newv) == "idx" and newv[2] == K):
                rep.viol("array-shift", label, f"the element kept at {show(newk)} is not the one it belongs to")
            d = lin_add(newk, K, -1)
            gone = any(c[0] == "remove" and (c[1] == i or q.same(c[1], i)) for c in st.changes) or q.atoms.get(("eq", K, i)) is False \
                or q.atoms.get(("eq", i, K)) is False or any(
                    isinstance(a, tuple) and a[0] == "in" and not v and (a[1] == i or q.same(a[1], i)) and _root_list(a[2], st.me, "_items")
                    for a, v in q.atoms.items())
            if kind == "insert":
                want = 0 if q.le(lin_add(K, C(1)), i) else 1 if q.le(i, K) else None
            else:
                want = 0 if q.le(lin_add(K, C(1)), i) or gone and q.le(K, i) else -1 if q.le(lin_add(i, C(1)), K) or gone and q.le(i, K) else None
                if not gone and not q.le(lin_add(K, C(1)), i) and not q.le(lin_add(i, C(1)), K):
                    rep.viol("array-shift", label, "the deleted element is not removed")
                    continue
            if want is None or d != C(want):
                rep.viol("array-shift", label, f"an element at {show(K)} moves to {show(newk)}, although it is "
                         + ("before" if want == 0 else "after" if want else "before or after") + f" index {show(i)}")


def _sparse_path(rep, q, st, mn, label, n0, hole):
    me = st.me
    for k, v in st.stored:
        if nonhole(q, v, hole) != 1:
            rep.viol("array-hole", label, "a hole can be stored as an element, which is then counted")
    if mn == "_get_sorted_keys":
        if not (q.value == st.sorted or st.is_sorted(q.value)) and not _fresh_keys(q.value, st):
            rep.viol("array-sorted", label, "the indexes given out are not the sorted ones")
        return
    if mn == "resize":
        n = q.ctx["args"][1]
        rep.require(q.le(C(0), n) and q.le(n, C(MAXLEN)), "array-range", label, "a length outside 0 … 2**32-1 is accepted")
        rep.require(q.same(st.max, lin_add(n, C(-1))), "array-resize", label, f"the last index becomes {show(st.max)} for length {show(n)}")
        _truncated(rep, q, st, label, n)
        return
    if mn == "append":
        i, v = n0, q.ctx["args"][1]
        want = lin_add(st.M0, C(1))
        rep.require(q.same(st.max, want), "array-op", label, f"the last index becomes {show(st.max)} instead of {show(want)}")
        rep.require(q.le(n0, C(MAXLEN - 1)), "array-range", label, "the array can grow beyond 2**32-1 elements")
    else:
        a = q.ctx["args"][1]
        v = q.ctx["args"][2] if len(q.ctx["args"]) > 2 else None
        if q.le(C(0), a):
            i = a
        elif q.le(a, C(-1)):
            i = lin_add(a, n0)
        else:
            i = None
        if mn == "insert":
            if q.le(n0, a):
                i = n0
            elif i is a and not q.le(a, lin_add(n0, C(-1))):
                rep.viol("array-range", label, "an index beyond the end is inserted at that index")
            want = lin_add(st.M0, C(1))
            rep.require(q.le(n0, C(MAXLEN - 1)), "array-range", label, "the array can grow beyond 2**32-1 elements")
        else:
            want = lin_add(st.M0, C(-1)) if mn == "__delitem__" else st.M0
            if i is None or not (q.le(C(0), i) and q.le(i, st.M0)):
                rep.viol("array-range", label, "an index outside the array is accepted")
                return
        rep.require(q.same(st.max, want), "array-op", label, f"the last index becomes {show(st.max)} instead of {show(want)}")
    if mn in ("insert", "__delitem__"):
        if not any(c[0] == "map" for c in st.changes):
            raise Unknown("elements are not moved by a comprehension")
        _shift(rep, q, st, label, i, "insert" if mn == "insert" else "delete")
    isnt = nonhole(q, v, hole) if v is not None else None
    if mn == "__setitem__":
        has = q.atoms.get(("in", i, st.A))
        adds = [c[1] for c in st.changes if c[0] in ("add", "keep")]
        rem = [c[1] for c in st.changes if c[0] == "remove"]
        if isnt == 1:
            rep.require(any(k == i or q.same(k, i) for k in adds), "array-op", label, "the element is not set")
        elif isnt == 0:
            rep.require(any(k == i or q.same(k, i) for k in rem) or has is False, "array-op", label, "setting a hole does not remove the element")
        for k in adds + rem:
            rep.require(k == i or q.same(k, i), "array-index", label, f"index {show(k)} is used for index {show(i)}")
    elif mn in ("append", "insert"):
        adds = [c[1] for c in st.changes if c[0] == "add"]
        if isnt == 1:
            rep.require(len(adds) == 1 and q.same(adds[0], i), "array-op", label, f"the element is stored at {[show(a) for a in adds]} instead of {show(i)}")
        elif adds and isnt == 0:
            rep.viol("array-hole", label, "a hole is stored as an element")
    elif mn == "__delitem__":
        for c in st.changes:
            if c[0] == "remove":
                rep.require(c[1] == i or q.same(c[1], i), "array-index", label, f"index {show(c[1])} is removed instead of {show(i)}")
    if st.stored:
        vals = [x for _, x in st.stored]
        if v is not None and any(x != v for x in vals):
            rep.viol("array-op", label, "the value stored is not the one given")


def _truncated(rep, q, st, label, n):
    def beyond(it, hi):
        """it = keys[bisect_left(keys, n):] (hi) or keys[:bisect_left(keys, n)]"""
        t = it[1] if kind_(it) == "iterwrap" else it
        if kind_(t) != "idx" or not slice_of(t[2]):
            return None
        b = t[2][1] if hi else t[2][2]
        o = t[2][2] if hi else t[2][1]
        return kind_(b) == "call" and str(b[1][1]).endswith("bisect_left") and b[2][0] == t[1] and b[2][1] == n and o in (NONE, C(0))
    for c in st.changes:
        if c[0] == "removeloop":
            k = c[1]
            ok = kind_(k) == "elem" and beyond(k[1], True)
            if not ok and not (q.le(n, k) if kind_(k) in ("elem", "sym") else False):
                rep.viol("array-resize", label, f"the elements removed ({show(k)[:80]}) are not those at the new length and beyond")
        elif c[0] == "map":
            for newk, newv in _pairs(c[1]):
                ok = kind_(newk) == "elem" and beyond(newk[1], False) and (
                    kind_(newv) == "idx" and newv[2] == newk and _root_list(newv[1], st.me, "_items"))
                ok = ok or kind_(newk) == "elem" and q.le(newk, lin_add(n, C(-1))) and kind_(newv) == "elem" and newv[:-1] == newk[:-1]
                rep.require(ok, "array-resize", label, "the elements kept are not those below the new length")
        elif c[0] in ("add", "remove", "addloop"):
            rep.viol("array-resize", label, f"resizing sets or removes index {show(c[1])}")
    if not st.changes and not any(lp.get("iter") is not None and beyond(lp["iter"], True) for lp in q.loops.values()):
        if not q.le(n0_of(st), n):
            if not any(isinstance(a, tuple) and _of_items(a, st.me) or any(x == ("attr", st.me, "_sorted_keys") for x in _sub_terms(a))
                       for a in [*q.atoms, *q.ivals, *q.doms]) and not q.loops:
                rep.viol("array-resize", label, "elements at or beyond the new length can be kept")
                return
            raise Unknown("no element is removed")


def _sub_terms(t):
    from .terms import subterms
    return subterms(t) if isinstance(t, tuple) else ()


def n0_of(st):
    return lin_add(st.M0, C(1))


# ------------------------------------------------------------------ reading
def check_array_reads(p, rep):
    rep.rule("reading: an index inside the array gives its element or a hole, one outside raises IndexError; the length counts holes; "
             "the number of elements does not; indexes are given in the order asked for; equal contents make arrays equal")
    hole = hole_of(p)
    for cn in ("DenseArrayProperties", "SparseArrayProperties"):
        ps, ip = method_paths(p, cn, "__getitem__", [sym("i", "int")])
        rep.use(ps, ip)
        for q in ps:
            me = q.ctx["args"][0]
            A, i = ("attr", me, "_items"), q.ctx["args"][1]
            n = ("len", A) if cn[0] == "D" else lin_add(("attr", me, "_max_index"), C(1))
            rep.ob("array reads decided")
            label = f"{cn}.__getitem__"
            if q.outcome == "raise":
                _index_error(p, rep, q, cn, "__getitem__", n)
                continue
            r = q.value
            if cn[0] == "D":
                ok = kind_(r) == "idx" and _root_list(r[1], me, "_items") and same_index(q, me, r[2], i)
            else:
                at = i if q.le(C(0), i) else lin_add(i, n) if q.le(i, C(-1)) else None
                inside = at is not None and q.le(C(0), at) and q.le(at, ("attr", me, "_max_index"))
                rep.require(inside, "array-range", label, "an index outside the array is accepted")
                if at is None:
                    continue
                ok = kind_(r) == "call" and kind_(r[1]) == "attr" and r[1][2] == "get" and _root_list(r[1][1], me, "_items") \
                    and len(r[2]) == 2 and q.same(r[2][0], at) and r[2][1] == hole
                ok = ok or kind_(r) == "idx" and _root_list(r[1], me, "_items") and q.same(r[2], at) and any(
                    isinstance(a, tuple) and a[0] == "in" and a[2] == A and q.same(a[1], at) and v for a, v in q.atoms.items())
                ok = ok or r == hole and any(isinstance(a, tuple) and a[0] == "in" and a[2] == A and q.same(a[1], at) and not v
                                             for a, v in q.atoms.items())
            rep.require(ok, "array-read", label, f"index {show(i)} gives {show(r)}")
        for mn, want in (("__len__", lambda me: ("len", ("attr", me, "_items")) if cn[0] == "D" else lin_add(("attr", me, "_max_index"), C(1))),
                         ("elements_used", lambda me: ("attr", me, "_elements_used") if cn[0] == "D" else ("len", ("attr", me, "_items")))):
            ps, ip = method_paths(p, cn, mn, [])
            rep.use(ps, ip)
            for q in ps:
                rep.ob("array reads decided")
                w = want(q.ctx["args"][0])
                rep.require(q.outcome == "return" and (q.value == w or q.same(q.value, w)), "array-read", f"{cn}.{mn}",
                            f"gives {show(q.value) if q.outcome == 'return' else q.exc_name()} instead of {show(w)}")
        order = ("sym", "order", "obj")
        en = p.cls("Order")
        ps, ip = method_paths(p, cn, "element_indexes", [], {"order": order})
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "return":
                rep.viol("array-read", f"{cn}.element_indexes", f"raises {q.exc_name()}")
                continue
            rep.ob("array reads decided")
            _order(rep, q, ip, cn, en, order, hole)
        _generated_order(p, rep, cn, en, hole)
    rep.at_least("array reads decided", 15)


def _order(rep, q, ip, cn, en, order, hole):
    label = f"{cn}.element_indexes"
    me = q.ctx["args"][0]
    desc = known(q, order, ("enum", en.qual, "DESCENDING"))
    unord = known(q, order, ("enum", en.qual, "UNORDERED"))
    r = q.value
    if isinstance(r, (GenExp, GenV)):
        return
    core = r
    back = False
    while True:
        if kind_(core) == "iterwrap":
            core = core[1]
        elif kind_(core) == "call" and core[1] == ("ext", "builtins.reversed"):
            core, back = core[2][0], not back
        elif kind_(core) == "call" and core[1] in (("ext", "builtins.iter"), ("ext", "builtins.list")):
            core = core[2][0]
        else:
            break
    if unord is True:
        return
    S = ("attr", me, "_sorted_keys")
    if kind_(core) == "call" and core[1] == ("ext", "builtins.sorted") and dict(core[3]).keys() == {"reverse"} and is_c(dict(core[3])["reverse"]):
        back ^= bool(dict(core[3])["reverse"][2])
        core = core[:3] + ((),) + core[4:]
    ok = kind_(core) == "call" and core[1] == ("ext", "builtins.sorted") and _root_list(core[2][0], me, "_items") and not core[3] \
        or core == S and known(q, S, NONE) is False
    if not ok and not _of_items(core, me) and core != S:
        rep.undecided.append(f"{label}: gives {show(core)}")
    elif not ok:
        rep.viol("array-order", label, f"ordered indexes are taken from {show(core)}, which is not sorted")
    elif desc is None:
        rep.viol("array-order", label, "descending order is not treated differently from ascending order")
    elif desc != back:
        rep.viol("array-order", label, f"the indexes come {'backwards' if back else 'forwards'} for {'descending' if desc else 'ascending'} order")


def _generated_order(p, rep, cn, en, hole):
    """Indexes produced by a loop over the elements: exactly those that are not holes, in the order asked for."""
    label = f"{cn}.element_indexes"
    order = ("sym", "order", "obj")
    ps, ip = iterated(p, cn, "o.element_indexes(order=order)", ArrayConfig(), {"order": order})
    rep.use(ps, ip)
    for q in ps:
        me = q.ctx["args"][0]
        if q.outcome != "return" or not looped(q):
            continue
        desc = known(q, order, ("enum", en.qual, "DESCENDING"))
        unord = known(q, order, ("enum", en.qual, "UNORDERED"))
        src = looped(q)[0]
        back, enum, rng = False, False, None
        while kind_(src) == "call" and src[1] in (("ext", "builtins.reversed"), ("ext", "builtins.enumerate")):
            if src[1][1] == "builtins.reversed":
                back = not back
            else:
                enum = True
                if len(src[2]) > 1 or src[3]:
                    rep.undecided.append(f"{label}: iterates {show(src)}")
                    return
            src = src[2][0]
        if kind_(src) == "call" and src[1] == ("ext", "builtins.range"):
            rng = src
        elif not (enum and _root_list(src, me, "_items")):
            if not (src == ("attr", me, "_sorted_keys") or kind_(src) == "call" and src[1] == ("ext", "builtins.sorted") or _root_list(src, me, "_items")):
                rep.undecided.append(f"{label}: iterates {show(src)}")
            continue  # decided from the value itself
        rep.ob("array reads decided")
        n = ("len", ("attr", me, "_items"))
        if len(looped(q)) != 1:
            rep.undecided.append(f"{label}: several loops")
            return
        key = next(k for k, lp in q.loops.items() if lp["entered"])
        elems = [t for t in [*q.doms, *q.excl] if kind_(t) in ("elem", "idx") and _of_items(t, me) and nonhole(q, t, hole) is not None]
        if len(elems) != 1:
            rep.viol("array-order", label, "holes are not told apart") if sunk(q) else rep.undecided.append(f"{label}: not understood")
            continue
        el = elems[0]
        if kind_(el) == "idx":
            at = el[2]
        else:
            i = next((t for t in _loop_vars(q, key) if kind_(t) == "sym" and t[1].startswith("n@")), None)
            if i is None:
                rep.undecided.append(f"{label}: not understood")
                continue
            at = lin_add(lin_add(n, i, -1), C(-1)) if back else i
        if rng is not None:
            a = rng[2]
            lo, hi, st = (C(0), a[0], C(1)) if len(a) == 1 else (a[0], a[1], a[2] if len(a) > 2 else C(1))
            fwd = q.same(lo, C(0)) and q.same(hi, n) and st == C(1)
            bwd = q.same(lo, lin_add(n, C(-1))) and q.same(hi, C(-1)) and st == C(-1)
            if back:
                fwd, bwd = bwd, fwd
            if not fwd and not bwd:
                rep.viol("array-order", label, f"the indexes looked at are {show(rng)}")
                continue
            back = bwd
        got = sunk(q)
        if nonhole(q, el, hole):
            rep.require(len(got) == 1 and q.same(got[0], at), "array-order", label, f"gives {show(got[0]) if got else 'nothing'} for the element at {show(at)}")
        else:
            rep.require(not got, "array-order", label, "the index of a hole is given")
        if unord is not True:
            if desc is None:
                rep.viol("array-order", label, "descending order is not treated differently from ascending order")
            elif desc != back:
                rep.viol("array-order", label, f"the indexes come {'backwards' if back else 'forwards'} for {'descending' if desc else 'ascending'} order")


def _of_items(t, me):
    from .terms import subterms
    return any(_root_list(x, me, "_items") for x in subterms(t))


def _loop_vars(q, key):
    from .terms import subterms
    for v in list(q.loops[key]["init"].values()) + sunk(q):
        if isinstance(v, tuple):
            yield from subterms(v)


# ------------------------------------------------------------------ creating
def _dict_of(q, t):
    return isinstance(t, DictV)


def check_array_init(p, rep):
    rep.rule("creating: a dense array counts each non-hole it takes; a sparse array keeps each entry inside its length, no hole, and "
             "indexes that are sorted; one made from values has their length")
    hole = hole_of(p)
    ps, ip = method_paths(p, "DenseArrayProperties", "__init__", [sym("values")])
    rep.use(ps, ip)
    for q in ps:
        rep.ob("array creations decided")
        if q.outcome == "return":
            try:
                _dense_init(rep, q, hole)
            except Unknown as e:
                rep.undecided.append(f"DenseArrayProperties.__init__: {e}")
    for kind, args, kw in (("values", [sym("values")], {}), ("entries", [], {"entries": sym("entries")}),
                           ("length", [], {"entries": sym("entries"), "length": sym("length", "int")})):
        ps, ip = method_paths(p, "SparseArrayProperties", "__init__", args, kw)
        rep.use(ps, ip)
        for q in ps:
            rep.ob("array creations decided")
            try:
                _sparse_init(rep, q, hole, kind)
            except Unknown as e:
                rep.undecided.append(f"SparseArrayProperties.__init__: {e}")
    rep.at_least("array creations decided", 12)


def _last_set(q, me):
    out = {}
    for e in q.events:
        if e.kind == "setattr" and kind_(e.f) == "attr" and e.f[1] == me:
            out[e.f[2]] = e.args[0]
    return out


def _dense_init(rep, q, hole):
    label = "DenseArrayProperties.__init__"
    me = q.ctx["args"][0]
    fin = _last_set(q, me)
    L, used = fin.get("_items"), fin.get("_elements_used")
    if not isinstance(L, ListV) or used is None:
        raise Unknown("the list is not built here")
    if L.items is not None:
        n = [nonhole(q, x, hole) for x in L.items]
        if None in n or not is_c(used):
            raise Unknown("the count is not understood")
        rep.require(used == C(sum(n)), "array-count", label, f"{sum(n)} elements are counted as {show(used)}")
        return
    apps = [e for e in q.events if e.kind == "call" and kind_(e.f) == "attr" and e.f[1] is L]
    if any(e.f[2] != "append" for e in apps):
        raise Unknown("the list is not built by appending")
    per = [nonhole(q, e.args[0], hole) for e in apps]
    if used == ("len", L) or kind_(used) == "len":
        rep.require(all(x == 1 for x in per), "array-count", label, "holes are counted as elements")
        return
    lp = next((lp for lp in q.loops.values() for k, v in lp["end"].items() if kind_(used) == "lv" and used[1] == lp["key"] and
               f"{k[1]}@{k[0]}" == used[2]), None)
    if lp is None:
        if is_c(used) and used == C(0):
            rep.require(all(x == 0 for x in per), "array-count", label, "elements are not counted")
            return
        raise Unknown("the count is not understood")
    k = next(k for k in lp["end"] if f"{k[1]}@{k[0]}" == used[2])
    d = lin_add(lp["end"][k], ("lv", used[1], used[2], "in"), -1)
    if None in per:
        rep.viol("array-count", label, f"the count grows by {show(d)} whether or not the element is a hole")
        return
    rep.require(d == C(sum(per)) and lp["init"].get(k) == C(0), "array-count", label,
                f"the count starts at {show(lp['init'].get(k))} and grows by {show(d)} for {sum(per)} elements")
    rep.require(len(apps) == 1 and kind_(apps[0].args[0]) == "elem", "array-op", label, "a value is not appended as it is")


def _base(t):
    while kind_(t) == "ver":
        t = t[1]
    return t


def _sparse_init(rep, q, hole, kind):
    label = "SparseArrayProperties.__init__"
    me = q.ctx["args"][0]
    fin = _last_set(q, me)
    if q.outcome == "raise":
        if kind == "values" and q.exc_name() == "IndexError":
            rep.viol("array-range", label, "values can be refused because of their index")
        elif kind == "length" and q.exc_name() == "ValueError":
            n = ("sym", "length", "int")
            rep.require(q.le(n, C(-1)) or q.le(C(MAXLEN + 1), n), "array-range", label, "a length that is allowed is refused")
        return
    D, keys, top = fin.get("_items"), fin.get("_sorted_keys"), fin.get("_max_index")
    if keys is None or top is None or not isinstance(D, DictV):
        raise Unknown("the parts of the array are not set here")
    stores = [e for e in q.events if e.kind == "setitem" and e.f is D]
    later = False
    order = [e for e in q.events if e.kind == "setattr" and e.f == ("attr", me, "_sorted_keys")]
    if order and stores:
        later = q.events.index(order[-1]) < max(q.events.index(e) for e in stores)
    src = D.rest is not None and not stores  # dict(entries)
    if kind == "length":
        n = ("sym", "length", "int")
        rep.require(q.le(C(0), n) and q.le(n, C(MAXLEN)), "array-range", label, "a length outside 0 … 2**32-1 is accepted")
        rep.require(q.same(top, lin_add(n, C(-1))), "array-op", label, f"the last index is {show(top)} for length {show(n)}")
    elif kind == "values":
        lens = [t for t in _linterms(top) if kind_(t) == "len"]
        rep.require(len(lens) == 1 and q.same(top, lin_add(lens[0], C(-1))) and not isinstance(lens[0][1], DictV), "array-op", label,
                    f"the last index is {show(top)} instead of that of the last value")
    for e in stores:
        k, v = e.args
        if not q.le(C(0), k):
            rep.viol("array-range", label, f"a negative index can be stored ({show(k)[:60]})")
        if kind != "entries" and not q.le(k, top):
            rep.viol("array-range", label, "an index beyond the length can be stored")
        if kind == "values":
            rep.require(nonhole(q, v, hole) == 1, "array-hole", label, "a hole can be stored as an element")
            rep.require(kind_(v) == "elem" and kind_(k) == "sym" and v[2] in k, "array-op", label,
                        f"{show(v)[:60]} is stored at {show(k)[:60]}")
    if kind == "values" and not stores:
        for t in list(q.excl):
            if kind_(t) == "elem" and nonhole(q, t, hole) == 1 and any(lp["key"] in t for lp in q.loops.values()):
                ctr = [c for c in _terms(q) if kind_(c) == "sym" and str(c[1]).startswith("n@") and t[2] in c]
                if not any(q.le(lin_add(top, C(1)), c) for c in ctr):
                    rep.viol("array-op", label, "a value is left out")
    empty = isinstance(D, DictV) and D.rest is None and not D.items
    if keys != NONE:
        if isinstance(keys, ListV) and keys.items == [] and empty:
            pass
        elif kind_(keys) == "call" and keys[1] == ("ext", "builtins.sorted") and keys[2][0] is D and not keys[3]:
            rep.require(not later, "array-sorted", label, "the sorted indexes are computed before the last element is stored")
        elif kind_(keys) in ("call", "iterwrap") and (keys[2][0] is D if kind_(keys) == "call" and keys[2] else keys[1] is D):
            small = any(kind_(t) == "len" and _base(t[1]) in (D, ("sym", repr(D))) and q.le(t, C(1)) for t in _terms(q))
            rep.require(small and not later, "array-sorted", label,
                        "the elements' indexes are taken in order of insertion as if they were sorted")
        elif isinstance(keys, ListV) and keys.items is not None:
            rep.viol("array-sorted", label, f"the sorted indexes are {show(keys)} whatever the elements")
        else:
            raise Unknown(f"sorted keys {show(keys)} are not understood")
    if kind == "entries":
        if not (kind_(keys) == "call" and keys[1] == ("ext", "builtins.sorted")):
            raise Unknown("the greatest index is not taken from the sorted indexes")
        if q.atoms.get(("truthy", keys)) is False or q.le(("len", keys), C(0)):
            rep.require(top == C(-1), "array-op", label, f"the last index of an empty array is {show(top)}")
            return
        first, last = ("idx", keys, C(0)), ("idx", keys, C(-1))
        rep.require(q.same(top, last), "array-op", label, f"the last index is {show(top)} instead of the greatest")
        rep.require(q.le(C(0), first) and q.le(last, C(MAXLEN - 1)), "array-range", label, "indexes outside 0 … 2**32-2 are accepted")


# ------------------------------------------------------------------ equality
def check_array_eq(p, rep):
    rep.rule("arrays are equal exactly when they have the same length, the same number of elements, and each element of one equals "
             "the other's at its index")
    owners = {}
    for cn in ("DenseArrayProperties", "SparseArrayProperties"):
        f = p.find_method(p.cls(cn), "__eq__")
        if f is None:
            raise AnalysisError(f"{cn}.__eq__ not found")
        owners[f.cls.name if f.cls is not None else cn] = 1
    for cn in owners:
        other = sym("other")
        ps, ip = method_paths(p, cn, "__eq__", [other])
        rep.use(ps, ip)
        label = f"{cn}.__eq__"
        lens = used = differs = 0
        for q in ps:
            if q.outcome != "return":
                continue
            rep.ob("array comparisons decided")
            me = q.ctx["args"][0]
            ident = q.atoms.get(("is", other, me)) or q.atoms.get(("is", me, other))
            if kind_(q.value) == "ext" or q.value == ("ext", "NotImplemented"):
                continue
            if not is_c(q.value):
                rep.undecided.append(f"{label}: gives {show(q.value)}")
                continue
            eqs = [(a, v) for a, v in q.atoms.items() if isinstance(a, tuple) and a[0] == "eq"]
            elems = [(a, v) for a, v in eqs if _same_element(a[1], a[2], me, other)]
            n = any(isinstance(a, tuple) and a[0] == "eq0" and v is False and _about_len(a, me, other) for a, v in q.atoms.items())
            u = any(v is False and "elements_used" in show(a) for a, v in eqs)
            if q.value == C(True) or q.value[2] is True:
                if ident:
                    continue
                if not any(v for a, v in q.atoms.items() if isinstance(a, tuple) and a[0] == "isinstance" and a[1] == other):
                    rep.viol("array-eq", label, "equal to anything")
                    continue
                same_len = q.same(_ln(me), _ln(other)) or any(
                    isinstance(a, tuple) and a[0] == "eq0" and v is True and _about_len(a, me, other) for a, v in q.atoms.items())
                rep.require(same_len, "array-eq", label, "arrays of different lengths can be equal")
                if any(lp.get("iter") is not None for lp in q.loops.values()) and any(e.kind == "loop" for e in q.events):
                    rep.require(any(v for a, v in elems), "array-eq", label, "elements are not compared with those at the same index")
                its = [lp["iter"] for lp in q.loops.values() if lp.get("iter") is not None]
                if not its:
                    rep.undecided.append(f"{label}: how the elements are compared is not understood")
                    continue
                whole = any("range" in show(it) for it in its)
                if not whole:
                    rep.require(any(v is True and "elements_used" in show(a) for a, v in eqs), "array-eq", label,
                                "an array with more elements can be equal")
            elif q.value[2] is False:
                notarr = any(v is False for a, v in q.atoms.items() if isinstance(a, tuple) and a[0] == "isinstance" and a[1] == other)
                why = n or u or notarr or any(not v for a, v in elems)
                rep.require(why, "array-eq", label, "arrays with equal contents can be unequal")
                differs += 1
        rep.require(differs > 0, "array-eq", label, "never unequal")
    rep.at_least("array comparisons decided", 5)


def _ln(o):
    return ("len", o)


def _about_len(a, me, other):
    s = [t for t, _ in a[1]]
    return len(s) == 2 and any(kind_(t) == "len" and t[1] == other for t in s)


def _same_element(x, y, me, other):
    def at(t, o):
        return t[2] if kind_(t) == "idx" and t[1] == o else None
    for a, b in ((x, y), (y, x)):
        i, j = at(a, other), at(b, me)
        if i is not None and i == j:
            return True
        if i is not None and kind_(b) in ("idx", "call", "elem"):
            return i in b if isinstance(b, tuple) and kind_(b) == "idx" else kind_(b) == "call" and b[2] and b[2][0] == i
    return False
