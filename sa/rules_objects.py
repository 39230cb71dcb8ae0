"""JavaScript objects, maps and sets: key normalisation, storage and equality."""

from __future__ import annotations

from .fn import FnConfig, fn_paths, iterated, looped, sunk
from .interp import kind_
from .project import AnalysisError
from .rules_arrays import MAXLEN, hole_of, known, nonhole, sym
from .terms import C, NONE, DictV, ListV, Obj, is_c, lin_add, show

ARRAYS = ("DenseArrayProperties", "SparseArrayProperties")
STR, INT = ("sym", "k", "str"), ("sym", "k", "nat")


LOOKUP = [("ext", "builtins." + n) for n in ("KeyError", "IndexError", "LookupError", "Exception")]


def _lookup_raises(ip, f):
    """A lookup with a key that is not known to be present fails where a handler is waiting for that."""
    if kind_(f) == "idx" and not is_c(f[2]) and kind_(f[1]) == "attr":
        base, key = f[1], f[2]
    elif kind_(f) == "attr" and f[2] == "__delitem__" and kind_(f[1]) == "attr":
        return LOOKUP
    else:
        return False
    return False if ip.atoms.get(("in", key, base)) is True else LOOKUP


class ObjectConfig(FnConfig):
    """Methods of JSObject with the normalised key as a symbol and the array storage opaque."""

    def __init__(self, p):
        super().__init__()
        self.norm = [p.func("_normalise_property_key.normalise_property_key").qual]

    def on_call(self, ip, f, args, kwargs, node, frame):
        if kind_(f) == "fn" and f[1] in self.norm and len(args) == 1:
            if args[0] in (STR, INT):
                return args[0]
            if args[0] != ("sym", "key", "obj"):
                return NotImplemented
            if ip.split(("string key", args[0])):
                return STR
            ip.assume_le0(lin_add(INT, C(1 - MAXLEN)), True)
            return INT
        return NotImplemented

    def may_raise(self, ip, f):
        return _lookup_raises(ip, f)

    def opaque_class(self, cls):
        return cls.name in ARRAYS


def object_paths(p, cn, mn, args, kw=None, cfg=None):
    c = p.cls(cn)
    f = p.find_method(c, mn)
    if f is None:
        raise AnalysisError(f"{cn}.{mn} not found")

    def mk(ip):
        o = ip.new_obj(c)
        o.symbolic, o.name = True, "self"
        return [o, *args], dict(kw or {})
    return fn_paths(p, f, mk, cfg or ObjectConfig(p))


class KeyedConfig(FnConfig):
    """Methods of JSMap and JSSet with same-value-zero keys as opaque terms."""

    def __init__(self, p):
        super().__init__()
        self.svz = p.func("_equality.same_value_zero").qual

    def may_raise(self, ip, f):
        return _lookup_raises(ip, f)

    def on_call(self, ip, f, args, kwargs, node, frame):
        if kind_(f) == "fn" and f[1] == self.svz and len(args) == 1:
            return ("call", ("ext", "same_value_zero"), (ip.value_of(args[0]),), (), 0)
        return NotImplemented


def keyed_paths(p, cn, mn, args, kw=None):
    return object_paths(p, cn, mn, args, kw, KeyedConfig(p))


def calls_on(q, base):
    return [e for e in q.events if e.kind in ("call", "raised") and kind_(e.f) == "attr" and e.f[1] == base]


def _unint(t):
    while kind_(t) == "call" and t[1] == ("ext", "builtins.int") and len(t[2]) == 1:
        t = t[2][0]
    return t


# ------------------------------------------------------------------ property keys
def check_property_keys(p, rep):
    rep.rule("a property key is an integer exactly when it is the canonical decimal form of 0 … 2**32-2, or an integral number in "
             "that range; every other key is a string")
    f = p.func("_normalise_property_key.normalise_property_key")
    key = ("sym", "key", "any")
    ps, ip = fn_paths(p, f, lambda ip: ([key], {}))
    rep.use(ps, ip)
    ints = 0
    for q in ps:
        if q.outcome != "return":
            rep.viol("property-key", "normalise_property_key", f"raises {q.exc_name()}")
            continue
        rep.ob("key normalisations decided")
        if q.doms.get(key) == frozenset([NONE]):
            continue
        try:
            bad = _key_path(q, key)
        except AnalysisError as e:
            rep.undecided.append(f"normalise_property_key: {e}")
            continue
        ints += kind_(q.value) != "sym" and known(q, q.value, NONE) is False
        odd = bad and _unknown_facts(q, key)
        if odd:
            rep.undecided.append(f"normalise_property_key: {show(odd)} is not understood")
        elif bad:
            rep.viol("property-key", "normalise_property_key", bad)
    rep.at_least("key normalisations decided", 8)
    for c, want in KEYS:
        ps, ip = fn_paths(p, f, lambda ip, c=c: ([C(c)], {}))
        rep.use(ps, ip)
        for q in ps:
            rep.ob("constant keys folded")
            if q.outcome != "return":
                rep.viol("property-key", "normalise_property_key", f"raises {q.exc_name()} for the key {c!r}")
            elif is_c(q.value) and q.value != C(want):
                rep.viol("property-key", "normalise_property_key", f"gives {show(q.value)} for the key {c!r}")


KEYS = [("0", 0), ("1", 1), ("9", 9), ("10", 10), ("100", 100), ("4294967294", 2**32 - 2), ("4294967295", "4294967295"), ("4294967296", "4294967296"),
        ("9999999999", "9999999999"), ("10000000000", "10000000000"), ("00", "00"), ("01", "01"), ("007", "007"), ("-0", "-0"), ("-1", "-1"),
        ("+1", "+1"), (" 1", " 1"), ("1 ", "1 "), ("1_0", "1_0"), ("1.0", "1.0"), ("1e3", "1e3"), ("0x1", "0x1"), ("", ""), ("a", "a"),
        ("\u0663", "\u0663"), ("\u00b2", "\u00b2"), ("\uff11", "\uff11"), ("1\n", "1\n"), ("0000000000000", "0000000000000"),
        (0, 0), (1, 1), (2**32 - 2, 2**32 - 2), (2**32 - 1, "4294967295"), (2**32, "4294967296"), (-1, "-1"),
        (0.0, 0), (-0.0, 0), (1.0, 1), (1.5, "1.5"), (-1.0, "-1"), (4294967294.0, 4294967294), (4294967295.0, "4294967295"), (4294967294.5, "4294967294.5")]


def _truth(q, key, m):
    return q.atoms.get(("truthy", ("call", ("attr", key, m), (), (), 0)))


def _isinst(q, t, n):
    return q.atoms.get(("isinstance", t, ("cls", n)))


def _in_range(q, cands):
    """True / False / None: is the number in 0 … 2**32-2?"""
    if any(q.le(C(0), t) for t in cands) and any(q.le(t, C(MAXLEN - 1)) for t in cands):
        return True
    if any(q.le(t, C(-1)) or q.le(C(MAXLEN), t) for t in cands):
        return False
    return None


KNOWN_TESTS = ("isdecimal", "isdigit", "isascii", "isnumeric", "startswith", "is_integer")


def _unknown_facts(q, key):
    """A fact about the key that the rules below take no account of."""
    for a in q.atoms:
        if not isinstance(a, tuple) or a[0] in ("isinstance", "le0", "eq0", "is") or key not in _sub(a):
            continue
        t = a[1]
        if a[0] == "truthy" and kind_(t) == "call" and kind_(t[1]) == "attr" and t[1][1] == key and t[1][2] in KNOWN_TESTS:
            continue
        if a[0] == "eq" and all(_plain(x, key) for x in a[1:3]):
            continue
        return a
    return None


def _plain(t, key):
    if is_c(t) or t == key or t == ("idx", key, C(0)):
        return True
    return kind_(t) == "call" and t[1] in (("ext", "builtins.str"), ("ext", "builtins.int"), ("ext", "builtins.float")) and len(t[2]) == 1 and _plain(t[2][0], key)


def _key_path(q, key):
    v = q.value
    n1 = ("call", ("ext", "builtins.int"), (key,), (), 0)
    n2 = ("call", ("ext", "builtins.int"), (n1,), (), 0)
    num = (n1, n2)
    if _isinst(q, key, "str"):
        first = ("idx", key, C(0))
        zero = C("0")
        starts0 = known(q, first, zero)
        is0 = known(q, key, zero)
        if starts0 is None:
            st = q.atoms.get(("truthy", ("call", ("attr", key, "startswith"), (zero,), (), 0)))
            starts0 = st
        digits = any(_truth(q, key, m) for m in ("isdecimal", "isdigit")) and _truth(q, key, "isascii")
        nodigits = any(_truth(q, key, m) is False for m in ("isdecimal", "isdigit", "isascii", "isnumeric"))
        back = ("call", ("ext", "builtins.str"), (n1,), (), 0)
        same = q.atoms.get(("eq", back, key), q.atoms.get(("eq", key, back)))
        if is0 is None and digits and q.le(("len", key), C(1)):
            starts0 = False  # a single digit needs no other test
        if is0 is None and q.le(C(2), ("len", key)):
            is0 = False
        other = nodigits or q.le(C(11), ("len", key)) or starts0 and is0 is False or same is False
        canon = digits and (starts0 is False or is0) or same and digits
        r = _in_range(q, num)
        if v == key:
            return None if other or r is False else "a string that may be an array index stays a string"
        inner = _unint(v)
        if inner == key and v != key or is0 and v == C(0):
            if not canon:
                return "a string that is not the canonical form of an integer becomes an integer"
            return None if r else "an integer beyond 2**32-2 is taken as an array index"
        if kind_(v) == "call" and v[1] == ("ext", "builtins.str"):
            if _unint(v[2][0]) == key:
                return None if canon else "a string changes although it is no array index" if v[2][0] != key else None
        raise AnalysisError(f"{show(v)} is not understood")
    if _isinst(q, key, "str") is None:
        raise AnalysisError("strings are not told apart by isinstance")
    isint = _isinst(q, key, "int")
    whole = isint or _truth(q, key, "is_integer") or q.atoms.get(("eq", n1, key)) or q.atoms.get(("eq", key, n1))
    r = _in_range(q, (key, *num))
    if kind_(v) == "call" and v[1] == ("ext", "builtins.str"):
        a = v[2][0]
        if r is True and whole:
            return "an integer inside the range becomes a string"
        if a == key:
            if isint or _truth(q, key, "is_integer") is False:
                return None if r is False or not isint else "an integer inside the range may become a string"
            return "an integral float keeps its decimal point in its string form"
        if _unint(a) == key:
            if not whole:
                return "a fractional key is truncated"
            return None if r is False else "an integer inside the range may become a string"
        raise AnalysisError(f"{show(v)} is not understood")
    if _unint(v) == key:
        if v == key and not isint:
            return "a float is returned as it is"
        if not whole:
            return "a fractional key is truncated"
        return None if r else "an integer outside 0 … 2**32-2 is taken as an array index"
    raise AnalysisError(f"{show(v)} is not understood")


# ------------------------------------------------------------------ objects
def check_object_storage(p, rep):
    rep.rule("an object keeps properties under normalised keys: integers in its array storage (grown first, never shifted), "
             "strings in its dictionary; reading, deleting, length and iteration agree with what was stored")
    hole = hole_of(p)
    key, value = sym("key"), sym("value")
    for mn, args in (("__getitem__", [key]), ("__setitem__", [key, value]), ("__delitem__", [key])):
        ps, ip = object_paths(p, "JSObject", mn, args)
        rep.use(ps, ip)
        for q in ps:
            rep.ob("object operations decided")
            try:
                _object_path(p, rep, q, mn, hole)
            except AnalysisError as e:
                rep.undecided.append(f"JSObject.{mn}: {e}")
    for mn in ("__contains__", "get", "pop", "popitem", "setdefault", "update", "clear", "keys", "items", "values"):
        for cn in ("JSObject", "JSArray"):
            f = p.find_method(p.cls(cn), mn)
            if f is not None and not getattr(f, "type_checking", False) and not _stub(f):
                if mn == "__contains__":
                    _object_contains(p, rep, cn, hole)
                    continue
                rep.undecided.append(f"{cn}.{mn} is defined in the package and not analysed")
    _object_whole(p, rep)
    rep.at_least("object operations decided", 20)


def _stub(f):
    import ast
    b = [s for s in f.node.body if not isinstance(s, ast.Expr)]
    return not b


def _props(q, me, t):
    return t == ("attr", me, "_properties")


def _object_path(p, rep, q, mn, hole):
    label = f"JSObject.{mn}"
    me, key = q.ctx["args"][0], q.ctx["args"][1]
    A, P = ("attr", me, "array"), ("attr", me, "_properties")
    isstr = q.atoms.get(("string key", key))
    k = STR if isstr else INT
    touched = [e for e in q.events if e.kind in ("setitem", "delitem") and e.args and e.args[0] == key]
    if isstr is None or touched:
        rep.viol("object-key", label, "the key is used without being normalised")
        return
    inside = q.le(lin_add(k, C(1)), ("len", A)) if not isstr else None
    beyond = q.le(("len", A), k) if not isstr else None
    has = q.atoms.get(("in", STR, P)) if isstr else None
    elem = ("idx", A, INT)
    isnt = nonhole(q, elem, hole)
    if not isstr and isnt is None:
        g = next((t for t in list(q.excl) + list(q.doms) if kind_(t) == "call" and kind_(t[1]) == "attr" and t[1][2] in ("get", "__getitem__") and A in _sub(t)), None)
        if g is not None:
            raise AnalysisError("the array is not read by index")
    if mn == "__getitem__":
        if q.outcome == "return":
            v = q.value
            if isstr:
                ok = v == ("idx", P, STR)
                if not ok and kind_(v) == "call" and kind_(v[1]) == "attr" and v[1][1] == P and v[2] and v[2][0] == STR:
                    raise AnalysisError("the property is not read by index")
                rep.require(ok, "object-read", label, f"a string key gives {show(v)}")
            else:
                rep.require(v == elem, "object-read", label, f"an integer key gives {show(v)}")
                rep.require(isnt == 1, "object-read", label, "a hole can be given out as a value")
                rep.require(inside, "object-read", label, "an index beyond the array is read")
            return
        name = q.exc_name()
        if name == "AssertionError":
            return
        if not (name in ("KeyError", "NormalizedKeyError") or "KeyError" in name):
            rep.viol("object-read", label, f"raises {name}")
            return
        tried = any(e.kind == "raised" for e in q.events)
        if isstr:
            rep.require(has is False or tried, "object-read", label, "a property that is set is reported missing")
        else:
            rep.require(beyond or isnt == 0 or tried, "object-read", label, "an element that is set is reported missing")
        return
    if mn == "__delitem__":
        if q.outcome == "raise":
            tried = any(e.kind == "raised" for e in q.events)
            if q.exc_name() == "AssertionError":
                return
            rep.require(has is False or tried if isstr else beyond or isnt == 0 or tried, "object-delete", label, "a key that is set is reported missing")
            return
        sets = [e for e in q.events if e.kind == "setitem" and e.f == A]
        dels = [e for e in q.events if e.kind == "delitem"]
        pops = [e for e in calls_on(q, P) if e.f[2] == "pop"]
        if isstr:
            ok = any(e.f == P and e.args[0] == STR for e in dels) or any(e.args[0] == STR for e in pops)
            rep.require(ok, "object-delete", label, "a string key is not removed")
            if pops and any(len(e.args) > 1 for e in pops) and has is not True:
                rep.viol("object-delete", label, "a missing key is not reported")
        else:
            if any(e.f == A for e in dels):
                rep.viol("object-delete", label, "deleting an element shifts those behind it")
                return
            rep.require(len(sets) == 1 and sets[0].args == (INT, hole) or len(sets) == 1 and list(sets[0].args) == [INT, hole],
                        "object-delete", label, "an element is not replaced with a hole")
            rep.require(isnt == 1, "object-delete", label, "deleting a missing element is not reported")
        return
    # __setitem__
    if q.outcome == "raise":
        if q.exc_name() != "AssertionError":
            rep.viol("object-write", label, f"raises {q.exc_name()}")
        return
    v = q.ctx["args"][2]
    isnt = nonhole(q, v, hole)
    psets = [e for e in q.events if e.kind == "setitem" and e.f == P]
    prem = [e for e in calls_on(q, P) if e.f[2] == "pop"] + [e for e in q.events if e.kind == "delitem" and e.f == P]
    if isstr:
        if isnt is None:
            rep.viol("object-write", label, "a hole can be stored as a string property")
        elif isnt:
            rep.require(len(psets) == 1 and tuple(psets[0].args) == (STR, v), "object-write", label, "a string property is not stored as given")
        else:
            rep.require(not psets and (len(prem) == 1 and prem[0].args[0] == STR or has is False), "object-write", label,
                        "assigning a hole does not remove a string property")
            if prem and prem[0].kind == "call" and len(prem[0].args) < 2 and has is not True:
                rep.viol("object-write", label, "assigning a hole to a missing property fails")
        return
    cur, ensured, stored = A, bool(inside), False
    for e in q.events:
        if e.kind == "setattr" and e.f == A:
            cur = e.args[0]
            ensured = _swapped(rep, label, q, cur, A)
        elif e.kind == "call" and kind_(e.f) == "attr" and e.f[1] == cur and e.f[2] == "resize":
            want = lin_add(INT, C(1))
            rep.require(q.same(e.args[0], want), "object-write", label, f"storing at {show(INT)} makes the array {show(e.args[0])} long")
            rep.require(beyond, "object-write", label, "storing an element inside the array changes its length")
            ensured = True
        elif e.kind == "setitem" and e.f == cur:
            stored = True
            rep.require(tuple(e.args) == (INT, v), "object-write", label, f"{show(e.args[1])} is stored at {show(e.args[0])}")
            rep.require(ensured, "object-write", label, "an element is stored beyond the end of the array")
        elif e.kind == "setitem" and kind_(e.f) == "attr" and e.f == A and cur != A:
            rep.viol("object-write", label, "an element is stored in the array storage that was replaced")
            stored = True
        elif e.kind == "call" and kind_(e.f) == "attr" and e.f[1] == cur and e.f[2] in ("insert", "append", "extend"):
            raise AnalysisError(f"elements are added with {e.f[2]}()")
    if psets:
        rep.viol("object-write", label, "an array index is stored as a string property")
    elif not stored:
        rep.viol("object-write", label, "an element is not stored")


def _object_contains(p, rep, cn, hole):
    ps, ip = object_paths(p, cn, "__contains__", [sym("key")])
    rep.use(ps, ip)
    label = f"{cn}.__contains__"
    for q in ps:
        me, key = q.ctx["args"][0], q.ctx["args"][1]
        A, P = ("attr", me, "array"), ("attr", me, "_properties")
        rep.ob("object operations decided")
        isstr = q.atoms.get(("string key", key))
        if q.outcome != "return" or q.value not in (C(True), C(False)):
            rep.undecided.append(f"{label} is not understood")
        elif isstr:
            has = q.atoms.get(("in", STR, P))
            (rep.require(q.value == C(has), "object-read", label, f"gives {show(q.value)} for a string property that is {'' if has else 'not '}set") if has is not None
             else rep.undecided.append(f"{label} is not understood"))
        elif isstr is False:
            isnt = nonhole(q, ("idx", A, INT), hole)
            if q.value == C(True):
                if isnt == 0 or isnt is None and q.le(lin_add(INT, C(1)), ("len", A)):
                    rep.viol("object-read", label, "a hole counts as a property")
                elif isnt is None:
                    rep.undecided.append(f"{label} is not understood")
            elif isnt == 1:
                rep.viol("object-read", label, "an element that is set is reported missing")
        else:
            rep.undecided.append(f"{label} is not understood")


def _sub(t):
    from .terms import subterms
    return list(subterms(t))


def _swapped(rep, label, q, new, A):
    """New array storage holds the elements of the old one and is long enough."""
    if kind_(new) != "call":
        raise AnalysisError("the array storage is replaced by something unknown")
    kw = dict(new[3])
    ent = kw.get("entries")
    ok = kind_(ent) == "call" and kind_(ent[1]) == "attr" and ent[1][2] == "items" and kind_(ent[1][1]) == "call" \
        and ent[1][1][1] == ("attr", A, "elements")
    ok = ok or kind_(ent) == "call" and ent[1] == ("attr", A, "elements")
    if not ok and (new[2] and new[2][0] == A):
        ok = True
        rep.require(False, "object-write", label, "the new array storage is not as long as needed") if "length" not in kw else None
    if ent is None and not new[2]:
        rep.viol("object-write", label, "the elements are lost when the array storage is replaced")
        return True
    if not ok and kind_(ent) == "call" and ent[1] == ("ext", "builtins.enumerate") and len(ent[2]) == 1 and kind_(ent[2][0]) == "call" \
            and kind_(ent[2][0][1]) == "attr" and ent[2][0][1][2] in ("values", "elements", "keys"):
        rep.viol("object-write", label, "the elements move to other indexes when the array storage is replaced")
        return True
    if not ok:
        raise AnalysisError(f"the array storage is replaced by {show(new)}")
    ln = kw.get("length")
    rep.require(ln is not None and q.same(ln, lin_add(INT, C(1))), "object-write", label,
                f"the new array storage is {show(ln) if ln is not None else 'not'} long for index {show(INT)}")
    return True


def _object_whole(p, rep):
    for mn in ("__len__",):
        ps, ip = object_paths(p, "JSObject", mn, [])
        rep.use(ps, ip)
        for q in ps:
            me = q.ctx["args"][0]
            A, P = ("attr", me, "array"), ("attr", me, "_properties")
            rep.ob("object operations decided")
            if q.outcome != "return":
                rep.viol("object-read", f"JSObject.{mn}", f"raises {q.exc_name()}")
                continue
            if mn == "__len__":
                w = lin_add(("attr", A, "elements_used"), ("len", P))
                rep.require(q.value == w, "object-read", "JSObject.__len__", f"gives {show(q.value)} instead of {show(w)}")
                continue
    _object_iter(p, rep)
    # creation
    ps, ip = object_paths(p, "JSObject", "__init__", [sym("properties")], {"extra": sym("extra")})
    rep.use(ps, ip)
    for q in ps:
        me = q.ctx["args"][0]
        rep.ob("object operations decided")
        _object_init(p, rep, q, me)
    ps, ip = object_paths(p, "JSArray", "__init__", [sym("properties")], {"extra": sym("extra")})
    rep.use(ps, ip)
    for q in ps:
        rep.ob("object operations decided")
        _array_init(p, rep, q, q.ctx["args"][0])
    _object_eq(p, rep)


def _object_iter(p, rep):
    label = "JSObject.__iter__"
    ps, ip = iterated(p, "JSObject", "o", ObjectConfig(p))
    rep.use(ps, ip)
    kinds = set()
    for q in ps:
        me = q.ctx["args"][0]
        A, P = ("attr", me, "array"), ("attr", me, "_properties")
        rep.ob("object operations decided")
        if q.outcome != "return":
            rep.viol("object-iter", label, f"raises {q.exc_name()}")
            continue
        order = []
        for src in looped(q):
            idx = kind_(src) == "call" and src[1] == ("attr", A, "element_indexes")
            if idx:
                o = dict(src[3]).get("order")
                rep.require(o is None or kind_(o) == "enum" and o[2] == "ASCENDING", "object-iter", label, f"array indexes come in {show(o)} order")
                order.append("index")
            elif src == P or kind_(src) == "call" and src[1] == ("attr", P, "keys"):
                order.append("name")
            elif src == A:
                rep.viol("object-iter", label, "the elements, not their indexes, are iterated")
            elif kind_(src) == "call" and src[1] == ("ext", "builtins.range") and ("len", A) in src[2] and not any(x for x in q.excl if kind_(x) == "idx"):
                if sunk(q) and len(looped(q)) == 1:
                    rep.viol("object-iter", label, "indexes of holes are iterated")
            else:
                rep.undecided.append(f"{label}: iterates {show(src)}")
        kinds.add(tuple(order))
        rep.require(order == sorted(order), "object-iter", label, "string keys come before array indexes")
        got = sunk(q)
        if len(order) == len(looped(q)):
            good = len(got) == len(order) and all(kind_(t) == "elem" and len(t) == 3 for t in got)
            rep.require(good, "object-iter", label, "not every key is given exactly once")
    if not rep.undecided and not any(v for v in kinds if len(v) == 2):
        rep.viol("object-iter", label, "not all keys are iterated")


def _updates(q, me):
    return [(i, e) for i, e in enumerate(q.events) if e.kind in ("call", "consume") and e.f == ("attr", me, "update")]


def _object_init(p, rep, q, me):
    label = "JSObject.__init__"
    if q.outcome != "return":
        rep.undecided.append(f"{label}: raises {q.exc_name()}")
        return
    last = {e.f[2]: e.args[0] for e in q.events if e.kind == "setattr" and kind_(e.f) == "attr" and e.f[1] == me}
    arr, props, view = last.get("array"), last.get("_properties"), last.get("properties")
    rep.require(kind_(arr) == "call" and kind_(arr[1]) == "cls" and arr[1][1].endswith(ARRAYS), "object-new", label,
                "a new object has no array storage of its own") if arr is not None else None
    rep.require(isinstance(props, DictV), "object-new", label, "a new object has no dictionary of its own")
    rep.require(view is None or view is props or kind_(view) == "call" and any(x is props for x in view[2]), "object-new", label,
                "the view of the string properties shows another dictionary")
    _filled(rep, q, me, label)


def _filled(rep, q, me, label, first=None):
    ups = _updates(q, me)
    pos = [i for i, e in ups if e.args and e.args[0] == sym("properties")]
    kws = [i for i, e in ups if isinstance(e.args[0] if e.args else None, DictV) or "extra" in dict(getattr(e, "kwargs", None) or {})]
    if first is not None:
        pos = first
    rep.require(bool(pos), "object-new", label, "the properties given are not stored")
    rep.require(bool(kws), "object-new", label, "the keyword properties given are not stored")
    if pos and kws:
        rep.require(pos[0] < kws[-1], "object-new", label, "keyword properties do not override the others")


def _array_init(p, rep, q, me):
    label = "JSArray.__init__"
    if q.outcome != "return":
        return
    given = sym("properties")
    ext = [i for i, e in enumerate(q.events) if e.kind in ("call", "consume") and kind_(e.f) == "attr" and e.f[2] == "extend" and e.args and e.args[0] == given]
    for k, lp in q.loops.items():
        if lp["iter"] == given:
            add = [i for i, e in enumerate(q.events) if e.kind == "call" and kind_(e.f) == "attr" and e.f[2] == "append"
                   and e.args and kind_(e.args[0]) == "elem" and e.args[0][1] == given]
            if lp["entered"]:
                ext += add
            else:
                ext.append(0)
    if ext:
        m = [v for a, v in q.atoms.items() if any(w in show(a) for w in ("keys", "__getitem__", "Mapping"))]
        rep.require(not m or not all(m), "object-new", label, "a mapping is taken as a list of its keys")
        whole = any("keys" in show(a) or "Mapping" in show(a) for a in q.atoms)
        rep.require(whole or not m, "object-new", label, "mappings are not told apart by having keys")
    _filled(rep, q, me, label, ext or None)


def _object_eq(p, rep):
    other = sym("other")
    ps, ip = object_paths(p, "JSObject", "__eq__", [other])
    rep.use(ps, ip)
    label = "JSObject.__eq__"
    kinds = set()
    for q in ps:
        if q.outcome != "return":
            rep.undecided.append(f"{label}: raises {q.exc_name()}")
            continue
        rep.ob("object operations decided")
        me = q.ctx["args"][0]
        if q.atoms.get(("is", other, me)) or q.atoms.get(("is", me, other)):
            rep.require(q.value == C(True), "object-eq", label, "an object is not equal to itself")
            continue
        v = q.value
        kinds.add(show(v))
        parts = {n: q.atoms.get(("eq", ("attr", other, n), ("attr", me, n)), q.atoms.get(("eq", ("attr", me, n), ("attr", other, n))))
                 for n in ("array", "_properties")}
        for a, t in q.atoms.items():
            if isinstance(a, tuple) and a[0] == "eq" and kind_(a[1]) == "tup" and kind_(a[2]) == "tup" and len(a[1][1]) == len(a[2][1]):
                for x, y in zip(a[1][1], a[2][1]):
                    for n in parts:
                        if {x, y} == {("attr", other, n), ("attr", me, n)} and (t or parts[n] is None):
                            parts[n] = t
        typ = known(q, ("call", ("ext", "builtins.type"), (other,), (), 0), ("cls", p.cls("JSObject").qual))
        if v == C(True):
            for n, what in (("array", "elements"), ("_properties", "string properties")):
                rep.require(parts[n] is True, "object-eq", label, f"objects with different {what} can be equal")
            rep.require(typ is not False, "object-eq", label, "an object can be equal to an array")
        elif v == C(False):
            rep.require(any(x is False for x in parts.values()) or any(isinstance(a, tuple) and a[0] == "eq0" and not t for a, t in q.atoms.items()),
                        "object-eq", label, "objects with equal contents can be unequal")
        elif kind_(v) == "ext" or "NotImplemented" in show(v):
            isobj = any(t for a, t in q.atoms.items() if isinstance(a, tuple) and a[0] == "isinstance" and a[1] == other and t)
            rep.require(not isobj or typ is False, "object-eq", label, "objects are not compared")
        else:
            rep.undecided.append(f"{label}: gives {show(v)}")


# ------------------------------------------------------------------ same-value-zero
KINDS = {
    "bool": {"bool", "int"}, "int": {"int"}, "NaN": {"float"}, "float": {"float"}, "str": {"str"}, "bytes": {"bytes"},
    "None": {"NoneType"}, "undefined": {"undefined"}, "list": {"list"}, "object": set(), "date": {"datetime.datetime"},
}


def _kind_ok(p, q, v, kind):
    """Is the path consistent with a value of this kind?"""
    if kind == "None":
        if NONE in q.excl.get(v, ()):
            return False
    elif q.doms.get(v) == frozenset([NONE]):
        return False
    und = ("enum", p.cls("JSUndefinedEnum").qual, "JSUndefined")
    if kind == "undefined":
        if und in q.excl.get(v, ()) or v in q.doms and und not in q.doms[v]:
            return False
    elif v in q.doms and q.doms[v] == frozenset([und]):
        return False
    for a, t in q.atoms.items():
        if not isinstance(a, tuple):
            continue
        if a[0] == "isinstance" and a[1] == v and kind_(a[2]) == "cls":
            n = a[2][1]
            n = "undefined" if n.endswith("JSUndefinedEnum") else n
            yes = n in KINDS[kind] or n in ("collections.abc.Hashable",) and kind != "list" or \
                n in ("numbers.Number", "numbers.Real") and kind in ("bool", "int", "NaN", "float")
            if yes != t:
                return False
        elif a[0] == "truthy" and kind_(a[1]) == "call" and a[1][1] == ("ext", "math.isnan"):
            if (kind == "NaN") != t:
                return False
        elif a[0] == "eq" and a[1] == v and a[2] == v:
            if (kind != "NaN") != t:
                return False
    return True


def _identity(t, v):
    """A tuple (or object) holding only the identity of v."""
    idv = ("call", ("ext", "builtins.id"), (v,), (), 0)
    if kind_(t) == "tup":
        return idv in t[1] and v not in t[1]
    return False


def check_same_value_zero(p, rep):
    rep.rule("same-value-zero: numbers, strings, bytes, null and undefined by value, NaN equal to itself, booleans apart from numbers, "
             "everything else by identity")
    f = p.func("_equality.same_value_zero")
    v = ("sym", "value", "any")
    ps, ip = fn_paths(p, f, lambda ip: ([v], {}))
    rep.use(ps, ip)
    label = "same_value_zero"
    res = {}
    by_value = ("bool", "int", "float", "str", "bytes", "NoneType", "numbers.Number", "numbers.Real", "typing.Hashable", "collections.abc.Hashable")
    for q in ps:
        for a, t in q.atoms.items():
            if t and isinstance(a, tuple) and a[0] == "isinstance" and a[1] == v and kind_(a[2]) in ("cls", "ext") and q.outcome == "return" and q.value == v:
                n = a[2][1]
                if not (n.endswith("JSUndefinedEnum") or n.removeprefix("builtins.") in by_value):
                    rep.viol("same-value", label, f"{n} values are compared by equality")
    for kind in KINDS:
        mine = [q for q in ps if _kind_ok(p, q, v, kind)]
        rs = []
        for q in mine:
            rep.ob("kinds of keys decided")
            if q.outcome != "return":
                rep.viol("same-value", label, f"raises {q.exc_name()} for {kind}")
                continue
            rs.append(q.value)
        res[kind] = rs
        for r in rs:
            if kind in ("int", "float", "str", "bytes", "None", "undefined"):
                r2 = NONE if kind == "None" and r == NONE else r
                if _identity(r, v):
                    rep.viol("same-value", label, f"{kind} values are compared by identity")
                elif r2 != v and r2 != NONE and not (kind == "undefined" and kind_(r2) == "enum"):
                    inj = kind_(r2) == "tup" and v in r2[1]
                    if kind in ("int", "float") and inj and ("call", ("ext", "builtins.type"), (v,), (), 0) in r2[1]:
                        rep.viol("same-value", label, "equal integers and floats are different keys")
                    elif kind in ("int", "float") and inj:
                        rs2 = {repr(x) for k in ("int", "float") for x in res.get(k, [])}
                        rep.require(len(rs2) == 1, "same-value", label, "equal integers and floats are different keys")
                    elif kind == "int" and r2 == ("call", ("ext", "builtins.float"), (v,), (), 0):
                        rep.viol("same-value", label, "different large integers are the same key, and ones beyond the range of floats are refused")
                    elif not inj:
                        rep.undecided.append(f"{label}: {kind} gives {show(r2)}")
            elif kind in ("list", "object", "date"):
                if r == v:
                    rep.viol("same-value", label, f"{kind} values are compared by equality")
                elif kind_(r) == "call" and r[1] == ("ext", "builtins.id"):
                    rep.viol("same-value", label, "identities can clash with integers")
                elif not _identity(r, v):
                    rep.undecided.append(f"{label}: {kind} gives {show(r)}")
            elif kind == "bool":
                if r == v:
                    rep.viol("same-value", label, "booleans are the same key as 0 and 1")
                elif _identity(r, v):
                    pass
                elif not (kind_(r) == "tup" and v in r[1] and len(r[1]) > 1):
                    rep.undecided.append(f"{label}: bool gives {show(r)}")
            else:
                if r == v:
                    rep.viol("same-value", label, "NaN is not the same key as itself")
                elif _identity(r, v):
                    rep.viol("same-value", label, "different NaN values are different keys")
                elif kind_(r) == "tup" and v in r[1]:
                    rep.viol("same-value", label, "different NaN values are different keys")
                elif v in _sub(r):
                    rep.undecided.append(f"{label}: NaN gives {show(r)}")
    rep.at_least("kinds of keys decided", 10)


# ------------------------------------------------------------------ maps and sets
def svz(t):
    return ("call", ("ext", "same_value_zero"), (t,), (), 0)


class Layout:
    base = None  # name of the attribute holding the entries
    pk = pv = None  # position of key and value in an entry; None when the entry is the value itself


def _attr_of(me, t):
    while kind_(t) == "ver":
        t = t[1]
    return t[2] if kind_(t) == "attr" and t[1] == me else None


def check_keyed(p, rep):
    rep.rule("maps and sets find entries only under same-value-zero keys, keep the key and value given, and list them in order of insertion")
    for cn, add in (("JSMap", "__setitem__"), ("JSSet", "add")):
        try:
            L = _layout(p, rep, cn, add)
            if L is not None:
                _keyed(p, rep, cn, L)
        except AnalysisError as e:
            rep.undecided.append(f"{cn}: {e}")
    rep.at_least("map and set operations decided", 25)


def _layout(p, rep, cn, add):
    key, value = sym("key"), sym("value")
    args = [key, value] if cn == "JSMap" else [value]
    ps, ip = keyed_paths(p, cn, add, args)
    rep.use(ps, ip)
    k = args[0]
    L = None
    for q in ps:
        rep.ob("map and set operations decided")
        me = q.ctx["args"][0]
        if q.outcome != "return":
            rep.viol("keyed-add", f"{cn}.{add}", f"raises {q.exc_name()}")
            return None
        st = [e for e in q.events if e.kind == "setitem" and _attr_of(me, e.f)]
        if not st:
            has = [t for a, t in q.atoms.items() if isinstance(a, tuple) and a[0] == "in" and a[1] == svz(k)]
            if cn == "JSSet" and has and has[0]:
                continue
            sd = [e for e in q.events if e.kind == "call" and kind_(e.f) == "attr" and _attr_of(me, e.f[1]) and e.f[2] == "setdefault"]
            if not sd:
                rep.viol("keyed-add", f"{cn}.{add}", "nothing is stored")
                return None
            if cn == "JSMap":
                rep.viol("keyed-add", f"{cn}.{add}", "the value of a key that is present is not replaced")
                return None
            st = sd
            L2 = Layout()
            L2.base = _attr_of(me, sd[0].f[1])
        else:
            L2 = Layout()
            L2.base = _attr_of(me, st[0].f)
        for e in q.events:
            if e is st[0]:
                break
            gone = e.kind == "delitem" and _attr_of(me, e.f) == L2.base or e.kind == "call" and kind_(e.f) == "attr" \
                and _attr_of(me, e.f[1]) == L2.base and e.f[2] in ("pop", "popitem", "clear", "__delitem__")
            if gone:
                rep.viol("keyed-add", f"{cn}.{add}", "an entry that is present is removed first, which moves it to the end")
                return None
        sk, sv = st[0].args
        rep.require(sk == svz(k), "keyed-add", f"{cn}.{add}", f"the entry is stored under {show(sk)}")
        if cn == "JSMap":
            if kind_(sv) != "tup" or key not in sv[1] or value not in sv[1]:
                if kind_(sv) == "tup" or sv in (key, value):
                    rep.viol("keyed-add", f"{cn}.{add}", f"the entry stored is {show(sv)}")
                    return None
                raise AnalysisError(f"entries are stored as {show(sv)}")
            L2.pk, L2.pv = sv[1].index(key), sv[1].index(value)
        elif sv != value:
            rep.viol("keyed-add", f"{cn}.{add}", f"the member stored is {show(sv)}")
            return None
        L = L2
    return L


def _keyed(p, rep, cn, L):
    key, value = sym("key"), sym("value")
    B = lambda me: ("attr", me, L.base)  # noqa: E731

    def entry(t):
        return t if L.pk is None else ("idx", t, C(L.pv))

    def keyof(t):
        return t if L.pk is None else ("idx", t, C(L.pk))

    def paths(mn, args, kw=None):
        if p.find_method(p.cls(cn), mn) is None:
            return []
        ps, ip = keyed_paths(p, cn, mn, args, kw)
        rep.use(ps, ip)
        rep.ob("map and set operations decided", len(ps))
        return ps

    def has(q, me, k):
        return next((t for a, t in q.atoms.items() if isinstance(a, tuple) and a[0] == "in" and a[1] == svz(k) and _attr_of(me, a[2]) == L.base), None)

    def badkey(q, me, k):
        """Uses of the dictionary under another key."""
        for a in q.atoms:
            if isinstance(a, tuple) and a[0] == "in" and _attr_of(me, a[2]) == L.base and a[1] != svz(k):
                return True
        return any(e.kind in ("setitem", "delitem") and _attr_of(me, e.f) == L.base and e.args[0] != svz(k) for e in q.events)

    known_methods = {"__setitem__", "__getitem__", "__delitem__", "__iter__", "__len__", "__eq__", "__init__", "__repr__", "update", "get", "clear",
                     "add", "discard", "__contains__", "__ior__", "__ne__", "_from_iterable", "__class_getitem__"}
    c = p.cls(cn)
    for name, f in c.methods.items():
        if name not in known_methods and not name.startswith("_") and not _stub(f):
            rep.undecided.append(f"{cn}.{name} is not analysed")
    mixins = ("__contains__", "pop", "setdefault", "popitem") if cn == "JSMap" else ("remove", "pop", "__isub__", "__iand__", "__ixor__", "isdisjoint")
    for name in mixins:
        f = c.methods.get(name)
        if f is not None and not _stub(f):
            _keyed_mixin(rep, cn, name, L, paths(name, {"setdefault": [key, sym("default")], "popitem": []}.get(name, [key])), svz(key), B)

    if cn == "JSMap":
        for q in paths("__getitem__", [key]):
            me = q.ctx["args"][0]
            if badkey(q, me, key):
                rep.viol("keyed-read", f"{cn}.__getitem__", "an entry is looked up under another key")
            elif q.outcome == "return":
                want = entry(("idx", B(me), svz(key)))
                if q.value != want:
                    plain = kind_(q.value) == "idx" and "same_value_zero" not in show(q.value) or kind_(q.value) == "idx" and q.value[1] == want[1]
                    (rep.viol("keyed-read", f"{cn}.__getitem__", f"gives {show(q.value)}") if plain or q.value == want[1] or is_c(q.value)
                     else rep.undecided.append(f"{cn}.__getitem__ gives {show(q.value)}"))
            else:
                rep.require(has(q, me, key) is False or any(e.kind == "raised" for e in q.events), "keyed-read", f"{cn}.__getitem__",
                            "an entry that is set is reported missing")
        default = sym("default")
        gets = paths("get", [key, default])
        for q in gets:
            me = q.ctx["args"][0]
            h = has(q, me, key)
            v = q.value if q.outcome == "return" else None
            if v is None:
                rep.viol("keyed-read", f"{cn}.get", f"raises {q.exc_name()}")
                continue
            g = v[1] if kind_(v) == "idx" else v
            if badkey(q, me, key):
                rep.viol("keyed-read", f"{cn}.get", "an entry is looked up under another key")
            elif h is True:
                rep.require(v == entry(("idx", B(me), svz(key))), "keyed-read", f"{cn}.get", f"gives {show(v)} for a key that is set")
            elif h is False:
                rep.require(v == default, "keyed-read", f"{cn}.get", f"gives {show(v)} for a key that is not set")
            elif v == entry(("idx", B(me), svz(key))):
                rep.require(any(x.outcome == "return" and x.value == default for x in gets), "keyed-read", f"{cn}.get",
                            "a missing key does not give the default")
            elif kind_(v) == "idx" and v[2] == C(L.pv) and kind_(g) == "call" and kind_(g[1]) == "attr" and _attr_of(me, g[1][1]) == L.base and g[1][2] == "get":
                rep.require(g[2][0] == svz(key), "keyed-read", f"{cn}.get", f"the entry is looked up under {show(g[2][0])}")
                d = g[2][1] if len(g[2]) > 1 else None
                rep.require(kind_(d) == "tup" and len(d[1]) > L.pv and d[1][L.pv] == default, "keyed-read", f"{cn}.get", "a missing key does not give the default")
            elif kind_(v) == "idx" and v[2] != C(L.pv) and kind_(g) == "call":
                rep.viol("keyed-read", f"{cn}.get", "the key, not the value, is given")
            elif v == default:
                none = [t for t in q.doms if kind_(t) == "call" and t[2] and t[2][0] == svz(key) and q.doms[t] == frozenset([NONE])]
                if not none and not any(e.kind == "raised" for e in q.events):
                    rep.undecided.append(f"{cn}.get gives the default")
            elif kind_(v) == "idx" and v[1] in q.excl and kind_(v[1]) == "call" and v[1][2] and v[1][2][0] == svz(key):
                rep.require(v[2] == C(L.pv), "keyed-read", f"{cn}.get", "the key, not the value, is given")
            else:
                rep.undecided.append(f"{cn}.get gives {show(v)}")
    else:
        for q in paths("__contains__", [value]):
            me = q.ctx["args"][0]
            h = has(q, me, value)
            if badkey(q, me, value):
                rep.viol("keyed-read", f"{cn}.__contains__", "a member is looked up under another key")
            elif q.outcome == "return" and h is not None:
                rep.require(q.value == C(h), "keyed-read", f"{cn}.__contains__", f"gives {show(q.value)}")
            elif any(isinstance(a, tuple) and a[0] == "in" and a[1] == value and B(me) in _sub(a[2]) for a in q.atoms):
                rep.viol("keyed-read", f"{cn}.__contains__", "members are found by equality")
            else:
                rep.undecided.append(f"{cn}.__contains__: not understood")
    rm, k = ("__delitem__", key) if cn == "JSMap" else ("discard", value)
    for q in paths(rm, [k]):
        me = q.ctx["args"][0]
        h = has(q, me, k)
        dels = [e.args[0] for e in q.events if e.kind == "delitem" and _attr_of(me, e.f) == L.base]
        pops = [e for e in q.events if e.kind in ("call", "raised") and kind_(e.f) == "attr" and _attr_of(me, e.f[1]) == L.base and e.f[2] == "pop"]
        ks = dels + [e.args[0] for e in pops]
        if any(x != svz(k) for x in ks) or badkey(q, me, k):
            rep.viol("keyed-delete", f"{cn}.{rm}", "an entry is removed under another key")
        elif q.outcome == "return":
            rep.require(bool(ks) or h is False and cn == "JSSet" or any(e.kind == "raised" for e in q.events) and cn == "JSSet", "keyed-delete",
                        f"{cn}.{rm}", "the entry is not removed")
            if cn == "JSMap" and any(len(e.args) > 1 for e in pops) and h is not True:
                rep.viol("keyed-delete", f"{cn}.{rm}", "a missing key is not reported")
            if cn == "JSSet" and (dels or any(len(e.args) < 2 for e in pops)) and h is not True and not any(e.kind == "raised" for e in q.events):
                rep.viol("keyed-delete", f"{cn}.{rm}", "discarding a value that is not a member fails")
        elif cn == "JSSet":
            rep.viol("keyed-delete", f"{cn}.{rm}", f"raises {q.exc_name()}")
        else:
            rep.require(h is not True, "keyed-delete", f"{cn}.{rm}", "a key that is set is reported missing")
    for q in paths("__len__", []):
        me = q.ctx["args"][0]
        rep.require(q.outcome == "return" and q.value == ("len", B(me)), "keyed-read", f"{cn}.__len__", f"gives {show(q.value) if q.outcome == 'return' else q.exc_name()}")
    for q in paths("clear", []):
        me = q.ctx["args"][0]
        ok = any(e.f == ("attr", B(me), "clear") for e in q.events if e.kind == "call") or any(
            e.kind == "setattr" and e.f == B(me) and isinstance(e.args[0], DictV) and not e.args[0].items and e.args[0].rest is None for e in q.events)
        rep.require(ok, "keyed-delete", f"{cn}.clear", "the entries are not removed")
    ps, ip = iterated(p, cn, "o", KeyedConfig(p))
    rep.use(ps, ip)
    rep.ob("map and set operations decided", len(ps))
    for q in ps:
        _keyed_iter(rep, q, cn, L, B)
    rep.require(any(looped(q) for q in ps), "keyed-iter", f"{cn}.__iter__", "nothing is given")
    fill = [("update", [sym("other")], {}), ("update", [], {"extra": sym("extra")}), ("__init__", [sym("other")], {})] if cn == "JSMap" else \
        [("__ior__", [sym("other")], {}), ("__init__", [sym("other")], {})]
    if cn == "JSMap":
        fill.append(("__init__", [], {"extra": sym("extra")}))
        fill.append(("__init__", [sym("other")], {"extra": sym("extra")}))
        fill.append(("update", [sym("other")], {"extra": sym("extra")}))
    for mn, args, kw in fill:
        got = None
        for q in paths(mn, args, kw):
            r = _fill_path(rep, q, cn, mn, L, B, bool(kw))
            if args and kw and r and q.outcome == "return":
                me = q.ctx["args"][0]
                stores = _entry_stores(q, me, L, B)
                last = [i for i, (_, ent) in enumerate(stores) if sym("extra") in _sub(ent)]
                inner = any(e.kind == "call" and kind_(e.f) == "attr" and e.f[1] is me and e.f[2] == "update" for e in q.events)
                if not last and not inner:
                    rep.viol("keyed-fill", f"{cn}.{mn}", "a keyword entry given along with others is not stored")
                elif last and last[-1] != len(stores) - 1:
                    rep.viol("keyed-fill", f"{cn}.{mn}", "keyword entries do not replace the ones given with them")
            if r is False and kw:
                rep.viol("keyed-fill", f"{cn}.{mn}", "a keyword entry may not be stored")
            got = r if got is None else got or r
        if got is False:
            rep.viol("keyed-fill", f"{cn}.{mn}", "the entries given are not stored")
    for q in paths("__init__", []):
        me = q.ctx["args"][0]
        s = [e for e in q.events if e.kind == "setattr" and e.f == B(me)]
        rep.require(bool(s) and isinstance(s[-1].args[0], DictV), "keyed-fill", f"{cn}.__init__", "a new one does not start with a dictionary of its own")
    for args in ([sym("other")], [NONE]):
        for q in paths("__init__", args):
            me = q.ctx["args"][0]
            s = [e for e in q.events if e.kind == "setattr" and e.f == B(me)]
            if s and s[-1].args[0] == sym("other"):
                rep.viol("keyed-fill", f"{cn}.__init__", "the dictionary given is used as it is")
    _keyed_eq(p, rep, cn, L, B, paths)


def _keyed_mixin(rep, cn, name, L, ps, want, B):
    """Methods of the abstract base class written out again."""
    label = f"{cn}.{name}"
    for q in ps:
        me, key = q.ctx["args"][0], q.ctx["args"][1] if len(q.ctx["args"]) > 1 else None
        if key is None:
            continue
        direct = [e.args[0] for e in q.events if e.kind in ("setitem", "delitem") and _attr_of(me, e.f) == L.base and e.args]
        direct += [e.args[0] for e in q.events if e.kind in ("call", "raised") and kind_(e.f) == "attr" and _attr_of(me, e.f[1]) == L.base and e.args
                   and e.f[2] in ("get", "pop", "setdefault", "__getitem__", "__setitem__", "__delitem__", "__contains__")]
        direct += [a[1] for a in q.atoms if isinstance(a, tuple) and a[0] == "in" and _attr_of(me, a[2]) == L.base]
        if key in direct or any(isinstance(a, tuple) and a[0] == "in" and a[1] == key and B(me) in _sub(a[2]) for a in q.atoms):
            rep.viol("keyed-read", label, "entries are looked up under the key as it is")
            return
        if name != "__contains__":
            continue
        h = next((t for a, t in q.atoms.items() if isinstance(a, tuple) and a[0] == "in" and a[1] == want), None)
        raised = any(e.kind == "raised" for e in q.events)
        if q.outcome == "return" and h is not None:
            rep.require(q.value == C(h), "keyed-read", label, f"gives {show(q.value)}")
        elif q.outcome == "return" and q.value == C(False) and not raised:
            none = [t for t, d in q.doms.items() if want in _sub(t) and d == frozenset([NONE])]
            if none:
                rep.viol("keyed-read", label, "a key whose value is None is reported missing")
                return


def _keyed_iter(rep, q, cn, L, B):
    me = q.ctx["args"][0]
    label = f"{cn}.__iter__"
    if q.outcome != "return":
        rep.viol("keyed-iter", label, f"raises {q.exc_name()}")
        return
    for src in looped(q):
        s = show(src)
        if "reversed" in s or "sorted" in s:
            rep.viol("keyed-iter", label, "entries do not come in order of insertion")
            return
        if src == B(me) or kind_(src) == "call" and src[1] == ("attr", B(me), "keys"):
            rep.viol("keyed-iter", label, f"gives {s}")
            return
        if not (kind_(src) == "call" and src[1] in (("attr", B(me), "values"), ("attr", B(me), "items"))):
            rep.undecided.append(f"{label}: iterates {s}")
            return
    got = sunk(q)
    if len(got) != len(looped(q)):
        rep.viol("keyed-iter", label, "not every entry is given exactly once")
        return
    for t in got:
        pos = None
        if L.pk is not None and kind_(t) == "idx":
            t, pos = t[1], t[2]
        entry = kind_(t) == "elem" and (t[1][1][2] == "values" and len(t) == 3 or t[1][1][2] == "items" and t[3:] == (1,))
        if not entry:
            rep.viol("keyed-iter", label, f"gives {show(t)[:60]}")
        elif L.pk is not None:
            rep.require(pos == C(L.pk), "keyed-iter", label, "values, not keys, are given" if pos == C(L.pv) else "entries, not keys, are given")


def _entry_stores(q, me, L, B):
    """(key, entry) terms put into the dictionary on this path."""
    out, comps = [], []
    own = [B(me)] + [e.args[0] for e in q.events if e.kind == "setattr" and e.f == B(me)]
    for i, e in enumerate(q.events):
        if e.kind == "setitem" and any(e.f is o or e.f == o for o in own):
            out.append(tuple(e.args))
        elif e.kind == "yielded" and e.args and kind_(e.args[0]) == "tup" and len(e.args[0][1]) == 2:
            out.append(tuple(e.args[0][1]))
        elif e.kind == "comp" and isinstance(e.f, DictV) and e.args and kind_(e.args[0]) == "tup" and len(e.args[0][1]) == 2:
            comps.append((e.f, tuple(e.args[0][1])))
        elif e.kind in ("consume", "call") and kind_(e.f) == "attr" and e.f[2] == "update" and any(e.f[1] is o or e.f[1] == o for o in own):
            d = e.args[0] if e.args else None
            if isinstance(d, DictV):
                out += list(d.items.items()) + [kv for c, kv in comps if c is d]
    for o in own:
        if isinstance(o, DictV):
            out += [kv for kv in o.items.items()]
    return out


def _fill_path(rep, q, cn, mn, L, B, kws):
    me = q.ctx["args"][0]
    label = f"{cn}.{mn}"
    if q.outcome != "return":
        rep.undecided.append(f"{label}: raises {q.exc_name()}")
        return True
    if mn == "__ior__":
        rep.require(q.value is me, "keyed-fill", label, "does not give the set itself")
    looped = False
    for e in q.events:
        looped = looped or e.kind == "loop"
    sts = _entry_stores(q, me, L, B)
    for k, ent in sts:
        if L.pk is None:
            good = k == svz(ent)
            src = ent
            joined = _joined(ent)
            if joined:
                rep.viol("keyed-fill", label, f"members go through a built-in {joined}, which joins values that are equal but not the same")
        else:
            if kind_(ent) != "tup" or len(ent[1]) <= max(L.pk, L.pv):
                rep.viol("keyed-fill", label, f"the entry stored is {show(ent)[:80]}")
                continue
            kk, vv = ent[1][L.pk], ent[1][L.pv]
            good = k == svz(kk)
            src = kk
            joined = _joined(kk)
            if joined and not kws:
                rep.viol("keyed-fill", label, f"entries go through a built-in {joined}, which joins keys that are equal but not the same")
            if not _pair(q, kk, vv, kws):
                rep.viol("keyed-fill", label, f"{show(vv)[:60]} is stored for key {show(kk)[:60]}")
        if not good:
            rep.viol("keyed-fill", label, f"an entry is stored under {show(k)[:80]}")
        del src
    if not sts and looped:
        adds = [e for e in q.events if e.kind == "call" and kind_(e.f) == "attr" and e.f[1] is me and e.f[2] in ("add", "update", "__ior__", "__setitem__")] \
            or [e for e in q.events if e.kind == "setitem" and e.f is me]
        return bool(adds)
    if kws or looped:
        return bool(sts)
    return None if not sts else True


def _joined(t):
    """The built-in dictionary or set (of unknown contents) the entry was taken from."""
    while isinstance(t, tuple) and kind_(t) == "idx":
        t = t[1]
    if kind_(t) != "elem":
        return None
    src = t[1]
    while True:
        if isinstance(src, DictV):
            return "dict"
        if kind_(src) != "call":
            return None
        f = src[1]
        if kind_(f) == "ext" and f[1] in ("builtins.dict", "builtins.set", "builtins.frozenset", "collections.OrderedDict"):
            return f[1].rpartition(".")[2]
        if kind_(f) == "attr" and f[2] in ("items", "keys", "values") and not src[2]:
            src = f[1]
        elif kind_(f) == "ext" and f[1] in ("builtins.iter", "builtins.list", "builtins.tuple") and len(src[2]) == 1:
            src = src[2][0]
        else:
            return None


def _pair(q, k, v, kws):
    """k and v are the key and value of one entry of what is given."""
    if kind_(k) == "elem" and kind_(v) == "elem" and k[:3] == v[:3] and k[3:] == (0,) and v[3:] == (1,):
        return True
    if kind_(k) == "idx" and kind_(v) == "idx" and k[1] == v[1] and k[2] == C(0) and v[2] == C(1):
        return True
    if kind_(v) == "idx" and v[2] == k:
        return True
    if kind_(v) == "call" and kind_(v[1]) == "attr" and v[1][2] in ("__getitem__", "get") and v[2] and v[2][0] == k:
        return True
    return is_c(k) and k[2] == "extra" and v == sym("extra")


def _keyed_eq(p, rep, cn, L, B, paths):
    other = sym("other")
    label = f"{cn}.__eq__"
    mine = ("cls", p.cls(cn).qual)
    for q in paths("__eq__", [other]):
        me = q.ctx["args"][0]
        if q.outcome != "return":
            rep.undecided.append(f"{label}: raises {q.exc_name()}")
            continue
        v = q.value
        if q.atoms.get(("is", other, me)) or q.atoms.get(("is", me, other)):
            rep.require(v == C(True), "keyed-eq", label, "not equal to itself")
            continue
        same = q.atoms.get(("isinstance", other, mine))
        lens = next((t for a, t in q.atoms.items() if isinstance(a, tuple) and a[0] == "eq0" and len(a[1]) == 2
                     and {kind_(x) for x, _ in a[1]} == {"len"}), None)
        eqs = [(a, t) for a, t in q.atoms.items() if isinstance(a, tuple) and a[0] == "eq" and ("elem" in (kind_(a[1]), kind_(a[2])) or "idx" in (kind_(a[1]), kind_(a[2])))]
        whole = None
        for a, t in q.atoms.items():
            if isinstance(a, tuple) and a[0] == "eq" and all(kind_(x) == "call" and x[1] in (("ext", "builtins.list"), ("ext", "builtins.tuple")) for x in a[1:3]):
                srcs = [x[2][0] for x in a[1:3]]
                if all(kind_(x) == "call" and x[1][2] == "values" for x in srcs) and a[1][1] == a[2][1]:
                    whole = t
                elif B(me) in srcs or any(x == ("call", ("attr", B(me), "keys"), (), (), 0) for x in srcs):
                    rep.viol("keyed-eq", label, "the internal keys, not the entries, are compared")
        if same is True and whole is not None:
            rep.require(v == C(whole), "keyed-eq", label, "the comparison of the entries is not the result")
            continue
        if any(kind_(x) == "elem" and (x[1] == B(me) or x[1] == ("call", ("attr", B(me), "keys"), (), (), 0)) for a, _ in eqs for x in a[1:]):
            rep.viol("keyed-eq", label, "the internal keys, not the entries, are compared")
            continue
        if same is False and v == C(True):
            rep.require(lens is True, "keyed-eq", label, "one equals another collection with a different number of entries")
        if same is not True:
            continue
        if v == C(True):
            rep.require(lens is True, "keyed-eq", label, "ones with different numbers of entries can be equal")
            if any(e.kind == "loop" for e in q.events):
                ok = any(t for a, t in eqs)
                rep.require(ok, "keyed-eq", label, "entries are not compared")
        elif v == C(False):
            rep.require(lens is False or any(t is False for a, t in eqs) or any(e.kind == "raised" for e in q.events), "keyed-eq", label,
                        "ones with equal entries can be unequal")
