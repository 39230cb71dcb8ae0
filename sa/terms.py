"""Value terms of the abstract interpreter.

A term is a tuple whose first item is its kind, or an instance of one of the
mutable container classes below.  All are hashable and compare structurally
(containers by identity), and integer expressions are kept in a linear normal
form so that `a + 1 > b` and `b <= a` are the same condition.
"""

from __future__ import annotations


def C(v):
    return ("c", type(v).__name__, v)


NONE = C(None)
TRUE = C(True)
FALSE = C(False)


def is_c(t):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "c"


def is_int(t):
    return is_c(t) and t[1] in ("int", "bool")


def kind(t):
    return t[0] if isinstance(t, tuple) and t else type(t).__name__


class Obj:
    """An instance of a class of the package (or an exception instance)."""

    def __init__(self, oid, cls, name=None, symbolic=False):
        self.oid = oid
        self.cls = cls
        self.fields = {}
        self.symbolic = symbolic
        self.exact = False  # of the class itself, not of a subclass
        self.name = name
        self.args = ()
        self.kwargs = {}
        self.ename = None  # external exception class name

    def __eq__(self, other):  # the same object in another exploration of the same path prefix is the same object
        return self is other or isinstance(other, Obj) and self.oid == other.oid and self.cls is other.cls

    def __hash__(self):
        return hash(("obj", self.oid))

    def __repr__(self):
        n = self.cls.name if self.cls is not None else (self.ename or "object")
        return f"<{self.name or n}#{self.oid}>"


class ListV:
    def __init__(self, oid, items):
        self.oid = oid
        self.items = items

    def __repr__(self):
        return f"<list#{self.oid}>"


class SetV:
    def __init__(self, oid, items):
        self.oid = oid
        self.items = items

    def __repr__(self):
        return f"<set#{self.oid}>"


class DictV:
    def __init__(self, oid, items, rest=None):
        self.oid = oid
        self.items = items  # term -> term
        self.rest = rest  # unknown additional content (term) or None

    def __repr__(self):
        return f"<dict#{self.oid}>"


class Closure:
    def __init__(self, oid, func, frame):
        self.oid = oid
        self.func = func
        self.frame = frame

    def __repr__(self):
        return f"<closure {self.func.qual}#{self.oid}>"


class GenV:
    """A generator that has been created but not yet consumed."""

    def __init__(self, oid, func, frame, ctxmgr=False):
        self.oid = oid
        self.func = func
        self.frame = frame
        self.ctxmgr = ctxmgr
        self.consumed = False

    def __repr__(self):
        return f"<gen {self.func.qual}#{self.oid}>"


class GenExp:
    def __init__(self, oid, node, frame):
        self.oid = oid
        self.node = node
        self.frame = frame

    def __repr__(self):
        return f"<genexp#{self.oid}>"


class Super:
    def __init__(self, cls, self_):
        self.cls = cls
        self.self_ = self_


# -- linear integer terms ----------------------------------------------------

NONINT = {"str", "bytes", "NoneType", "float", "tuple", "ellipsis"}


def lin_of(t):
    """(dict term->coef, const) for any term."""
    if is_int(t):
        return {}, int(t[2])
    if isinstance(t, tuple) and t and t[0] == "lin":
        return dict(t[1]), t[2]
    return {t: 1}, 0


def mk_lin(coefs, const):
    coefs = {k: v for k, v in coefs.items() if v != 0}
    if not coefs:
        return C(const)
    if len(coefs) == 1 and const == 0:
        (k, v), = coefs.items()
        if v == 1:
            return k
    return ("lin", tuple(sorted(coefs.items(), key=lambda kv: repr(kv[0]))), const)


def lin_add(a, b, sb=1):
    ca, ka = lin_of(a)
    cb, kb = lin_of(b)
    for k, v in cb.items():
        ca[k] = ca.get(k, 0) + sb * v
    return mk_lin(ca, ka + sb * kb)


def lin_scale(a, n):
    ca, ka = lin_of(a)
    return mk_lin({k: v * n for k, v in ca.items()}, ka * n)


def subterms(t):
    """Every term inside t (pre-order), not descending into containers."""
    stack = [t]
    while stack:
        x = stack.pop()
        yield x
        if isinstance(x, tuple):
            if is_c(x):
                continue
            stack.extend(y for y in x if isinstance(y, (tuple, Obj, ListV, DictV, SetV, Closure, GenV)))


def contains(t, sub):
    return any(x == sub for x in subterms(t))


def show(t, depth=0):
    """A readable rendering of a term for reports."""
    if depth > 6:
        return "…"
    d = depth + 1
    if is_c(t):
        return repr(t[2])
    if not isinstance(t, tuple):
        if isinstance(t, ListV):
            return "[…]" if t.items is None else "[" + ", ".join(show(x, d) for x in t.items) + "]"
        return repr(t)
    if not t:
        return "()"
    k = t[0]
    if k == "sym":
        return str(t[1])
    if k == "enum":
        return f"{t[1].rsplit('.', 1)[-1]}.{t[2]}"
    if k in ("fn", "cls", "ext"):
        return str(t[1]).rsplit(".", 1)[-1]
    if k == "attr":
        return f"{show(t[1], d)}.{t[2]}"
    if k == "idx":
        return f"{show(t[1], d)}[{show(t[2], d)}]"
    if k == "slice":
        return f"{show(t[1], d)}:{show(t[2], d)}"
    if k == "call":
        args = [show(a, d) for a in t[2]] + [f"{n}={show(v, d)}" for n, v in t[3]]
        return f"{show(t[1], d)}({', '.join(args)})"
    if k == "lin":
        parts = []
        for x, c in t[1]:
            parts.append(f"{'' if c == 1 else str(c) + '*'}{show(x, d)}")
        if t[2] or not parts:
            parts.append(str(t[2]))
        return "(" + " + ".join(parts) + ")"
    if k == "op":
        return f"({t[1]} {' '.join(show(x, d) for x in t[2])})"
    if k == "tup":
        return "(" + ", ".join(show(x, d) for x in t[1]) + ")"
    if k == "fset":
        return "{" + ", ".join(sorted(show(x, d) for x in t[1])) + "}"
    if k == "bound":
        return f"{show(t[2], d)}.{show(t[1], d)}"
    if k == "fstr":
        return "f'…'"
    return "(" + " ".join(show(x, d) if isinstance(x, tuple) else str(x) for x in t) + ")"
