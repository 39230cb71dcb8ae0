"""A path-partitioned abstract interpreter for the subset of Python the package uses.

Values are terms (see terms.py).  Project functions are inlined; everything else
is an uninterpreted call recorded as an event.  Branches whose condition is not
decided by the path's facts split the path; loops are summarised by one
*arbitrary* iteration started from a havocked state (so what holds on the
explored paths holds for any number of iterations), followed by an arbitrary
exit.  No input is ever supplied: every program input is a symbol, and there is
no constraint solver - conditions are decided by syntactic facts, finite
domains, and intervals over linear terms.
"""

from __future__ import annotations

import ast
import builtins

from .project import AnalysisError, Class, Func
from .terms import (
    C, FALSE, NONE, NONINT, TRUE, Closure, DictV, GenExp, GenV, ListV, Obj, SetV,
    Super, is_c, is_int, lin_add, lin_of, lin_scale, mk_lin, show, subterms,
)


GEN = (_ for _ in ())

class Control(Exception):
    pass


class AbsReturn(Control):
    def __init__(self, value):
        self.value = value


class AbsBreak(Control):
    pass


class AbsContinue(Control):
    pass


class AbsRaise(Control):
    def __init__(self, exc, node=None):
        self.exc = exc
        self.node = node


class Unwind(Control):
    """A consumer's break/return/raise passing through a generator it consumes."""

    def __init__(self, owner, inner):
        self.owner = owner
        self.inner = inner


class Infeasible(BaseException):
    pass


class Restart(BaseException):
    pass


class TooComplex(AnalysisError):
    pass


class Event:
    __slots__ = ("kind", "f", "args", "kw", "result", "node", "func", "extra")

    def __init__(self, kind, f=None, args=(), kw=(), result=None, node=None, func=None, extra=None):
        self.kind = kind
        self.f = f
        self.args = args
        self.kw = kw
        self.result = result
        self.node = node
        self.func = func
        self.extra = extra

    def loc(self):
        line = getattr(self.node, "lineno", "?")
        if self.func is not None:
            return f"{self.func.module.relpath}:{line} in {self.func.qual}"
        return f"line {line}"

    def kwd(self):
        return dict(self.kw)

    def __repr__(self):
        a = ", ".join([show(x) for x in self.args] + [f"{k}={show(v)}" for k, v in self.kw])
        return f"{self.kind}:{show(self.f) if self.f is not None else ''}({a})"


EXT_INTS = {"re.ASCII": 256, "re.A": 256, "re.DOTALL": 16, "re.S": 16, "re.IGNORECASE": 2, "re.I": 2, "re.LOCALE": 4, "re.L": 4,
            "re.MULTILINE": 8, "re.M": 8, "re.UNICODE": 32, "re.U": 32, "re.VERBOSE": 64, "re.X": 64, "re.NOFLAG": 0}


class Path:
    def __init__(self, ip, outcome, value, events):
        self.outcome = outcome  # "return" | "raise"
        self.value = value
        self.events = events
        self.atoms = dict(ip.atoms)
        self.ivals = dict(ip.ivals)
        self.doms = dict(ip.doms)
        self.excl = {k: set(v) for k, v in ip.excl.items()}
        self.types = {k: (set(a), set(b)) for k, (a, b) in ip.types.items()}
        self.loops = dict(ip.loops)
        self.trail = list(ip.trail)
        self.node = ip.last_node
        self.ctx = ip.ctx
        self._ip = ip
        self._q = None

    @property
    def q(self):
        """Queries against the facts of this path."""
        if self._q is None:
            q = object.__new__(Interp)
            q.__dict__.update(self._ip.__dict__)
            q.atoms, q.ivals, q.doms, q.excl, q.types = self.atoms, self.ivals, self.doms, self.excl, self.types
            q.loops = self.loops
            self._q = q
        return self._q

    def same(self, a, b):
        """Do the facts of this path imply a == b (integers)?"""
        a, b = self.q.value_of(a), self.q.value_of(b)
        if a == b:
            return True
        d = lin_add(a, b, -1)
        return self.q.le0(d) is True and self.q.le0(lin_scale(d, -1)) is True

    def le(self, a, b):
        return self.q.le0(lin_add(a, b, -1)) is True

    def exc_name(self):
        e = self.value
        if isinstance(e, Obj):
            return e.cls.name if e.cls else (e.ename or "?").rsplit(".", 1)[-1]
        return "?"


class Frame:
    _n = 0

    def __init__(self, fid, func, parent=None):
        self.fid = fid
        self.func = func
        self.vars = {}
        self.parent = parent
        self.hook = None
        self.hook_mods = None  # (frame, set of names)
        self.nonlocals = set()
        self.globals = set()

    @property
    def module(self):
        return self.func.module


class Config:
    """Per-analysis behaviour; override what is needed."""

    exc_mode = "handlers"  # none | handlers
    assert_mode = "assume"  # assume | fork
    max_paths = 6000
    recursion = 3  # nested inlined calls of one function
    deep_eq = False  # == of objects and containers compares what they hold
    exact_div = False  # division by constants as defined quotients

    def on_call(self, ip, f, args, kwargs, node, frame):
        return NotImplemented

    def on_alloc(self, ip, what, size, node, frame):
        """Something of the given size is made."""

    def on_spread(self, ip, v, node, frame):
        """All of v goes into something new."""

    def on_iop(self, ip, cur, op, rhs, node, frame):
        return False

    def opaque_func(self, func):
        return False

    def opaque_class(self, cls):
        return False

    def may_raise(self, ip, f):
        return True

    def on_index(self, ip, base, key, node, frame):
        return None

    def on_attr(self, ip, base, name, node, frame):
        return NotImplemented

    def on_setattr(self, ip, base, name, value, node, frame):
        return None


PURE_METHODS = {
    "encode", "decode", "to_bytes", "bit_length", "timestamp", "is_integer", "items",
    "keys", "values", "get", "toreadonly", "cast", "copy", "format", "join", "strip",
    "rstrip", "lstrip", "split", "startswith", "endswith", "lower", "upper", "index",
    "from_bytes", "fromtimestamp", "isascii", "isdigit", "isdecimal", "count", "match",
    "group", "tobytes", "hex", "zfill",
}
MUTATORS = {
    "append", "extend", "insert", "update", "pop", "popitem", "clear", "remove",
    "discard", "add", "setdefault", "sort", "reverse", "write", "release",
}
IMPURE_EXT = {"builtins.iter", "builtins.next", "builtins.open", "builtins.input", "builtins.object"}

BUILTIN_DISJOINT = {"str", "int", "float", "bytes", "NoneType", "tuple", "list", "dict", "set",
                    "bytearray", "memoryview", "frozenset", "slice"}


def assigned_names(stmts):
    out = set()
    stack = list(stmts)
    while stack:
        n = stack.pop()
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
            out.add(n.name)
            continue
        if isinstance(n, ast.Lambda):
            continue
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
            # only walrus targets escape
            for w in ast.walk(n):
                if isinstance(w, ast.NamedExpr):
                    out.add(w.target.id)
            continue
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        stack.extend(ast.iter_child_nodes(n))
    return out


def lp_name(key, lp):
    """The name by which a loop variable's symbol is called."""
    if key[0] == "f":
        return f"{lp['objs'][key[1]]!r}.{key[2]}"
    return f"{key[1]}@{key[0]}"


class Interp:
    def __init__(self, project, config=None):
        self.p = project
        self.cfg = config or Config()
        self.loop_mods = {}
        self.not_mono = set()
        self.varies = set()
        self.gcache = {}
        self.ecache = {}
        self.stats = {"paths": 0, "calls": 0, "opaque": 0}
        self.analysed = set()
        self.reset()

    # ------------------------------------------------------------------ driver
    def reset(self):
        self.gstore = {}
        self.atoms = {}
        self.ivals = {}
        self.doms = {}
        self.excl = {}
        self.types = {}
        self.attrs = {}
        self.epochs = {}
        self.events = []
        self.trail = []
        self.loops = {}
        self.oid = 0
        self.nsym = 0
        self.stack = []
        self.exc_ctx = []
        self.cur_loops = []
        self.last_node = None
        self.ctx = None

    def explore(self, setup):
        """Run setup(ip) over every path; returns the list of Paths."""
        restarts = 0
        while True:
            try:
                return self._explore(setup)
            except Restart:
                restarts += 1
                if restarts > 200:
                    raise TooComplex("loop effects did not stabilise") from None

    def _explore(self, setup):
        paths = []
        pending = [()]
        n = 0
        while pending:
            self.prefix = pending.pop()
            self.pending = pending
            self.reset()
            n += 1
            if n > self.cfg.max_paths:
                raise TooComplex(f"more than {self.cfg.max_paths} paths")
            try:
                v = setup(self)
                paths.append(Path(self, "return", v, self.events))
            except AbsRaise as e:
                if e.node is not None:
                    self.last_node = e.node
                paths.append(Path(self, "raise", e.exc, self.events))
            except Infeasible:
                pass
        self.stats["paths"] += len(paths)
        return paths

    def choose(self, n, label=None):
        i = len(self.trail)
        if i < len(self.prefix):
            k = self.prefix[i]
        else:
            k = 0
            for alt in range(n - 1, 0, -1):
                self.pending.append(tuple(self.trail) + (alt,))
        self.trail.append(k)
        return k

    # ------------------------------------------------------------------ values
    def new_oid(self):
        self.oid += 1
        return self.oid

    def fresh(self, name):
        self.nsym += 1
        return ("sym", f"{name}#{self.nsym}")

    def new_obj(self, cls, name=None, symbolic=False):
        return Obj(self.new_oid(), cls, name, symbolic)

    def sym_obj(self, cls, name):
        if isinstance(cls, str):
            cls = self.p.cls(cls)
        return Obj(self.new_oid(), cls, name, True)

    def list_(self, items):
        return ListV(self.new_oid(), list(items))

    def emit(self, kind, f=None, args=(), kw=(), result=None, node=None, frame=None, extra=None):
        ev = Event(kind, f, tuple(args), tuple(kw), result, node,
                   frame.func if frame is not None else None, extra)
        self.events.append(ev)
        return ev

    def raise_(self, name, args=(), node=None):
        """Raise an exception class given by term or builtin name."""
        e = Obj(self.new_oid(), None)
        if isinstance(name, tuple) and name[0] == "cls":
            e.cls = self.p.classes[name[1]]
        elif isinstance(name, tuple):
            e.ename = name[1]
        else:
            e.ename = f"builtins.{name}"
        e.args = tuple(args)
        raise AbsRaise(e, node)

    def exc_names(self, e):
        if isinstance(e, Obj):
            if e.cls is not None:
                return self.p.exc_names(e.cls)
            return ext_exc_names(e.ename)
        return {"builtins.Exception", "builtins.BaseException"}

    # ------------------------------------------------------------------ facts
    def lin_iv(self, L):
        """Interval of a linear form (coefs tuple, no const)."""
        lo, hi = self.ivals.get(L, (None, None))
        if len(L) >= 1:
            slo = shi = 0
            for t, c in L:
                if len(L) == 1 and c == 1:
                    a, b = self.base_iv(t)
                else:
                    a, b = self.ivals.get(((t, 1),), (None, None))
                    a2, b2 = self.base_iv(t)
                    a = a2 if a is None else (a if a2 is None else max(a, a2))
                    b = b2 if b is None else (b if b2 is None else min(b, b2))
                if c < 0:
                    a, b = b, a
                slo = None if (slo is None or a is None) else slo + c * a
                shi = None if (shi is None or b is None) else shi + c * b
            if slo is not None:
                lo = slo if lo is None else max(lo, slo)
            if shi is not None:
                hi = shi if hi is None else min(hi, shi)
        # one-step combination with a known fact over a sub-form
        return lo, hi

    def base_iv(self, t):
        if isinstance(t, tuple):
            if t[0] == "len":
                return (0, None)
            if t[0] == "sym" and len(t) > 2 and t[2] == "nat":
                return (0, None)
            if t[0] == "call" and t[1] == ("ext", "builtins.len"):
                return (0, None)
            if t[0] == "attr" and t[2] in ("bit_length",):
                return (0, None)
            if t[0] == "op" and t[1] == "&" and len(t[2]) == 2:
                m = [x[2] for x in t[2] if is_int(x) and x[2] >= 0]
                if m:
                    return (0, int(min(m)))
            if t[0] == "op" and t[1] == "%" and is_int(t[2][1]) and t[2][1][2] > 0:
                return (0, t[2][1][2] - 1)
            if t[0] == "op" and t[1] in (">>", "//") and is_int(t[2][1]) and t[2][1][2] > 0:
                c = 1 << t[2][1][2] if t[1] == ">>" else t[2][1][2]
                x = t[2][0]
                if is_int(x):
                    return (x[2] // c,) * 2
                lo, hi = self.base_iv(x)
                a, b = self.ivals.get(((x, 1),), (None, None))
                lo = a if lo is None else lo if a is None else max(a, lo)
                hi = b if hi is None else hi if b is None else min(b, hi)
                return (None if lo is None else lo // c, None if hi is None else hi // c)
            if t[0] == "op" and t[1] == "<<" and is_int(t[2][0]) and t[2][0][2] >= 0:
                return (0, None)
        return (None, None)

    def combine_hi(self, L, seen=0):
        """Best upper bound for form L, adding facts that cancel terms."""
        lo, hi = self.lin_iv(L)
        if seen >= 2:
            return hi
        d = dict(L)
        for F, (flo, fhi) in list(self.ivals.items()):
            if F == L or len(F) < 1:
                continue
            fd = dict(F)
            if not set(fd) & set(d):
                continue
            for sgn, bound in ((1, fhi), (-1, flo)):
                if bound is None:
                    continue
                # F*sgn <= bound*sgn ; L = F*sgn + R
                r = dict(d)
                for k, v in fd.items():
                    r[k] = r.get(k, 0) - sgn * v
                r = {k: v for k, v in r.items() if v}
                if len(r) >= len(d) + len(fd):
                    continue
                if not r:
                    rh = 0
                else:
                    if len(r) > len(d):
                        continue
                    rh = self.combine_hi(tuple(sorted(r.items(), key=lambda kv: repr(kv[0]))), seen + 1)
                if rh is not None:
                    b = sgn * bound + rh
                    hi = b if hi is None else min(hi, b)
        return hi

    def le0(self, t):
        """Decide t <= 0 for an integer term; None if unknown."""
        coefs, k = lin_of(t)
        if not coefs:
            return k <= 0
        g = 0
        for c in coefs.values():
            g = _gcd(g, abs(c))
        if g > 1:  # g*L' + k <= 0 is L' <= floor(-k/g)
            r = self.le0(mk_lin({t: c // g for t, c in coefs.items()}, -((-k) // g)))
            if r is not None:
                return r
        L = tuple(sorted(coefs.items(), key=lambda kv: repr(kv[0])))
        hi = self.combine_hi(L)
        if hi is not None:
            hi = hi // g * g
        if hi is not None and hi + k <= 0:
            return True
        N = tuple((a, -b) for a, b in L)
        nhi = self.combine_hi(N)  # -L <= nhi  => L >= -nhi
        if nhi is not None:
            nhi = nhi // g * g
        if nhi is not None and -nhi + k > 0:
            return False
        # integers: L + k <= 1 and L + k != 1 give L + k <= 0 (and dually for the lower bound)
        if hi is not None and hi + k == 1 and self._excluded(L, k - 1):
            return True
        if nhi is not None and -nhi + k == 0 and self._excluded(L, k):
            return False
        neg = self.atoms.get(("le0", L, k))
        return neg

    def _excluded(self, L, k):
        """L + k == 0 is known to be false."""
        if L[0][1] < 0:
            L, k = tuple((a, -b) for a, b in L), -k
        return self.atoms.get(("eq0", L, k)) is False

    def assume_le0(self, t, truth):
        coefs, k = lin_of(t)
        if not coefs:
            if (k <= 0) != truth:
                raise Infeasible
            return
        L = tuple(sorted(coefs.items(), key=lambda kv: repr(kv[0])))
        # store under a canonical orientation
        if L[0][1] < 0:
            # t<=0  <=>  -t >= 0 <=> not(-t <= -1) <=> not(-t+1 <= 0)
            self.assume_le0(lin_add(C(1), lin_scale(t, -1)), not truth)
            return
        g = 0
        for _, c in L:
            g = abs(c) if g == 0 else _gcd(g, abs(c))
        if g > 1:
            # g*L' + k <= 0  <=>  L' <= floor(-k/g)
            L = tuple((a, c // g) for a, c in L)
            if truth:
                bound = (-k) // g
            else:
                bound = (-k) // g
            k = -bound
        lo, hi = self.ivals.get(L, (None, None))
        if truth:
            b = -k
            hi = b if hi is None else min(hi, b)
        else:
            b = -k + 1
            lo = b if lo is None else max(lo, b)
        self.ivals[L] = (lo, hi)
        l2, h2 = self.lin_iv(L)
        if l2 is not None and h2 is not None and l2 > h2:
            raise Infeasible

    def assume_cmp(self, a, op, b):
        """Convenience: add a known fact, e.g. assume_cmp(x, '>=', C(0))."""
        t = {"<=": (a, b), ">=": (b, a)}[op]
        self.assume_le0(lin_add(t[0], t[1], -1), True)

    def split(self, atom):
        """Decide a canonical boolean atom, splitting the path if unknown."""
        if atom in self.atoms:
            return self.atoms[atom]
        r = self.choose(2) == 0
        self.atoms[atom] = r
        return r

    def dom(self, t):
        d = self.doms.get(t)
        if d is None and isinstance(t, tuple) and t[0] == "call" and t[1][0] == "cls":
            c = self.p.classes.get(t[1][1])
            if c is not None and self.p.is_enum(c) and not self.is_flag(c):
                d = frozenset(("enum", c.qual, n) for n in self.enum_info(c))
        if d is not None:
            ex = self.excl.get(t)
            if ex:
                d = frozenset(x for x in d if x not in ex)
        return d

    def assume_eq(self, t, k, truth):
        if truth:
            d = self.dom(t)
            if d is not None and k not in d:
                raise Infeasible
            if k in self.excl.get(t, ()):
                raise Infeasible
            self.doms[t] = frozenset([k])
        else:
            self.excl.setdefault(t, set()).add(k)
            d = self.dom(t)
            if d is not None and not d:
                raise Infeasible

    def value_of(self, t):
        """Replace a term whose domain is a singleton by that value."""
        if isinstance(t, tuple) and t in self.doms:
            d = self.dom(t)
            if d is not None and len(d) == 1:
                return next(iter(d))
        return t

    # --- comparison
    def enum_value(self, t):
        if isinstance(t, tuple) and t[0] == "enum":
            c = self.p.classes[t[1]]
            return self.enum_info(c)[t[2]].get("_value_")
        return None

    def is_flag(self, c):
        return any(
            (k if isinstance(k, str) else k.qual).rsplit(".", 1)[-1] in ("Flag", "IntFlag")
            for k in self.p.mro(c)
        )

    def is_intlike_enum(self, c):
        return any(
            (k if isinstance(k, str) else k.qual).rsplit(".", 1)[-1]
            in ("IntEnum", "IntFlag", "_IntEnum", "StrEnum", "int", "str")
            for k in self.p.mro(c)
        )

    def flag_mask(self, t):
        """(class qual, mask) of a known flag value."""
        if isinstance(t, tuple):
            if t[0] == "flag":
                return t[1], t[2]
            if t[0] == "enum":
                c = self.p.classes[t[1]]
                if self.is_flag(c):
                    v = self.enum_value(t)
                    if is_int(v):
                        return t[1], v[2]
        return None

    def eq(self, a, b, ident=False):
        """Truth of a == b (or a is b); splits the path when undecided."""
        a, b = self.value_of(a), self.value_of(b)
        if a is b or a == b:
            return True
        fa, fb = self.flag_mask(a), self.flag_mask(b)
        if fa and fb:
            return fa == fb
        if fa and is_int(b):
            return fa[1] == b[2]
        if fb and is_int(a):
            return fb[1] == a[2]
        ca = self.is_constlike(a)
        cb = self.is_constlike(b)
        if ca and cb:
            if kind_(a) == "enum" and kind_(b) == "enum":
                return False if ident or not (self.cmp_enum(a) and self.cmp_enum(b)) else (
                    self.enum_value(a) == self.enum_value(b))
            for x, y in ((a, b), (b, a)):
                if kind_(x) == "enum":
                    if ident:
                        return False
                    v = self.enum_value(x)
                    if self.cmp_enum(x) and is_c(v) and is_c(y):
                        return v[2] == y[2]
                    return False
            if is_c(a) and is_c(b):
                if ident:
                    return a == b
                return a[2] == b[2]
            return a == b
        if ca and not cb:
            a, b, ca, cb = b, a, cb, ca
        if cb:
            # term vs constant
            if b == NONE and (self.not_none(a)):
                return False
            if isinstance(a, Obj) and not a.symbolic and not isinstance(b, Obj):
                return False
            if isinstance(a, (ListV, DictV, SetV, Closure, GenV)) and is_c(b):
                return False
            if isinstance(a, tuple) and a[0] in ("fn", "cls", "ext", "bound", "partial", "tup", "call_closure") and is_c(b):
                return False
            d = self.dom(a)
            if d is not None:
                if b not in d:
                    return False
                if len(d) == 1:
                    return True
            if b in self.excl.get(a, ()):
                return False
            if self.type_excludes(a, b):
                return False
            if ident and is_c(b) and known_type(a) not in (None, b[1]):
                return False
            if is_int(b) and not ident and self.intlike(a):
                return self.cmp_eq0(lin_add(a, b, -1), (a, b))
            tr = self.known_truth(a)
            if tr is True and is_c(b) and not b[2] and b[1] != "int":
                return False
            r = self.choose(2) == 0
            self.assume_eq(a, b, r)
            return r
        if isinstance(a, (Obj, ListV, DictV, SetV)) and isinstance(b, (Obj, ListV, DictV, SetV)) and ident:
            if not getattr(a, "symbolic", False) or not getattr(b, "symbolic", False):
                return False
        if self.intlike(a) and self.intlike(b) and not ident:
            return self.cmp_eq0(lin_add(a, b, -1), None)
        da, db = self.dom(a), self.dom(b)
        if da is not None and db is not None and not (da & db):
            return False
        key = tuple(sorted((a, b), key=repr))
        return self.split(("is" if ident else "eq",) + key)

    def cmp_enum(self, t):
        return self.is_intlike_enum(self.p.classes[t[1]])

    def cmp_eq0(self, t, pair):
        coefs, k = lin_of(t)
        if not coefs:
            return k == 0
        L = tuple(sorted(coefs.items(), key=lambda kv: repr(kv[0])))
        if L[0][1] < 0:
            L = tuple((a, -c) for a, c in L)
            k = -k
        if self.le0(("lin", L, k - 1)) is True or self.le0(("lin", L, k)) is False:
            # L + k < 0 or > 0
            if self.le0(("lin", L, k + 1)) is True or self.le0(("lin", L, k)) is False:
                return False
        le = self.le0(("lin", L, k))
        ge = self.le0(("lin", tuple((a, -c) for a, c in L), -k))
        if le is True and ge is True:
            return True
        atom = ("eq0", L, k)
        if atom in self.atoms:
            return self.atoms[atom]
        r = self.choose(2) == 0
        self.atoms[atom] = r
        if r:
            self.assume_le0(("lin", L, k), True)
            self.assume_le0(("lin", tuple((a, -c) for a, c in L), -k), True)
            if len(L) == 1 and L[0][1] == 1:
                self.doms.setdefault(L[0][0], frozenset([C(-k)]))
        return r

    def intlike(self, t):
        if is_int(t):
            return True
        if isinstance(t, tuple):
            if t[0] in ("lin", "len"):
                return True
            if t[0] == "sym" and len(t) > 2 and t[2] in ("nat", "int"):
                return True
            if t[0] == "call" and t[1] in (("ext", "builtins.len"), ("ext", "builtins.int")):
                return True
            if t[0] == "op" and t[1] in ("//", "%", "&", ">>", "<<", "^"):
                return True
            if t[0] == "lv":
                return True
            if known_type(t) == "int":
                return True
            if "int" in self.types.get(t, (set(), set()))[0]:
                return True
        return False

    def is_constlike(self, t):
        return isinstance(t, tuple) and (
            t[0] in ("c", "enum", "cls", "fn", "flag")
            or (t[0] == "ext" and t[1].startswith("builtins."))
        )

    def not_none(self, t):
        if isinstance(t, (Obj, ListV, DictV, SetV, Closure, GenV)):
            return True
        if isinstance(t, tuple):
            if t[0] in ("lin", "len", "fn", "cls", "tup", "fset", "bound", "partial", "flag", "enum", "op", "fstr", "slice", "dispatch"):
                return True
            if t[0] == "sym" and len(t) > 2 and t[2] in ("nat", "int", "bytes", "str", "obj"):
                return True
            if t[0] == "call" and t[1][0] == "cls":
                return True
            if t[0] == "call" and t[1][0] == "ext" and t[1][1] in (
                "builtins.memoryview", "builtins.len", "builtins.int", "builtins.str", "builtins.tuple", "builtins.list",
                "builtins.dict", "builtins.set", "builtins.frozenset", "builtins.float", "builtins.bool", "builtins.range",
                "builtins.bytes", "builtins.bytearray", "struct.pack"):
                return True
            if is_c(t):
                return t != NONE
            if known_type(t) not in (None, "NoneType"):
                return True
            yes = self.types.get(t, (set(), set()))[0]
            if yes and "NoneType" not in yes:
                return True
            if self.known_truth(t) is True:
                return True
        return False

    def known_truth(self, t):
        return self.atoms.get(("truthy", t))

    def type_excludes(self, t, k):
        """Type facts of t rule out the constant k."""
        yes, no = self.types.get(t, (set(), set()))
        if is_c(k):
            n = k[1]
            if n == "NoneType" and yes and "NoneType" not in yes:
                return True
            if yes & BUILTIN_DISJOINT and n in BUILTIN_DISJOINT and n not in yes:
                return not (n == "bool" and "int" in yes)
            if n in no:
                return True
        if isinstance(k, tuple) and k[0] == "enum" and k[1] in no:
            return True
        return False

    def compare(self, op, a, b):
        """Truth of an ordering comparison."""
        a, b = self.value_of(a), self.value_of(b)
        for t in (a, b):
            if kind_(t) == "enum" and self.cmp_enum(t):
                v = self.enum_value(t)
                if t is a:
                    a = v
                else:
                    b = v
        if is_c(a) and is_c(b):
            try:
                return {"<": a[2] < b[2], "<=": a[2] <= b[2], ">": a[2] > b[2], ">=": a[2] >= b[2]}[op]
            except TypeError:
                self.raise_("TypeError")
        if op in (">", ">="):
            a, b, op = b, a, {">": "<", ">=": "<="}[op]
        for x, y in ((a, b), (b, a)):
            # None cannot be ordered against an integer
            if is_int(y) and isinstance(x, tuple) and x[0] in ("elem", "idx", "lv", "sym", "call", "attr") and (
                    x in self.excl or self.doms.get(x) is None):
                self.excl.setdefault(x, set()).add(NONE)
        va, vb = version_of(a), version_of(b)
        if va is not None and vb is not None:
            return va < vb if op == "<" else va <= vb
        # a < b   <=>  not (b <= a)
        if self.nonint(a) or self.nonint(b):
            if op == "<":
                return not self.split(("le", b, a))
            return self.split(("le", a, b))
        if op == "<":
            t = lin_add(b, a, -1)  # b - a <= 0 ?
            return not self.split_le0(t)
        return self.split_le0(lin_add(a, b, -1))

    def nonint(self, t):
        return (is_c(t) and t[1] in NONINT) or (isinstance(t, tuple) and t[0] in ("fstr", "tup", "call") and not self.intlike(t) and version_like(t))

    def split_le0(self, t):
        r = self.le0(t)
        if r is not None:
            return r
        r = self.choose(2) == 0
        self.assume_le0(t, r)
        coefs, k = lin_of(t)
        self.atoms[("le0", tuple(sorted(coefs.items(), key=lambda kv: repr(kv[0]))), k)] = r
        return r

    def contains(self, x, coll, node=None, frame=None):
        """Truth of `x in coll`."""
        x = self.value_of(x)
        coll = self.value_of(coll)
        if isinstance(coll, Obj):
            m = self.p.find_method(coll.cls, "__contains__") if coll.cls else None
            if m is not None:
                return self.truth(self.call(("fn", m.qual), [coll, x], {}, node, frame), node, frame)
            self.maybe_raise(("attr", coll, "__contains__"), node, frame)
            return self.split(("in", x, coll))
        items = None
        if isinstance(coll, tuple):
            if coll[0] == "fset":
                items = list(coll[1])
            elif coll[0] == "tup":
                items = list(coll[1])
            elif coll[0] == "ntup":
                items = list(coll[2])
            elif coll[0] == "cls":
                c = self.p.classes[coll[1]]
                if self.p.is_enum(c):
                    if kind_(x) == "enum":
                        return x[1] == coll[1]
                    if is_c(x):
                        return any(i.get("_value_") == x for i in self.enum_info(c).values())
                    d = self.dom(x)
                    if d is not None and all(kind_(k) == "enum" and k[1] == coll[1] for k in d):
                        return True
                    return self.split(("in", x, coll))
            elif coll[0] == "call" and coll[1] == ("ext", "builtins.range"):
                a = coll[2]
                lo, hi = (C(0), a[0]) if len(a) == 1 else (a[0], a[1])
                if len(a) <= 2 or a[2] == C(1):
                    if not self.compare("<=", lo, x):
                        return False
                    return self.compare("<", x, hi)
            elif coll[0] in ("flag", "enum") or self.flag_mask(coll):
                fc, fx = self.flag_mask(coll), self.flag_mask(x)
                if fc and fx:
                    return (fc[1] & fx[1]) == fx[1]
        elif isinstance(coll, ListV) and coll.items is not None:
            items = coll.items
        elif isinstance(coll, SetV) and coll.items is not None:
            items = list(coll.items)
        elif isinstance(coll, DictV) and coll.rest is None:
            items = list(coll.items)
        if items is not None:
            if all(self.is_constlike(i) for i in items):
                if self.is_constlike(x):
                    return any(self.eq(x, i) for i in items)
                s = frozenset(items)
                d = self.dom(x)
                if d is not None:
                    if d <= s:
                        return True
                    if not (d & s):
                        return False
                elif s <= self.excl.get(x, set()):
                    return False
                r = self.choose(2) == 0
                if r:
                    self.doms[x] = (d & s) if d is not None else s - self.excl.get(x, set())
                else:
                    self.excl.setdefault(x, set()).update(s)
                    d = self.dom(x)
                    if d is not None and not d:
                        raise Infeasible
                return r
            for i in items:
                if self.eq(x, i):
                    return True
            return False
        if isinstance(coll, DictV) and x in coll.items:
            return True
        fx = self.flag_mask(x)
        return self.split(("in", x if not fx else ("flag",) + fx, self.versioned(coll)))

    def versioned(self, t):
        e = self.epochs.get(t)
        return t if e is None else ("ver", t, e)

    def isinstance_(self, x, k, node=None, frame=None):
        x = self.value_of(x)
        if isinstance(k, tuple) and k[0] == "tup":
            return any(self.isinstance_(x, i, node, frame) for i in k[1])
        if isinstance(k, tuple) and k[0] == "op" and k[1] == "|":
            return any(self.isinstance_(x, i, node, frame) for i in k[2])
        kn = self.cls_name(k)
        if kn is None:
            return self.split(("isinstance", x, k))
        if isinstance(x, Obj) and x.cls is not None:
            names = self.type_names(x.cls)
            if kn in names:
                return True
            if not x.symbolic or x.exact:
                if kn in self.p.classes and self.is_protocol(self.p.classes[kn]):
                    return self.split(("isinstance", x, k))
                return False
        if is_c(x):
            pt = type(x[2])
            b = getattr(builtins, kn, None)
            if isinstance(b, type):
                return isinstance(x[2], b)
            if kn == "NoneType":
                return x[2] is None
            if kn in self.p.classes:
                return False
            if kn.startswith("collections.abc."):
                import collections.abc as abc_
                b = getattr(abc_, kn.rsplit(".", 1)[-1], None)
                return isinstance(x[2], b) if b else False
            del pt
            return self.split(("isinstance", x, k))
        if kind_(x) == "enum":
            c = self.p.classes[x[1]]
            return kn in self.type_names(c)
        if kind_(x) == "tup" and self.is_sub("tuple", kn):
            return True
        if kind_(x) == "fset":
            if self.is_sub("frozenset", kn):
                return True
            if kn in BUILTIN_DISJOINT or kn in self.p.classes or hasattr(builtins, kn):
                return False
        if kind_(x) == "tup" and kn in BUILTIN_DISJOINT:
            return False
        if isinstance(x, ListV):
            return kn == "list" or kn.endswith((".Sequence", ".Collection", ".Iterable"))
        if isinstance(x, DictV):
            return kn == "dict" or kn.endswith((".Mapping", ".MutableMapping", ".Collection"))
        if isinstance(x, SetV):
            return kn == "set" or kn.endswith((".Set", ".MutableSet", ".Collection", ".Iterable"))
        yes, no = self.types.get(x, (set(), set()))
        kt = known_type(x)
        if kt is not None and kt not in yes:
            yes = yes | {kt}
        for y in yes:
            if self.is_sub(y, kn):
                return True
        if kt is not None and kn in BUILTIN_DISJOINT and not self.is_sub(kt, kn):
            return False
        if kt == "memoryview" and kn in self.p.classes and not self.is_protocol(self.p.classes[kn]):
            return False
        for n in no:
            if self.is_sub(kn, n):
                return False
        if kn in BUILTIN_DISJOINT and any(y in BUILTIN_DISJOINT and y != kn for y in yes):
            return False
        if kn == "bool" and any(y in BUILTIN_DISJOINT and y != "int" for y in yes) or kn in BUILTIN_DISJOINT and kn != "int" and "bool" in yes:
            return False
        if kn in BUILTIN_DISJOINT and any(y in self.p.classes for y in yes):
            if not any(kn in self.type_names(self.p.classes[y]) for y in yes if y in self.p.classes):
                return False
        d = self.dom(x)
        if d is not None:
            rs = {self.isinstance_(v, k, node, frame) for v in d if self.is_constlike(v)}
            if len(rs) == 1:
                return rs.pop()
        if is_int(k):
            pass
        if self.intlike(x) and kn in BUILTIN_DISJOINT and kn != "int":
            return False
        if kn == "bool" and (kind_(x) in ("lin", "len") or kind_(x) == "call" and known_type(x) == "int"):
            return False
        if self.intlike(x) and kn == "int":
            return True
        if kn == "NoneType":
            return self.eq(x, NONE)
        r = self.split(("isinstance", x, ("cls", kn)))
        y, n = self.types.setdefault(x, (set(), set()))
        (y if r else n).add(kn)
        return r

    def is_protocol(self, c):
        return any((b if isinstance(b, str) else b.qual).endswith("Protocol") for b in self.p.bases(c))

    def type_names(self, c):
        hit = self.p.__dict__.setdefault("_type_names", {}).get(c.qual)
        if hit is None:
            hit = self.p._type_names[c.qual] = self.type_names_(c)
        return hit

    def type_names_(self, c):
        out = set()
        for k in self.p.mro(c):
            if isinstance(k, Class):
                for v in self.p.virtual_bases(k):
                    if isinstance(v, Class) and v.qual != c.qual:
                        out |= self.type_names(v)
                    elif isinstance(v, str):
                        out.add(v.replace("typing.", "collections.abc.").replace("builtins.", ""))
        for k in self.p.mro(c):
            out.add(k.qual if isinstance(k, Class) else k.replace("typing.", "collections.abc.") if k.startswith("typing.") else k.replace("builtins.", ""))
        if self.p.is_enum(c):
            short = {n.rsplit(".", 1)[-1] for n in out}
            if short & {"IntEnum", "IntFlag", "_IntEnum"}:
                out.add("int")
            if "StrEnum" in short:
                out.add("str")
        for k in list(out):
            b = getattr(builtins, k, None)
            if isinstance(b, type):
                out.update(x.__name__ for x in b.__mro__)
        abcs = {"collections.abc.MutableMapping": ["collections.abc.Mapping", "collections.abc.Collection", "collections.abc.Iterable"],
                "collections.abc.MutableSet": ["collections.abc.Set", "collections.abc.Collection", "collections.abc.Iterable"],
                "collections.abc.MutableSequence": ["collections.abc.Sequence", "collections.abc.Collection", "collections.abc.Iterable"]}
        for k in list(out):
            for a in abcs.get(k, ()):
                out.add(a)
        return out

    def is_sub(self, a, b):
        """Is class name a known to be a subclass of class name b?"""
        if a == b:
            return True
        if a in self.p.classes:
            return b in self.type_names(self.p.classes[a])
        ba, bb = getattr(builtins, a, None), getattr(builtins, b, None)
        if isinstance(ba, type) and isinstance(bb, type):
            return issubclass(ba, bb)
        if isinstance(ba, type) and b.startswith("collections.abc."):
            import collections.abc as abc_
            k = getattr(abc_, b.rsplit(".", 1)[-1], None)
            return isinstance(k, type) and issubclass(ba, k)
        return False

    def cls_name(self, k):
        if isinstance(k, tuple):
            if k[0] == "cls":
                return k[1]
            if k[0] == "ext":
                return k[1].replace("builtins.", "").replace("typing.AbstractSet", "collections.abc.Set").replace("types.NoneType", "NoneType")
            if k == NONE:
                return "NoneType"
        return None

    # --- truthiness
    def truth(self, t, node=None, frame=None):
        t = self.value_of(t)
        if is_c(t):
            return bool(t[2])
        if isinstance(t, ListV):
            return self.split(("truthy", t)) if t.items is None else bool(t.items)
        if isinstance(t, SetV):
            return self.split(("truthy", t)) if t.items is None else bool(t.items)
        if isinstance(t, DictV):
            if t.items or t.rest is None:
                return bool(t.items)
            return self.split(("truthy", t))
        if isinstance(t, (Closure, GenV, GenExp)):
            return True
        if isinstance(t, Obj):
            if t.cls is None:
                return True
            m = self.p.find_method(t.cls, "__bool__") or self.p.find_method(t.cls, "__len__")
            if m is None:
                return True
            r = self.call_func(m, [t], {}, node, frame)
            return self.truth(r, node, frame)
        k = t[0]
        if k in ("fn", "cls", "bound", "partial", "dispatch", "mcall", "newtype"):
            return True
        if k == "ext":
            return True
        if k in ("tup", "fset"):
            return bool(t[1])
        if k == "flag":
            return bool(t[2])
        if k == "enum":
            v = self.enum_value(t)
            c = self.p.classes[t[1]]
            if self.is_intlike_enum(c) or self.is_flag(c):
                return bool(v[2]) if is_c(v) else True
            return True
        if k == "cond":
            return self.cond(t, node, frame)
        if k == "isinstance?":
            return self.isinstance_(t[1], t[2])
        if self.intlike(t):
            return not self.cmp_eq0(t, None)
        if NONE in self.excl.get(t, ()) and False:
            return True
        d = self.dom(t)
        if d is not None and d and all(self.is_constlike(x) and kind_(x) in ("c", "enum") for x in d):
            rs = {self.truth(x) for x in d}
            if len(rs) == 1:
                return rs.pop()
        r = self.split(("truthy", t))
        if not r:
            pass
        return r

    def cond(self, t, node=None, frame=None):
        op = t[1]
        if op in ("==", "is"):
            return self.eq(t[2], t[3], op == "is")
        if op in ("!=", "is not"):
            return not self.eq(t[2], t[3], op == "is not")
        if op in ("<", "<=", ">", ">="):
            return self.compare(op, t[2], t[3])
        if op == "in":
            return self.contains(t[2], t[3], node, frame)
        if op == "not in":
            return not self.contains(t[2], t[3], node, frame)
        if op == "not":
            return not self.truth(t[2], node, frame)
        raise AnalysisError(f"condition {op}")

    # ------------------------------------------------------------------ enums
    def enum_info(self, c):
        if c.qual in self.ecache:
            return self.ecache[c.qual]
        info = {}
        self.ecache[c.qual] = info
        save = (self.events, self.trail)
        self.events = []
        new = self.p.find_method(c, "__new__")
        fr = Frame(-1, _body_func(c))
        seen = {}
        lastint = 0
        body = fr
        for name in c.order:
            val, ann, st = c.attrs[name]
            if val is None or name.startswith("_"):
                continue
            v = self.ev(val, body)
            if kind_(v) == "ext" and v[1] in EXT_INTS:
                v = C(EXT_INTS[v[1]])
            body.vars[name] = v
            if isinstance(v, (Closure,)) or (isinstance(v, tuple) and v[0] in ("fn",)):
                continue
            rec = {}
            args = list(v[1]) if kind_(v) == "tup" else [v]
            if v == ("call", ("ext", "enum.auto"), (), (), 0):
                lastint += 1
                v = C(lastint)
                args = [v]
            if new is not None and new.cls is not None:
                o = self.call_func(new, [("cls", c.qual)] + args, {}, None, fr)
                if isinstance(o, Obj):
                    rec.update(o.fields)
                rec.setdefault("_value_", rec.get("__int__", v))
            else:
                rec["_value_"] = v
                dc = next((k for k in self.p.mro(c) if isinstance(k, Class) and k.is_dataclass() and k is not c), None)
                init = self.p.find_method(c, "__init__")
                if init is not None:
                    o = self.new_obj(c)
                    self.call_func(init, [o] + args, {}, None, fr)
                    rec.update(o.fields)
                elif dc is not None:
                    o = self.new_obj(c)
                    self.dataclass_init(o, args, {}, None, fr, upto=dc)
                    rec.update(o.fields)
            if is_int(rec["_value_"]):
                lastint = rec["_value_"][2]
            key = rec["_value_"]
            if key in seen:
                rec["_alias_"] = seen[key]
                info[name] = rec
                continue
            seen[key] = name
            info[name] = rec
            body.vars[name] = ("enum", c.qual, name)
        self.events, self.trail = save[0], self.trail
        # drop aliases into canonical references
        self.ecache[c.qual] = {k: v for k, v in info.items() if "_alias_" not in v}
        self.ecache[c.qual + "#alias"] = {k: v["_alias_"] for k, v in info.items() if "_alias_" in v}
        return self.ecache[c.qual]

    def enum_member(self, c, name):
        info = self.enum_info(c)
        if name in info:
            return ("enum", c.qual, name)
        al = self.ecache.get(c.qual + "#alias", {})
        if name in al:
            return ("enum", c.qual, al[name])
        return None

    # ------------------------------------------------------------------ names
    def global_value(self, module, name):
        key = (module.name, name)
        if key in self.gstore:
            return self.gstore[key]
        r = self.p.lookup_in(module, name)
        return self.resolved(r, key)

    def resolved(self, r, key=None):
        k, v = r
        if k == "func":
            return ("fn", v.qual)
        if k == "class":
            return ("cls", v.qual)
        if k == "module":
            return ("mod", v.name)
        if k == "ext":
            if v.startswith("builtins.") or "." in v:
                return ("ext", v)
            return ("ext", v)
        if k in ("expr", "item"):
            m, n, node = v
            ck = (m.name, n)
            if ck in self.gstore:
                return self.gstore[ck]
            if n in self.p.rebound(m):
                return ("sym", f"{m.name}.{n}", "obj")
            if ck in self.gcache:
                return self.gcache[ck]
            self.gcache[ck] = ("sym", f"{m.name}.{n}")
            fr = Frame(-1, _module_func(m))
            save_ev, save_ctx, save_oid = self.events, self.exc_ctx, self.oid
            self.events, self.exc_ctx = [], []
            self.oid = -100000 - len(self.gcache) * 1000
            try:
                if k == "item":
                    val = self.ev(node[0], fr)
                    val = self.getitem(val, C(node[1]), None, fr)
                else:
                    val = self.ev(node, fr)
            finally:
                self.events, self.exc_ctx, self.oid = save_ev, save_ctx, save_oid
            if isinstance(val, GenExp):
                val = ("sym", f"{m.name}.{n}")
            self._shared(val)
            self.gcache[ck] = val
            return val
        if k == "classattr":
            c, n = v
            return self.class_attr(c, n)
        return ("sym", f"?{key}")

    @staticmethod
    def _shared(val):
        """A container empty at import is there to be filled: any content."""
        if isinstance(val, (SetV, ListV)) and val.items is not None and not len(val.items):
            val.items = None
        elif isinstance(val, DictV) and not val.items and val.rest is None:
            val.rest = ("sym", f"shared{val.oid}", "dict")

    def class_attr(self, c, name):
        if self.p.is_enum(c):
            m = self.enum_member(c, name)
            if m is not None:
                return m
        for k in self.p.mro(c):
            if isinstance(k, Class):
                if name in k.methods:
                    f = k.methods[name]
                    if f.is_class:
                        return ("bound", ("fn", f.qual), ("cls", c.qual))
                    return ("fn", f.qual)
                if name in k.attrs and k.attrs[name][0] is not None:
                    ck = (k.qual, "attr", name)
                    if ck in self.gcache:
                        return self.gcache[ck]
                    val = self.ev(k.attrs[name][0], Frame(-1, _body_func(k)))
                    self._shared(val)
                    self.gcache[ck] = val
                    return val
        if name in ("__name__", "__qualname__"):
            return C(c.name)
        if name == "__module__":
            return C(c.module.name)
        if name == "__mro__":
            return ("tup", tuple(("cls", k.qual) if isinstance(k, Class) else ("ext", k) for k in self.p.mro(c)))
        if name == "__members__":
            info = self.enum_info(c)
            return DictV(self.new_oid(), {C(n): ("enum", c.qual, n) for n in info})
        return ("attr", ("cls", c.qual), name)

    def lookup(self, name, frame):
        f = frame
        while f is not None:
            if name in f.vars and name not in f.globals:
                return f.vars[name]
            f = f.parent
        c = frame.func
        return self.global_value(c.module, name)

    def mangle(self, name, frame):
        if name.startswith("__") and not name.endswith("__"):
            f = frame
            while f is not None:
                if f.func.cls is not None:
                    return f"_{f.func.cls.name.lstrip('_')}{name}"
                f = f.parent
        return name

    # ------------------------------------------------------------------ attributes
    def getattr_(self, base, name, node, frame):
        base = self.value_of(base)
        r = self.cfg.on_attr(self, base, name, node, frame)
        if r is not NotImplemented:
            return r
        if isinstance(base, Obj):
            return self.obj_attr(base, name, node, frame)
        if isinstance(base, Super):
            return self.super_attr(base, name, node, frame)
        if isinstance(base, (ListV, DictV, SetV)):
            return ("cmeth", base, name)
        if isinstance(base, Closure):
            return base.func.name and C(base.func.name) if name == "__name__" else ("attr", base, name)
        if isinstance(base, (GenV, GenExp)):
            return ("attr", base, name)
        k = base[0]
        if k == "call" and base[1] == ("ext", "struct.Struct") and base[2]:
            # a compiled struct format
            if name == "size":
                return self.call(("ext", "struct.calcsize"), [base[2][0]], {}, node, frame)
            if name in ("pack", "unpack", "unpack_from", "pack_into", "iter_unpack"):
                return ("partial", ("ext", f"struct.{name}"), (base[2][0],), ())
            if name == "format":
                return base[2][0]
        if k == "mod":
            return self.global_value(self.p.modules[base[1]], name)
        if k == "ext":
            if name == "__name__":
                return C(base[1].rsplit(".", 1)[-1])
            return ("ext", f"{base[1]}.{name}")
        if k == "cls":
            return self.class_attr(self.p.classes[base[1]], name)
        if k == "fn":
            f = self.p.funcs.get(base[1])
            if name in ("__name__", "__qualname__") and f is not None:
                return C(f.name)
            return ("attr", base, name)
        if k == "enum":
            c = self.p.classes[base[1]]
            info = self.enum_info(c)[base[2]]
            if name in ("value", "_value_"):
                return info["_value_"]
            if name in ("name", "_name_"):
                return C(base[2])
            if name in info:
                return info[name]
            f = self.p.find_method(c, name)
            if f is not None:
                return self.bind_method(f, base, c, node, frame)
            return ("attr", base, name)
        if k == "ntup":
            c = self.p.classes[base[1]]
            fs = [n for n in c.order]
            if name in fs:
                return base[2][fs.index(name)]
        if k == "flag":
            c = self.p.classes[base[1]]
            if name in ("value", "_value_"):
                return C(base[2])
            f = self.p.find_method(c, name)
            if f is not None:
                return self.bind_method(f, base, c, node, frame)
        if (base, name) in self.attrs:
            return self.attrs[(base, name)]
        # symbols with a known project class
        d = self.dom(base)
        if d and len(d) <= 64 and all(kind_(x) == "enum" for x in d):
            cq = {x[1] for x in d}
            if len(cq) == 1:
                c = self.p.classes[cq.pop()]
                if name == "name":
                    return ("attr", base, "name")
                if name == "value" and not self.is_flag(c):
                    return ("attr", base, "value")
                f = self.p.find_method(c, name)
                if f is not None and f.is_property:
                    v = self.split_dom(base)
                    return self.getattr_(v, name, node, frame)
        yes = self.types.get(base, (set(), set()))[0]
        for y in sorted(yes):
            if y in self.p.classes:
                c = self.p.classes[y]
                f = self.p.find_method(c, name)
                if f is not None and not self.is_protocol(c) and not self.cfg.opaque_func(f):
                    if f.is_property and self.inline_ok(f):
                        pass
        return ("attr", base, name)

    def split_dom(self, t):
        d = sorted(self.dom(t), key=repr)
        i = self.choose(len(d))
        self.doms[t] = frozenset([d[i]])
        return d[i]

    def inline_ok(self, f):
        return True

    def bind_method(self, f, self_, c, node, frame):
        if f.is_property:
            return self.call_func(f, [self_], {}, node, frame)
        if f.is_static:
            return ("fn", f.qual)
        if f.is_class:
            return ("bound", ("fn", f.qual), ("cls", c.qual))
        if f.is_dispatch:
            return ("dispatch", f.qual, self_)
        return ("bound", ("fn", f.qual), self_)

    def obj_attr(self, o, name, node, frame):
        if name in o.fields:
            return o.fields[name]
        if name == "__class__":
            return ("cls", o.cls.qual) if o.cls else ("ext", o.ename or "object")
        if name == "args" and o.args:
            return ("tup", tuple(o.args))
        if o.cls is not None:
            found = self.p.find_attr(o.cls, name)
            if found is not None:
                if found[0] == "func":
                    f = found[1]
                    if self.is_stub(f) and o.symbolic:
                        if f.is_property:
                            return self.sym_field(o, name)
                        return ("attr", o, name)
                    return self.bind_method(f, o, o.cls, node, frame)
                k, n = found[1]
                if o.symbolic and self.is_protocol(k) and ast.unparse(k.attrs[n][0] or ast.Constant(...)) == "...":
                    return self.sym_field(o, name)
                if not (o.symbolic and k.is_dataclass() and k.attrs[n][1] is not None):
                    v = self.class_attr(k, n)
                    # a dataclass field() default is not a class attribute value
                    if not (isinstance(v, tuple) and v[0] == "call" and v[1] == ("ext", "dataclasses.field")):
                        return v
        if o.symbolic or o.cls is None or True:
            return self.sym_field(o, name)

    def is_stub(self, f):
        """Abstract/protocol methods whose body is only a docstring / ... / pass."""
        if any(d.rsplit(".", 1)[-1] == "abstractmethod" for d in f.decos):
            return True
        if f.cls is not None and self.is_protocol(f.cls):
            return all(
                isinstance(s, ast.Pass)
                or (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant))
                for s in f.node.body
            )
        return False

    def sym_field(self, o, name):
        v = ("attr", o, name)
        o.fields[name] = v
        return v

    def super_attr(self, s, name, node, frame):
        c = s.self_.cls if isinstance(s.self_, Obj) else (
            self.p.classes[s.self_[1]] if kind_(s.self_) in ("cls", "enum", "flag") else s.cls)
        mro = self.p.mro(c) if c is not None else []
        if s.cls in mro:
            mro = mro[mro.index(s.cls) + 1:]
        for k in mro:
            if isinstance(k, Class):
                if name in k.methods:
                    f = k.methods[name]
                    if self.is_stub(f):
                        continue
                    return self.bind_method(f, s.self_, c, node, frame)
            else:
                return ("superattr", k, name, s.self_)
        return ("superattr", "object", name, s.self_)

    def setattr_(self, base, name, value, node, frame):
        base = self.value_of(base)
        self.cfg.on_setattr(self, base, name, value, node, frame)
        if isinstance(base, Obj):
            if base.cls is not None:
                f = self.p.find_method(base.cls, name)
                if f is not None and f.is_property and f.setter is not None:
                    self.call_func(f.setter, [base, value], {}, node, frame)
                    return
            old = base.fields.get(name)
            self.note_mod(("f", base.oid, name), base)
            base.fields[name] = value
            self.emit("setattr", ("attr", base, name), (value,), node=node, frame=frame, extra=old)
            return
        key = (base, name)
        self.note_mod(("a", base, name), base)
        old = self.attrs.get(key)
        self.attrs[key] = value
        self.emit("setattr", ("attr", base, name), (value,), node=node, frame=frame, extra=old)

    # ------------------------------------------------------------------ loops
    def note_mod(self, key, obj=None):
        for lp in self.cur_loops:
            if obj is not None and isinstance(obj, (Obj, ListV, DictV, SetV)) and obj.oid > lp["oid0"]:
                continue
            if key in lp["mods"]:
                continue
            lp["learn"].add(key)
            raise Restart

    def havoc(self, lp, frame, names, phase):
        key = lp["key"]
        for fr, ns in self.loop_frames(frame, names):
            for n in sorted(ns):
                if n in fr.vars:
                    init = lp["init"].setdefault((fr.fid, n), fr.vars[n])
                    if self.keeps(lp, n, init):
                        # assumed to be the same after every iteration, until one shows otherwise
                        fr.vars[n] = init
                        lp["kept"].append((fr, n, init))
                        continue
                    fr.vars[n] = ("lv", key, f"{n}@{fr.fid}", phase)
                    self.assume_upper(lp, n, init, fr.vars[n])
                    self.assume_mono(lp, n, init, fr.vars[n])
        for m in sorted(lp["mods"], key=repr):
            if m[0] == "f":
                o = lp["objs"].get(m[1]) or self.find_obj(m[1], frame)
                if o is not None:
                    lp["objs"][m[1]] = o
                    lp["init"].setdefault(m, o.fields.get(m[2]))
                    o.fields[m[2]] = ("lv", key, f"{o!r}.{m[2]}", phase)
                    self.assume_upper(lp, m[2], lp["init"][m], o.fields[m[2]])
                    self.assume_mono(lp, m[2], lp["init"][m], o.fields[m[2]])
            elif m[0] == "a":
                lp["init"].setdefault(m, self.attrs.get((m[1], m[2])))
                self.attrs[(m[1], m[2])] = ("lv", key, f"{m[1]!r}.{m[2]}", phase)
            elif m[0] == "e":
                self.epochs[m[1]] = ("e", key, phase)
            elif m[0] == "items":
                o = lp["objs"].get(m[1]) or self.find_obj(m[1], frame)
                if o is not None:
                    lp["objs"][m[1]] = o
                    if isinstance(o, DictV):
                        o.items = {}
                        o.rest = ("lv", key, repr(o), phase)
                    else:
                        o.items = None
        self.take_uppers(lp)

    def keeps(self, lp, name, init):
        return name not in lp["targets"] and (lp["key"][:3], name) not in self.varies and \
            (is_c(init) or kind_(init) in ("enum", "sym", "attr")) and not (isinstance(init, tuple) and lp["key"] in init)

    def check_kept(self, lp):
        for fr, n, init in lp["kept"]:
            v = fr.vars.get(n)
            if v is not init and v != init:
                self.varies.add((lp["key"][:3], n))
                raise Restart

    def assume_mono(self, lp, name, init, lv):
        """Integer loop variables never fall below their initial value, until an iteration shows otherwise."""
        if (lp["key"][:3], name) in self.not_mono or name in lp["targets"]:
            return
        if is_int(init) and init[1] == "int" or isinstance(init, tuple) and (
                init[0] in ("lin", "len", "lv") or init[0] == "sym" and len(init) > 2 and init[2] in ("nat", "int")):
            self.assume_le0(lin_add(init, lv, -1), True)
            lp["mono"].add((name, lv, None))

    def assume_upper(self, lp, name, init, lv, mark=None):
        """... nor do they pass a length they are below at the start."""
        if name in lp["targets"] or not (is_int(init) and init[1] == "int" or isinstance(init, tuple) and (
                init[0] in ("lin", "len", "lv") or init[0] == "sym" and len(init) > 2 and init[2] in ("nat", "int"))):
            return
        lens = sorted({t for L in list(self.ivals) for t, _ in L if isinstance(t, tuple) and t[0] == "len" and isinstance(t[1], tuple) and t[1][0] == "sym"
                       and "#" not in str(t[1][1])}, key=repr)
        for T in lens:
            for d in (1, 0):
                u = lin_add(C(d), T, -1)
                if (lp["key"][:3], name, u) in self.not_mono:
                    continue
                if self.le0(lin_add(init, u)) is True:
                    lp["uppers"].append((name, lv, u))
                    break

    def take_uppers(self, lp):
        """Assume the bounds collected (after all variables have been havocked)."""
        for name, lv, u in lp["uppers"]:
            self.assume_le0(lin_add(lv, u), True)
            lp["mono"].add((name, lv, u))
        lp["uppers"] = []

    def check_mono(self, lp):
        ends = {}
        for k, v in lp["end"].items():
            ends[lp_name(k, lp)] = v
        for name, lv, u in sorted(lp["mono"], key=repr):
            if lv[3] != "in":
                continue
            end = ends.get(lv[2])
            if u is not None:
                if end is None or self.le0(lin_add(end, u)) is not True:
                    self.not_mono.add((lp["key"][:3], name, u))
                    raise Restart
                continue
            if end is None or self.le0(lin_add(lv, end, -1)) is not True:
                self.not_mono.add((lp["key"][:3], name))
                raise Restart

    def loop_frames(self, frame, names):
        out = [(frame, names)]
        seen = set()
        f = frame
        while f is not None and f.hook_mods is not None and id(f) not in seen:
            seen.add(id(f))
            fr, ns = f.hook_mods
            out.append((fr, ns))
            f = fr
        return out

    def find_obj(self, oid, frame):
        seen = set()
        stack = []
        for fr in self.stack + [frame]:
            f = fr
            while f is not None:
                stack.extend(f.vars.values())
                f = f.parent
        stack.extend(self.roots if hasattr(self, "roots") else [])
        while stack:
            v = stack.pop()
            if id(v) in seen:
                continue
            seen.add(id(v))
            if isinstance(v, (Obj, ListV, DictV, SetV)):
                if v.oid == oid:
                    return v
                if isinstance(v, Obj):
                    stack.extend(v.fields.values())
                elif isinstance(v, DictV):
                    stack.extend(v.items.values())
                elif v.items:
                    stack.extend(v.items)
            elif isinstance(v, Closure):
                stack.extend(v.frame.vars.values() if v.frame else [])
            elif isinstance(v, GenV):
                stack.extend(v.frame.vars.values())
            elif isinstance(v, tuple):
                stack.extend(x for x in v if isinstance(x, (tuple, Obj, ListV, DictV, SetV, Closure, GenV)))
        return None

    def begin_loop(self, node, frame, names, targets=()):
        lkey = (frame.func.qual, getattr(node, "lineno", 0), getattr(node, "col_offset", 0))
        n = sum(1 for k in self.loops if k[:3] == lkey)
        key = lkey + (n,)
        lp = {
            "key": key, "mods": self.loop_mods.setdefault(lkey, set()), "init": {},
            "objs": {}, "targets": set(targets), "node": node, "func": frame.func,
            "end": {}, "entered": False, "oid0": 0, "iter": None, "frame": frame, "mono": set(), "uppers": [], "kept": [],
        }
        lp["learn"] = lp["mods"]
        self.loops[key] = lp
        return lp

    def run_iteration(self, lp, frame, names, body, phase):
        """Havoc and run one arbitrary iteration. Returns 'next' or 'break'."""
        self.havoc(lp, frame, names, phase)
        lp["oid0"] = self.oid
        self.emit("loop", extra=(lp["key"], phase), node=lp["node"], frame=frame)
        self.cur_loops.append(lp)
        try:
            try:
                body()
                how = "next"
            except AbsContinue:
                how = "next"
            except AbsBreak:
                how = "break"
        finally:
            self.cur_loops.remove(lp)
        for fr, ns in self.loop_frames(frame, names):
            for n in ns:
                if n in fr.vars:
                    lp["end"][(fr.fid, n)] = fr.vars[n]
        for m in lp["mods"]:
            if m[0] == "f" and m[1] in lp["objs"]:
                lp["end"][m] = lp["objs"][m[1]].fields.get(m[2])
        if how == "next":
            self.check_kept(lp)
            self.check_mono(lp)
        self.emit("endloop", extra=(lp["key"], how), node=lp["node"], frame=frame)
        return how

    def ex_while(self, st, frame):
        names = assigned_names([st])
        lp = self.begin_loop(st, frame, names)
        static = ast_const(st.test)

        def body():
            if not self.truth_of(st.test, frame):
                raise Infeasible
            self.block(st.body, frame)

        if self.choose(2) == 1:
            lp["entered"] = True
            how = self.run_iteration(lp, frame, names, body, "in")
            if how == "break":
                # covered by the exit iteration below
                raise Infeasible
            self.havoc(lp, frame, names, "out")
        # exit: condition false, or an iteration which leaves the loop
        if static is not True:
            if not self.truth_of(st.test, frame):
                self.block(st.orelse, frame)
                return
        else:
            pass
        self.emit("loop", extra=(lp["key"], "exit"), node=st, frame=frame)
        lp["oid0"] = self.oid
        try:
            self.block(st.body, frame)
        except AbsContinue:
            raise Infeasible from None
        except AbsBreak:
            self.emit("endloop", extra=(lp["key"], "break"), node=st, frame=frame)
            return
        raise Infeasible

    def ex_for(self, st, frame):
        it = self.ev(st.iter, frame)
        self.iterate(st, it, st.target, lambda: self.block(st.body, frame), frame,
                     assigned_names(st.body) | assigned_names([st.target]),
                     lambda: self.block(st.orelse, frame))

    def const_items(self, it, node=None, frame=None):
        """The items of an iterable if they are statically known, else None."""
        it = self.value_of(it)
        if isinstance(it, ListV):
            return it.items
        if isinstance(it, SetV):
            return it.items
        if isinstance(it, DictV):
            return list(it.items) if it.rest is None else None
        if isinstance(it, tuple):
            if it[0] in ("tup",):
                return list(it[1])
            if it[0] == "ntup":
                return list(it[2])
            if it[0] == "fset":
                return sorted(it[1], key=repr)
            if it[0] == "c" and it[1] in ("str", "bytes"):
                return [C(x) for x in it[2]]
            if it[0] == "cls":
                c = self.p.classes[it[1]]
                if self.p.is_enum(c):
                    info = self.enum_info(c)
                    out = []
                    for n in info:
                        if self.is_flag(c):
                            v = info[n]["_value_"]
                            if is_int(v) and (v[2] == 0 or v[2] & (v[2] - 1)):
                                continue
                        out.append(("enum", c.qual, n))
                    return out
            fm = self.flag_mask(it)
            if fm and (it[0] == "flag" or it[0] == "enum"):
                c = self.p.classes[fm[0]]
                return [x for x in self.const_items(("cls", c.qual)) if self.enum_value(x)[2] & fm[1]]
            if it[0] == "call" and it[1] == ("ext", "builtins.range") and all(is_int(a) for a in it[2]):
                r = range(*[a[2] for a in it[2]])
                if len(r) <= 64:
                    return [C(i) for i in r]
            if it[0] == "call" and it[1] == ("ext", "builtins.enumerate") and len(it[2]) == 1:
                x = self.const_items(it[2][0])
                if x is not None:
                    return [("tup", (C(i), v)) for i, v in enumerate(x)]
            if it[0] == "call" and it[1] == ("ext", "builtins.zip"):
                xs = [self.const_items(a) for a in it[2]]
                if xs and all(x is not None for x in xs):
                    return [("tup", tuple(t)) for t in zip(*xs)]
        return None

    def unroll(self, it, node, frame, depth=0):
        """The items of an iterable, following __iter__ and the views of mapping mixins, else None."""
        it = self.value_of(it)
        if depth > 4:
            return None
        items = self.const_items(it)
        if items is not None:
            return items
        if isinstance(it, Obj) and it.cls is not None and not it.symbolic:
            m = self.p.find_method(it.cls, "__iter__")
            if m is not None and not self.is_stub(m) and not m.is_gen:
                return self.unroll(self.call(("bound", ("fn", m.qual), it), [], {}, node, frame), node, frame, depth + 1)
            return None
        if kind_(it) == "iterwrap":
            return self.unroll(it[1], node, frame, depth + 1)
        if kind_(it) != "call" or it[3]:
            return None
        if it[1] == ("ext", "builtins.zip") and it[2]:
            xs = [self.unroll(a, node, frame, depth + 1) for a in it[2]]
            return None if any(x is None for x in xs) else [("tup", t) for t in zip(*xs)]
        if it[1] == ("ext", "builtins.map") and len(it[2]) == 2:
            xs = self.unroll(it[2][1], node, frame, depth + 1)
            return None if xs is None else [self.call(it[2][0], [x], {}, node, frame) for x in xs]
        if kind_(it[1]) in ("attr", "meth") and not it[2] and isinstance(it[1][1], Obj) and it[1][2] in ("keys", "values", "items"):
            o = it[1][1]
            ks, get = self.unroll(o, node, frame, depth + 1), self.p.find_method(o.cls, "__getitem__") if o.cls is not None else None
            if ks is None or get is None or it[1][2] == "keys":
                return ks if it[1][2] == "keys" else None
            vs = [self.call(("bound", ("fn", get.qual), o), [k], {}, node, frame) for k in ks]
            return vs if it[1][2] == "values" else [("tup", t) for t in zip(ks, vs)]
        return None

    def iterate(self, node, it, target, body, frame, names, orelse):
        it = self.value_of(it)
        if self.cfg.deep_eq and not isinstance(it, (GenV, GenExp)):
            items = self.unroll(it, node, frame)
            if items is not None:
                it = ("tup", tuple(items))
        if isinstance(it, Obj) and it.cls is not None:
            m = self.p.find_method(it.cls, "__iter__")
            if m is not None and not self.is_stub(m):
                r = self.call(("bound", ("fn", m.qual), it), [], {}, node, frame)
                it = r
        if isinstance(it, tuple) and it[0] == "iterwrap":
            it = it[1]
        items = self.const_items(it)
        if items is not None and len(items) <= 128:
            for v in list(items):
                if target is not None:
                    self.assign(target, v, frame)
                try:
                    if target is None:
                        body(v)
                    else:
                        body()
                except AbsContinue:
                    continue
                except AbsBreak:
                    return
            orelse()
            return
        if isinstance(it, GenV):
            owner = object()

            def hook(v):
                try:
                    if target is not None:
                        self.assign(target, v, frame)
                        body()
                    else:
                        body(v)
                except AbsContinue:
                    pass
                except (AbsBreak, AbsReturn, AbsRaise) as e:
                    raise Unwind(owner, e) from None
                return NONE

            try:
                self.run_gen(it, hook, (frame, names))
            except Unwind as u:
                if u.owner is not owner:
                    raise
                if isinstance(u.inner, AbsBreak):
                    return
                raise u.inner from None
            orelse()
            return
        if isinstance(it, GenExp):
            owner = object()

            def hook2(v):
                try:
                    if target is not None:
                        self.assign(target, v, frame)
                        body()
                    else:
                        body(v)
                except AbsContinue:
                    pass
                except (AbsBreak, AbsReturn, AbsRaise) as e:
                    raise Unwind(owner, e) from None

            try:
                self.run_genexp(it, hook2, (frame, names))
            except Unwind as u:
                if u.owner is not owner:
                    raise
                if isinstance(u.inner, AbsBreak):
                    return
                raise u.inner from None
            orelse()
            return
        if kind_(it) == "call" and it[1] == ("ext", "builtins.map") and len(it[2]) == 2 and not it[3]:
            fun = it[2][0]

            def mapped(v):
                r = self.call(fun, [v], {}, node, frame)
                if target is not None:
                    self.assign(target, r, frame)
                    body()
                else:
                    body(r)

            self.iterate(node, it[2][1], None, mapped, frame, names, orelse)
            return
        if kind_(it) == "call" and it[1] == ("ext", "itertools.chain") and it[2] and not it[3]:
            broke = []

            def part_body(*a):
                try:
                    body(*a)
                except AbsBreak:
                    broke.append(1)
                    raise

            for part in it[2]:
                self.iterate(node, part, target, part_body, frame, names, lambda: None)
                if broke:
                    return
            orelse()
            return
        # unknown iterable
        lp = self.begin_loop(node, frame, names)
        lp["iter"] = it
        if self.choose(2) == 1:
            lp["entered"] = True
            elem = self.elem_of(it, lp)

            def b():
                if target is not None:
                    self.assign(target, elem, frame)
                    body()
                else:
                    body(elem)

            how = self.run_iteration(lp, frame, names, b, "in")
            if how == "break":
                return
            self.havoc(lp, frame, names, "out")
        elif kind_(it) == "call" and it[1] == ("ext", "builtins.range") and len(it[2]) < 3:
            # nothing is repeated: the range is empty
            d = lin_add(it[2][-1], it[2][0] if len(it[2]) == 2 else C(0), -1)
            if self.le0(d) is False:
                raise Infeasible
            self.assume_le0(d, True)
        orelse()

    def elem_of(self, it, lp):
        key = lp["key"]
        if isinstance(it, tuple) and it[0] == "call" and it[1] == ("ext", "builtins.range"):
            a = it[2]
            lo, hi = (C(0), a[0]) if len(a) == 1 else (a[0], a[1])
            t = ("sym", f"i@{key[0].rsplit('.', 1)[-1]}:{key[3]}", "int", key)
            if len(a) <= 2 or a[2] == C(1):
                self.assume_cmp(t, ">=", lo)
                self.assume_le0(lin_add(lin_add(t, hi, -1), C(1)), True)
            return t
        if isinstance(it, tuple) and it[0] == "call" and it[1] == ("ext", "builtins.enumerate"):
            inner = it[2][0]
            start = it[2][1] if len(it[2]) > 1 else dict(it[3]).get("start", C(0))
            i = lin_add(("sym", f"n@{key[0].rsplit('.', 1)[-1]}:{key[3]}", "nat", key), start)
            return ("tup", (i, self.elem_of(inner, lp)))
        if isinstance(it, tuple) and it[0] == "call" and it[1] == ("ext", "builtins.zip"):
            return ("tup", tuple(self.elem_of(a, lp) for a in it[2]))
        if isinstance(it, tuple) and it[0] == "call" and it[1][0] == "attr" and it[1][2] == "items" and not it[2]:
            return ("tup", (("elem", it, key, 0), ("elem", it, key, 1)))
        return ("elem", it, key)

    # ------------------------------------------------------------------ generators
    def run_gen(self, g, hook, mods):
        if g.consumed:
            return NONE
        g.consumed = True
        fr = g.frame
        fr.hook = hook
        fr.hook_mods = mods
        self.stack.append(fr)
        self.check_depth(g.func)
        try:
            self.block(g.func.node.body, fr)
        except AbsReturn as r:
            return r.value
        finally:
            self.stack.pop()
        return NONE

    def run_genexp(self, g, hook, mods):
        fr = Frame(self.new_oid(), g.frame.func, g.frame)
        fr.hook_mods = mods

        def rec(i):
            if i == len(g.node.generators):
                hook(self.ev(g.node.elt, fr))
                return
            comp = g.node.generators[i]
            it = self.ev(comp.iter, fr if i else g.frame)

            def body():
                for c in comp.ifs:
                    if not self.truth_of(c, fr):
                        return
                rec(i + 1)

            self.iterate(comp.iter, it, comp.target, body, fr, assigned_names([comp.target]), lambda: None)

        rec(0)

    # ------------------------------------------------------------------ calls
    def check_depth(self, func):
        n = sum(1 for f in self.stack if f.func.qual == func.qual)
        if n > 6 or len(self.stack) > 120:
            raise TooComplex(f"recursion in {func.qual}")

    def bind(self, func, args, kwargs, node, frame, closure_frame=None):
        a = func.node.args
        fr = Frame(self.new_oid(), func, closure_frame)
        pos = [x.arg for x in a.posonlyargs + a.args]
        params = list(pos)
        vals = {}
        args = list(args)
        extra = []
        for i, v in enumerate(args):
            if i < len(params):
                vals[params[i]] = v
            else:
                extra.append(v)
        kwonly = [x.arg for x in a.kwonlyargs]
        rest = {}
        posonly = {x.arg for x in a.posonlyargs}
        star = kwargs.pop("**", None) if isinstance(kwargs, dict) else None
        for k, v in kwargs.items():
            if (k in params or k in kwonly) and k not in posonly:
                if k in vals:
                    self.raise_("TypeError", node=node)
                vals[k] = v
            else:
                rest[k] = v
        if extra:
            if a.vararg:
                vals[a.vararg.arg] = ("tup", tuple(extra))
            else:
                self.emit("badcall", ("fn", func.qual), args, node=node, frame=frame)
                self.raise_("TypeError", node=node)
        elif a.vararg:
            vals[a.vararg.arg] = ("tup", ())
        if rest and not a.kwarg:
            self.emit("badcall", ("fn", func.qual), args, node=node, frame=frame)
            self.raise_("TypeError", node=node)
        if a.kwarg:
            vals[a.kwarg.arg] = DictV(self.new_oid(), {C(k): v for k, v in rest.items()}, star)
        defaults = dict(zip(params[len(params) - len(a.defaults):], a.defaults))
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if d is not None:
                defaults[x.arg] = d
        dfr = closure_frame or Frame(-1, _module_func(func.module) if func.cls is None else _body_func(func.cls))
        for n in params + kwonly:
            if n not in vals:
                if n in defaults:
                    vals[n] = self.ev(defaults[n], dfr)
                elif star is not None:
                    vals[n] = ("idx", star, C(n))
                else:
                    self.emit("badcall", ("fn", func.qual), args, node=node, frame=frame)
                    self.raise_("TypeError", node=node)
        fr.vars.update(vals)
        return fr

    def call_func(self, func, args, kwargs, node, frame, closure_frame=None):
        """Inline a project function."""
        self.stats["calls"] += 1
        fr = self.bind(func, args, dict(kwargs), node, frame, closure_frame)
        self.analysed.add(func.qual)
        if isinstance(func.node, ast.Lambda):
            self.stack.append(fr)
            try:
                return self.ev(func.node.body, fr)
            finally:
                self.stack.pop()
        if func.is_gen:
            return GenV(self.new_oid(), func, fr, func.is_ctxmgr)
        self.check_depth(func)
        self.stack.append(fr)
        try:
            self.block(func.node.body, fr)
        except AbsReturn as r:
            return r.value
        finally:
            self.stack.pop()
        return NONE

    def opaque(self, f, args, kwargs, node, frame, pure=False):
        """An uninterpreted call."""
        self.stats["opaque"] += 1
        kw = tuple(sorted(kwargs.items()))
        args = tuple(args)
        gens = [a for a in args if isinstance(a, (GenV, GenExp)) and not getattr(a, "consumed", False)]
        mutates = (isinstance(f, tuple) and f[0] == "attr" and f[2] in MUTATORS)
        if pure:
            recv = f[1] if f[0] == "attr" else None
            e = self.epochs.get(recv) if recv is not None and isinstance(recv, (tuple, Obj)) else None
            res = ("call", f, args, kw, 0 if e is None else ("ep", e))
            if not gens:
                self.maybe_raise(f, node, frame)
                return res
        self.nsym += 1
        res = ("call", f, args, kw, res_n(self.nsym) if not pure else 0)
        self.emit("call", f, args, kw, res, node, frame)
        if mutates:
            self.bump(f[1])
        for g in gens:
            self.consume(g, f, node, frame)
        self.maybe_raise(f, node, frame)
        return res

    def bump(self, t):
        if isinstance(t, (tuple, Obj)):
            self.note_mod(("e", t), t if isinstance(t, Obj) else None)
            self.nsym += 1
            self.epochs[t] = ("n", self.nsym)

    def consume(self, g, f, node, frame):
        """An opaque consumer iterates a generator argument to exhaustion."""
        self.emit("consume", f, (g,), node=node, frame=frame)

        def hook(v):
            self.emit("yielded", f, (v,), node=node, frame=frame)
            return NONE

        if isinstance(g, GenV):
            r = self.run_gen(g, hook, None)
        else:
            r = self.run_genexp(g, hook, None)
        self.emit("consumed", f, (g,), node=node, frame=frame)
        return r

    def maybe_raise(self, f, node, frame):
        if self.cfg.exc_mode == "none" or not self.exc_ctx:
            return
        r = self.cfg.may_raise(self, f)
        if r is False:
            return
        types = []
        for ctx in reversed(self.exc_ctx):
            for t in ctx:
                if t not in types:
                    types.append(t)
        if r is not True:
            types = [t for t in types if t in r]
        if not types:
            return
        k = self.choose(1 + len(types))
        if k:
            self.emit("raised", f, (types[k - 1],), node=node, frame=frame)
            e = Obj(self.new_oid(), None, symbolic=True)
            t = types[k - 1]
            if t[0] == "cls":
                e.cls = self.p.classes[t[1]]
            else:
                e.ename = t[1]
            e.name = "exc"
            raise AbsRaise(e, node)

    def call(self, f, args, kwargs, node, frame):
        f = self.value_of(f)
        self.last_node = node or self.last_node
        if isinstance(f, Closure):
            r = self.cfg.on_call(self, f, args, kwargs, node, frame)
            if r is not NotImplemented:
                return r
            return self.call_func(f.func, args, kwargs, node, frame, f.frame)
        if isinstance(f, Obj):
            m = self.p.find_method(f.cls, "__call__") if f.cls else None
            if m is not None and not self.is_stub(m):
                return self.call(("bound", ("fn", m.qual), f), args, kwargs, node, frame)
            r = self.cfg.on_call(self, f, args, kwargs, node, frame)
            if r is not NotImplemented:
                return r
            return self.opaque(f, args, kwargs, node, frame)
        if not isinstance(f, tuple):
            return self.opaque(("sym", repr(f)), args, kwargs, node, frame)
        k = f[0]
        if k == "bound":
            return self.call(f[1], [f[2]] + list(args), kwargs, node, frame)
        if k == "partial":
            kw = dict(f[3])
            kw.update(kwargs)
            return self.call(f[1], list(f[2]) + list(args), kw, node, frame)
        if k == "newtype":
            return args[0] if args else NONE
        if k == "mcall":
            m = self.getattr_(args[0], f[1], node, frame)
            return self.call(m, list(f[2]), dict(f[3]), node, frame)
        if k == "agetter":
            v = args[0]
            for part in f[1].split("."):
                v = self.getattr_(v, part, node, frame)
            return v
        if k == "call" and f[1] == ("ext", "operator.itemgetter") and len(f[2]) == 1 and len(args) == 1 and not kwargs:
            return self.getitem(args[0], f[2][0], node, frame)
        if k == "memo":
            r = self.cfg.on_call(self, f, args, kwargs, node, frame)
            if r is not NotImplemented:
                return r
            return self.opaque(f, args, kwargs, node, frame)
        r = self.cfg.on_call(self, f, args, kwargs, node, frame)
        if r is not NotImplemented:
            return r
        if k == "fn":
            func = self.p.funcs[f[1]]
            if func.is_dispatch:
                return self.dispatch_call(func, args, kwargs, node, frame)
            if self.cfg.opaque_func(func) or self.is_stub(func):
                return self.opaque(f, args, kwargs, node, frame)
            depth = sum(1 for s in self.stack if s.func.qual == func.qual)
            if depth >= self.cfg.recursion:
                return self.opaque(f, args, kwargs, node, frame)
            return self.call_func(func, args, kwargs, node, frame)
        if k == "dispatch":
            return self.dispatch_call(self.p.funcs[f[1]], [f[2]] + list(args), kwargs, node, frame)
        if k == "cls":
            return self.construct(self.p.classes[f[1]], args, kwargs, node, frame)
        if k == "ext":
            return self.call_ext(f, args, kwargs, node, frame)
        if k == "cmeth":
            return self.call_container(f[1], f[2], args, kwargs, node, frame)
        if k == "superattr":
            return self.call_super_ext(f, args, kwargs, node, frame)
        if k == "attr":
            if is_c(f[1]):
                return self.const_method(f, args, kwargs, node, frame)
            if kind_(f[1]) in ("tup", "fset"):
                return self.tuple_method(f, args, kwargs, node, frame)
            return self.opaque(f, args, kwargs, node, frame, pure=f[2] in PURE_METHODS)
        return self.opaque(f, args, kwargs, node, frame)

    def tuple_method(self, f, args, kwargs, node, frame):
        return self.opaque(f, args, kwargs, node, frame, pure=True)

    def const_method(self, f, args, kwargs, node, frame):
        v = f[1][2]
        if isinstance(v, (str, bytes, int, float)) and all(is_c(a) for a in args) and all(is_c(a) for a in kwargs.values()):
            m = getattr(v, f[2], None)
            if m is not None and f[2] in PURE_METHODS | {"bit_length", "isdigit", "replace", "isidentifier"}:
                try:
                    r = m(*[a[2] for a in args], **{k: x[2] for k, x in kwargs.items()})
                except Exception as e:  # a constant expression that raises
                    self.raise_(type(e).__name__, node=node)
                if isinstance(r, (str, bytes, int, float, bool, type(None))):
                    return C(r)
                if isinstance(r, (list, tuple)):
                    return self.list_([C(x) for x in r])
        if f[2] == "join" and isinstance(v, str) and len(args) == 1 and not kwargs:
            a = self.value_of(args[0])
            if isinstance(a, GenExp) and not (len(a.node.generators) == 1 and isinstance(a.node.generators[0].iter, ast.Name) and
                                              self.const_items(self.ev(a.node.generators[0].iter, a.frame)) is not None):
                items = None
            else:
                items = self.collect(a, node, frame)
            if items is not None and not isinstance(items, tuple):
                if all(is_c(x) and x[1] == "str" for x in items):
                    return C(v.join(x[2] for x in items))
                args = [self.list_(items)]
        return self.opaque(f, args, kwargs, node, frame, pure=True)

    def dispatch_table(self, func):
        """[(registered class name or None, Func)] of a singledispatchmethod."""
        key = ("dispatch", func.qual)
        if key not in self.gcache:
            out = []
            for owner, expr, fn in func.cls.registrations:
                if owner != func.name:
                    continue
                if expr is None:
                    a = fn.node.args
                    ps = a.posonlyargs + a.args
                    expr = ps[1].annotation if len(ps) > 1 else None
                t = self.ev(expr, Frame(-1, _body_func(func.cls))) if expr is not None else NONE
                out.append((self.cls_name(t), fn))
            self.gcache[key] = out
        return self.gcache[key]

    def dispatch_call(self, func, args, kwargs, node, frame):
        """singledispatch on args[1]: most specific registered class."""
        v = self.value_of(args[1])
        tab = self.dispatch_table(func)
        target = None
        names = None
        if is_c(v):
            names = [t.__name__ for t in type(v[2]).__mro__]
        elif isinstance(v, Obj) and v.cls is not None:
            names = [k.qual if isinstance(k, Class) else k.replace("builtins.", "") for k in self.p.mro(v.cls)]
            names += sorted(self.type_names(v.cls) - set(names))
        elif kind_(v) == "enum":
            names = [k.qual if isinstance(k, Class) else k for k in self.p.mro(self.p.classes[v[1]])] + ["int"]
        elif v in self.types and self.types[v][0]:
            names = []
            for y in sorted(self.types[v][0]):
                b = getattr(builtins, y, None)
                if isinstance(b, type):
                    names += [t.__name__ for t in b.__mro__]
                else:
                    names.append(y)
        if names is not None:
            for n in names:
                for cn, fn in tab:
                    if cn == n:
                        target = fn
                        break
                if target:
                    break
            if target is None and names:
                for cn, fn in tab:
                    if cn and any(self.is_sub(n, cn) for n in names):
                        target = fn
                        break
        if target is None and names is None:
            return self.opaque(("fn", func.qual), args, kwargs, node, frame)
        return self.call_func(target or func, args, kwargs, node, frame)

    # --- construction
    def is_exception(self, c):
        return any(
            isinstance(k, str) and isinstance(getattr(builtins, k.rsplit(".", 1)[-1], None), type)
            and issubclass(getattr(builtins, k.rsplit(".", 1)[-1]), BaseException)
            for k in self.p.mro(c)
        )

    def construct(self, c, args, kwargs, node, frame):
        f = ("cls", c.qual)
        if self.p.is_enum(c):
            return self.enum_call(c, args, kwargs, node, frame)
        if self.is_exception(c) and not (self.cfg.deep_eq and c.is_dataclass()):
            o = self.new_obj(c)
            o.args = tuple(args)
            o.kwargs = dict(kwargs)
            for k, v in kwargs.items():
                o.fields[k] = v
            init = self.p.find_method(c, "__init__")
            if init is not None and not any(kind_(a) == "star" for a in args):
                names = [a.arg for a in init.node.args.posonlyargs + init.node.args.args]
                given = dict(zip(names[1:], args))
                for st in init.node.body:  # self.x = parameter
                    if isinstance(st, ast.Assign) and isinstance(st.value, ast.Name) and st.value.id in given:
                        for t in st.targets:
                            if isinstance(t, ast.Attribute) and isinstance(t.value, ast.Name) and t.value.id == names[0]:
                                o.fields[t.attr] = given[st.value.id]
            return o
        if self.cfg.opaque_class(c):
            return self.opaque(f, args, kwargs, node, frame)
        names = [k.rsplit(".", 1)[-1] for k in self.p.mro(c) if isinstance(k, str)]
        if "NamedTuple" in names:
            fs = [n for n in c.order if c.attrs[n][1] is not None]
            vals = list(args)
            for n in fs[len(vals):]:
                if n in kwargs:
                    vals.append(kwargs[n])
                elif c.attrs[n][0] is not None:
                    vals.append(self.ev(c.attrs[n][0], Frame(-1, _body_func(c))))
            return ("ntup", c.qual, tuple(vals))
        if "TypedDict" in names:
            return DictV(self.new_oid(), {C(k): v for k, v in kwargs.items()})
        new = self.p.find_method(c, "__new__")
        if new is not None and not self.cfg.opaque_func(new):
            o = self.call_func(new, [f] + list(args), dict(kwargs), node, frame)
            if not isinstance(o, Obj):
                return o
        else:
            o = self.new_obj(c)
        init = self.p.find_method(c, "__init__")
        if init is not None and not self.is_stub(init) and not (init.cls is not None and any(
                isinstance(k, Class) and k.is_dataclass() and k.dataclass_opts().get("init", True)
                for k in self.p.mro(c)[: self.p.mro(c).index(init.cls)])):
            self.call(("fn", init.qual), [o] + list(args), kwargs, node, frame)
        elif any(isinstance(k, Class) and k.is_dataclass() for k in self.p.mro(c)):
            self.dataclass_init(o, args, kwargs, node, frame)
        else:
            o.args = tuple(args)
            o.kwargs = dict(kwargs)
        return o

    def dataclass_fields(self, c):
        """Ordered [(name, default expr, Class)] of init fields over the MRO."""
        out = {}
        for k in reversed(self.p.mro(c)):
            if isinstance(k, Class) and k.is_dataclass():
                for n in k.order:
                    val, ann, st = k.attrs[n]
                    if ann is None:
                        continue
                    a = ast.unparse(ann)
                    if a.startswith("ClassVar") or "ClassVar[" in a:
                        continue
                    out[n] = (n, val, k)
        return list(out.values())

    def dataclass_init(self, o, args, kwargs, node, frame, upto=None):
        fields = self.dataclass_fields(upto or o.cls)
        args = list(args)
        kwargs = dict(kwargs)
        for n, default, k in fields:
            mn = n
            if n.startswith("__") and not n.endswith("__"):
                mn = f"_{k.name.lstrip('_')}{n}"
            init, dflt, fact = True, default, None
            if isinstance(default, ast.Call) and ast.unparse(default.func).rsplit(".", 1)[-1] == "field":
                dflt = None
                for kw in default.keywords:
                    if kw.arg == "init" and isinstance(kw.value, ast.Constant):
                        init = kw.value.value
                    elif kw.arg == "default":
                        dflt = kw.value
                    elif kw.arg == "default_factory":
                        fact = kw.value
            bfr = Frame(-1, _body_func(k))
            if init and args:
                v = args.pop(0)
            elif init and n in kwargs:
                v = kwargs.pop(n)
            elif fact is not None:
                v = self.call(self.ev(fact, bfr), [], {}, node, frame)
            elif dflt is not None:
                v = self.ev(dflt, bfr)
            elif init:
                self.emit("badcall", ("cls", o.cls.qual), (), node=node, frame=frame)
                self.raise_("TypeError", node=node)
            else:
                continue
            o.fields[mn] = v
        post = self.p.find_method(o.cls, "__post_init__")
        if post is not None:
            self.call_func(post, [o], {}, node, frame)

    def enum_call(self, c, args, kwargs, node, frame):
        if not args:
            return ("sym", f"enum {c.name}()")
        v = self.value_of(args[0])
        if kind_(v) == "enum" and v[1] == c.qual:
            return v
        if kind_(v) == "enum" and self.is_flag(c):
            v = self.enum_value(v)
        info = self.enum_info(c)
        if is_c(v) or kind_(v) in ("enum", "tup"):
            for n, rec in info.items():
                if rec["_value_"] == v or (is_c(v) and is_c(rec["_value_"]) and rec["_value_"][2] == v[2]):
                    return ("enum", c.qual, n)
            if self.is_flag(c) and is_int(v):
                return ("flag", c.qual, v[2])
            missing = c.methods.get("_missing_")
            if missing is not None:
                a = [v] if missing.is_static else [("cls", c.qual), v]
                r = self.call_func(missing, a, {}, node, frame)
                if kind_(r) == "enum":
                    return r
                if r != NONE:
                    return r
            self.raise_("ValueError", (v,), node)
        if kind_(v) == "flag" and v[1] == c.qual:
            return v
        f = ("cls", c.qual)
        if not self.is_flag(c):
            self.maybe_raise(f, node, frame)
        return ("call", f, (v,), (), 0)

    # --- external functions
    def call_ext(self, f, args, kwargs, node, frame):
        n = f[1]
        a0 = self.value_of(args[0]) if args else None
        short = n.rsplit(".", 1)[-1]
        h = getattr(self, f"x_{short}", None) if n in EXT or n.startswith("builtins.") else None
        if h is not None:
            r = h(args, kwargs, node, frame)
            if r is not NotImplemented:
                return r
        if n.endswith(".cast") and len(args) == 2:
            return args[1]
        if n == "struct.calcsize" and is_c(a0):
            import struct
            try:
                return C(struct.calcsize(a0[2]))
            except (struct.error, TypeError):
                pass
        if n == "builtins.object.__setattr__" and len(args) == 3 and is_c(args[1]) and isinstance(args[0], Obj):
            args[0].fields[args[1][2]] = args[2]
            self.note_mod(("f", args[0].oid, args[1][2]), args[0])
            return NONE
        if short == "__new__" and n.startswith("builtins.") and args:
            o = self.new_obj(self.p.classes.get(args[0][1]) if kind_(args[0]) == "cls" else None)
            if len(args) > 1:
                o.fields["__int__"] = args[1]
            return o
        if short == "NewType":
            return ("newtype", args[0])
        if n == "functools.partial":
            return ("partial", args[0], tuple(args[1:]), tuple(sorted(kwargs.items())))
        if n == "operator.methodcaller" and is_c(a0):
            return ("mcall", a0[2], tuple(args[1:]), tuple(sorted(kwargs.items())))
        if n == "operator.attrgetter" and is_c(a0) and len(args) == 1:
            return ("agetter", a0[2])
        if n in ("operator.or_", "operator.and_", "operator.add", "operator.sub"):
            return self.binop({"or_": "|", "and_": "&", "add": "+", "sub": "-"}[short], args[0], args[1], node, frame)
        if n == "functools.reduce":
            items = self.const_items(args[1])
            if items is None and isinstance(args[1], GenExp):
                acc = []
                self.run_genexp(args[1], acc.append, None)
                items = acc if not any(isinstance(x, tuple) and x and x[0] == "elem" for x in acc) else None
            if items is not None and (len(args) > 2 or items):
                items = list(items)
                acc = args[2] if len(args) > 2 else items.pop(0)
                for x in items:
                    acc = self.call(args[0], [acc, x], {}, node, frame)
                return acc
        if n == "types.MappingProxyType":
            return args[0]
        if n in ("dataclasses.replace", "copy.copy") and isinstance(a0, Obj) and a0.cls is not None:
            o = self.new_obj(a0.cls, a0.name and f"{a0.name}'", a0.symbolic)
            if any(isinstance(k, Class) and k.is_dataclass() for k in self.p.mro(a0.cls)):
                for nm, _d, k in self.dataclass_fields(a0.cls):
                    mn = f"_{k.name.lstrip('_')}{nm}" if nm.startswith("__") and not nm.endswith("__") else nm
                    o.fields[mn] = kwargs[nm] if nm in kwargs else self.getattr_(a0, mn, node, frame)
            else:
                o.fields.update(a0.fields)
                o.fields.update(kwargs)
            if n == "dataclasses.replace":
                pi = self.p.find_method(a0.cls, "__post_init__")
                if pi is not None and not self.is_stub(pi):
                    self.call(("bound", ("fn", pi.qual), o), [], {}, node, frame)
            return o
        if n in ("functools.lru_cache", "functools.cache"):
            if kwargs or not args or is_c(a0):
                return ("lru", tuple(args), tuple(sorted(kwargs.items())))
            return ("memo", args[0], (), self.new_oid())
        if short in ("TypeVar", "ParamSpec", "TypeVarTuple"):
            return ("sym", f"typevar {show(a0)}")
        if n == "contextlib.suppress":
            return ("suppress", tuple(args))
        if n in ("contextlib.nullcontext",):
            return ("nullctx", args[0] if args else NONE)
        if n == "builtins.type" and len(args) == 1:
            v = a0
            if isinstance(v, Obj) and v.cls:
                return ("cls", v.cls.qual)
            if is_c(v):
                return ("ext", f"builtins.{v[1]}")
            if kind_(v) in ("tup", "fset"):
                return ("ext", "builtins.tuple" if v[0] == "tup" else "builtins.frozenset")
        if n.startswith("builtins.") and isinstance(getattr(builtins, short, None), type) and issubclass(getattr(builtins, short), BaseException):
            e = Obj(self.new_oid(), None)
            e.ename = n
            e.args = tuple(args)
            return e
        return self.opaque(f, args, kwargs, node, frame, pure=n not in IMPURE_EXT)

    def x_len(self, args, kwargs, node, frame):
        v = self.value_of(args[0])
        if is_c(v) and isinstance(v[2], (str, bytes)):
            return C(len(v[2]))
        if isinstance(v, (ListV, SetV)) and v.items is not None:
            return C(len(v.items))
        if isinstance(v, DictV) and v.rest is None:
            return C(len(v.items))
        if kind_(v) in ("tup", "fset"):
            return C(len(v[1]))
        if kind_(v) == "ntup":
            return C(len(v[2]))
        if isinstance(v, Obj) and v.cls is not None:
            m = self.p.find_method(v.cls, "__len__")
            if m is not None and not self.is_stub(m):
                return self.call(("bound", ("fn", m.qual), v), [], {}, node, frame)
        if kind_(v) == "call" and v[1] == ("ext", "struct.pack") and is_c(v[2][0]):
            import struct
            return C(struct.calcsize(v[2][0][2]))
        if kind_(v) == "call" and v[1] == ("ext", "builtins.memoryview") and len(v[2]) == 1 and False:
            v = v[2][0]
        if isinstance(v, (tuple, Obj)):
            return ("len", self.versioned(v))
        return ("len", ("sym", repr(v)))

    def x_isinstance(self, args, kwargs, node, frame):
        return C(self.isinstance_(args[0], args[1], node, frame))

    def x_issubclass(self, args, kwargs, node, frame):
        a, b = self.cls_name(args[0]), self.cls_name(args[1])
        if a and b:
            return C(self.is_sub(a, b))
        return NotImplemented

    def x_callable(self, args, kwargs, node, frame):
        v = self.value_of(args[0])
        if isinstance(v, Closure) or kind_(v) in ("fn", "cls", "bound", "partial"):
            return TRUE
        if isinstance(v, Obj) and v.cls and not (v.symbolic and self.is_protocol(v.cls)):
            return C(self.p.find_method(v.cls, "__call__") is not None)
        if is_c(v):
            return FALSE
        return C(self.split(("callable", v)))

    def x_getattr(self, args, kwargs, node, frame):
        if len(args) >= 2 and is_c(args[1]):
            n = args[1][2]
            if len(args) == 2:
                return self.getattr_(args[0], n, node, frame)
            b = self.value_of(args[0])
            if isinstance(b, Obj) and (n in b.fields or (b.cls and self.p.find_attr(b.cls, n))):
                return self.getattr_(b, n, node, frame)
            if isinstance(b, (GenV, GenExp)) and n not in dir(GEN):
                return args[2]
            return ("call", ("ext", "builtins.getattr"), tuple(args), (), 0)
        return NotImplemented

    def x_hasattr(self, args, kwargs, node, frame):
        b = self.value_of(args[0])
        if isinstance(b, Obj) and is_c(args[1]) and (args[1][2] in b.fields or (b.cls and self.p.find_attr(b.cls, args[1][2]))):
            return TRUE
        return C(self.split(("hasattr", b, args[1])))

    def x_setattr(self, args, kwargs, node, frame):
        if is_c(args[1]):
            self.setattr_(args[0], args[1][2], args[2], node, frame)
            return NONE
        return NotImplemented

    def collect(self, v, node, frame):
        """Known items of any iterable value, else None (effects still happen)."""
        items = self.unroll(v, node, frame) if self.cfg.deep_eq else self.const_items(v)
        if items is not None:
            return list(items)
        if isinstance(v, (GenV, GenExp)):
            acc = []
            n0 = len(self.events)
            if isinstance(v, GenV):
                self.run_gen(v, lambda x: acc.append(x) or NONE, None)
            else:
                self.run_genexp(v, acc.append, None)
            if not any(e.kind == "loop" for e in self.events[n0:]):
                return acc
            return ("comp", tuple(acc))
        return None

    def x_list(self, args, kwargs, node, frame):
        if not args:
            return self.list_([])
        v = self.value_of(args[0])
        items = self.collect(v, node, frame)
        if isinstance(items, list):
            return self.list_(items)
        if items is None:
            return ("call", ("ext", "builtins.list"), (v,), (), 0)
        o = self.list_([])
        o.items = None
        return o

    def x_tuple(self, args, kwargs, node, frame):
        if not args:
            return ("tup", ())
        items = self.collect(self.value_of(args[0]), node, frame)
        if isinstance(items, list):
            return ("tup", tuple(items))
        if items is not None and self.cfg.deep_eq:
            return ("call", ("ext", "builtins.tuple"), (items,), (), 0)
        return ("call", ("ext", "builtins.tuple"), tuple(args), (), 0)

    def x_frozenset(self, args, kwargs, node, frame):
        if not args:
            return ("fset", frozenset())
        items = self.collect(self.value_of(args[0]), node, frame)
        if isinstance(items, list):
            return ("fset", frozenset(items))
        return ("call", ("ext", "builtins.frozenset"), tuple(args), (), 0)

    def x_set(self, args, kwargs, node, frame):
        if not args:
            return SetV(self.new_oid(), [])
        items = self.collect(self.value_of(args[0]), node, frame)
        o = SetV(self.new_oid(), None)
        if isinstance(items, list):
            o.items = list(dict.fromkeys(items))
        return o

    def x_dict(self, args, kwargs, node, frame):
        d = DictV(self.new_oid(), {})
        if args:
            v = self.value_of(args[0])
            if isinstance(v, DictV):
                d.items.update(v.items)
                d.rest = v.rest
            elif isinstance(v, (GenV, GenExp)):
                self.consume(v, ("ext", "builtins.dict"), node, frame)
                d.rest = ("call", ("ext", "builtins.dict"), tuple(args), (), 0)
            else:
                items = self.const_items(v) if isinstance(v, (ListV, tuple)) else None
                if items is not None and all(kind_(x) == "tup" and len(x[1]) == 2 and self.is_constlike(x[1][0]) for x in items):
                    for x in items:
                        d.items[x[1][0]] = x[1][1]
                else:
                    d.rest = v
        for k, x in kwargs.items():
            if k == "**":
                d.rest = x
            else:
                d.items[C(k)] = x
        return d

    def x_sorted(self, args, kwargs, node, frame):
        items = self.const_items(args[0])
        if items is not None and not kwargs:
            key = lambda t: (t[2] if is_c(t) else (self.enum_value(t) or C(0))[2] if kind_(t) == "enum" else repr(t))
            try:
                return self.list_(sorted(items, key=key))
            except TypeError:
                return self.list_(items)
        if isinstance(args[0], (GenV, GenExp)):
            self.consume(args[0], ("ext", "builtins.sorted"), node, frame)
            return self.fresh("sorted")
        return NotImplemented

    def x_range(self, args, kwargs, node, frame):
        args = [self.value_of(a) for a in args]
        return ("call", ("ext", "builtins.range"), tuple(args), (), 0)

    def x_iter(self, args, kwargs, node, frame):
        if len(args) == 1:
            v = self.value_of(args[0])
            if isinstance(v, Obj) and v.cls is not None:
                m = self.p.find_method(v.cls, "__iter__")
                if m is not None and not self.is_stub(m):
                    return self.call(("bound", ("fn", m.qual), v), [], {}, node, frame)
            return ("iterwrap", v)
        return NotImplemented

    def x_abs(self, args, kwargs, node, frame):
        v = self.value_of(args[0])
        if is_int(v):
            return C(abs(v[2]))
        if isinstance(v, tuple) and (v[0] in ("lin", "sym", "attr") or self.intlike(v)):
            coefs, k = lin_of(v)
            if len(coefs) == 1 and k == 0:
                # sign of c*x is decided by the sign of x
                (x, c), = coefs.items()
                neg = self.compare("<", x, C(0))
                if c < 0:
                    neg = not neg
            else:
                neg = self.compare("<", v, C(0))
            return lin_scale(v, -1) if neg else v
        return NotImplemented

    def x_min(self, args, kwargs, node, frame):
        return self.minmax(args, kwargs, "<=", node, frame, "min")

    def x_max(self, args, kwargs, node, frame):
        return self.minmax(args, kwargs, ">=", node, frame, "max")

    def minmax(self, args, kwargs, op, node, frame, name):
        if set(kwargs) == {"default"} and len(args) == 1 and isinstance(args[0], (GenV, GenExp)):
            items = self.collect(args[0], node, frame)
            if isinstance(items, list):
                if not items:
                    return kwargs["default"]
                if all(is_c(x) for x in items) or all(version_key(x) is not None for x in items):
                    return self.minmax([("tup", tuple(items))], {}, op, node, frame, name)
            return self.fresh(name)
        if kwargs:
            if args and isinstance(args[0], (GenV, GenExp)):
                self.consume(args[0], ("ext", "builtins." + name), node, frame)
                return self.fresh(name)
            return NotImplemented
        if len(args) == 1:
            if isinstance(args[0], (GenV, GenExp)):
                items = self.collect(args[0], node, frame)
            else:
                items = self.const_items(args[0])
            if not isinstance(items, list) or not items:
                return self.fresh(name)
        else:
            items = list(args)
        best = items[0]
        for x in items[1:]:
            if is_c(best) and is_c(x):
                b = {"<=": best[2] <= x[2], ">=": best[2] >= x[2]}[op]
            elif version_key(best) is not None and version_key(x) is not None:
                b = version_key(best) <= version_key(x) if op == "<=" else version_key(best) >= version_key(x)
            elif self.intlike(best) and self.intlike(x) or is_int(best) or is_int(x):
                b = self.compare(op, best, x)
            else:
                return ("call", ("ext", "builtins." + name), tuple(args), (), 0)
            best = best if b else x
        return best

    def x_int(self, args, kwargs, node, frame):
        if len(args) == 1:
            v = self.value_of(args[0])
            if is_int(v):
                return C(int(v[2]))
            if kind_(v) == "enum":
                e = self.enum_value(v)
                if is_int(e):
                    return e
            if isinstance(v, tuple) and (v[0] in ("lin", "len") or v[0] == "sym" and len(v) > 2 and v[2] == "nat"):
                return v
        if args and is_c(args[0]) and all(is_c(a) for a in args):
            try:
                return C(int(*[a[2] for a in args]))
            except (ValueError, TypeError) as e:
                self.raise_(type(e).__name__, node=node)
        return NotImplemented

    def x_bool(self, args, kwargs, node, frame):
        if len(args) == 1:
            return C(self.truth(args[0], node, frame))
        return NotImplemented

    def x_ord(self, args, kwargs, node, frame):
        if is_c(args[0]) and len(args[0][2]) == 1:
            return C(ord(args[0][2]))
        return NotImplemented

    def x_str(self, args, kwargs, node, frame):
        if args and is_c(args[0]) and len(args) == 1:
            return C(str(args[0][2]))
        return NotImplemented

    def x_object(self, args, kwargs, node, frame):
        return Obj(self.new_oid(), None, "sentinel")

    def x_any(self, args, kwargs, node, frame):
        return self.anyall(args, node, frame, True)

    def x_all(self, args, kwargs, node, frame):
        return self.anyall(args, node, frame, False)

    def anyall(self, args, node, frame, want):
        v = self.value_of(args[0])
        items = self.const_items(v)
        if items is not None:
            for x in items:
                if self.truth(x, node, frame) is want:
                    return C(want)
            return C(not want)
        if isinstance(v, GenExp):
            res = []

            def hook(x):
                if self.truth(x, node, frame) is want:
                    res.append(1)
                    raise AbsBreak

            try:
                self.run_genexp(v, hook, None)
            except AbsBreak:
                pass
            return C(want if res else not want)
        return NotImplemented

    def x_sum(self, args, kwargs, node, frame):
        items = self.const_items(args[0])
        if items is not None:
            acc = args[1] if len(args) > 1 else C(0)
            for x in items:
                acc = self.binop("+", acc, x, node, frame)
            return acc
        if isinstance(args[0], (GenExp, GenV)):
            self.consume(args[0], ("ext", "builtins.sum"), node, frame)
            return self.fresh("sum")
        return NotImplemented

    def x_next(self, args, kwargs, node, frame):
        v = args[0]
        if isinstance(v, GenExp):
            res = []

            def hook(x):
                res.append(x)
                raise AbsBreak

            try:
                self.run_genexp(v, hook, None)
            except AbsBreak:
                pass
            if res:
                return res[0]
            if len(args) > 1:
                return args[1]
            self.raise_("StopIteration", node=node)
        return NotImplemented

    def x_super(self, args, kwargs, node, frame):
        if len(args) == 2:
            c = self.p.classes.get(args[0][1]) if kind_(args[0]) == "cls" else None
            return Super(c, args[1])
        f = frame
        while f is not None and f.func.cls is None:
            f = f.parent
        a = f.func.node.args
        first = (a.posonlyargs + a.args)[0].arg
        return Super(f.func.cls, f.vars[first])

    def call_super_ext(self, f, args, kwargs, node, frame):
        _, base, name, self_ = f
        if name == "__new__":
            cls = args[0] if args else None
            o = self.new_obj(self.p.classes.get(cls[1]) if kind_(cls) == "cls" else None)
            if len(args) > 1:
                o.fields["__int__"] = args[1]
            return o
        if name in ("__init__", "__post_init__", "__init_subclass__"):
            if isinstance(self_, Obj):
                self_.args = tuple(args)
            return NONE
        if name == "__setattr__" and is_c(args[0]) and isinstance(self_, Obj):
            self_.fields[args[0][2]] = args[1]
            self.emit("setattr", ("attr", self_, args[0][2]), (args[1],), node=node, frame=frame)
            return NONE
        if name == "__getattribute__" and is_c(args[0]) and isinstance(self_, Obj):
            return self.obj_attr(self_, args[0][2], node, frame)
        return self.opaque(("attr", ("super", base, self_), name), args, kwargs, node, frame)

    # --- containers
    def call_container(self, o, name, args, kwargs, node, frame):
        if isinstance(o, DictV):
            if name == "get" and args:
                k = self.value_of(args[0])
                d = args[1] if len(args) > 1 else NONE
                if k in o.items:
                    return o.items[k]
                if o.rest is None:
                    if self.is_constlike(k) and all(self.is_constlike(x) for x in o.items):
                        for x in o.items:
                            if self.eq(k, x):
                                return o.items[x]
                        return d
                    dm = self.dom(k)
                    if dm is not None and all(self.is_constlike(x) for x in o.items):
                        kk = self.split_dom(k)
                        return o.items.get(kk, d)
                    for x in list(o.items):
                        if self.eq(k, x):
                            return o.items[x]
                    return d
                return ("call", ("attr", o, "get"), (k, d), (), 0)
            if name == "setdefault":
                k = self.value_of(args[0])
                if k in o.items:
                    return o.items[k]
                self.note_mod(("items", o.oid), o)
                d = args[1] if len(args) > 1 else NONE
                if o.rest is not None:
                    v = ("default", ("idx", o.rest, k), d)
                    o.items[k] = v
                    return v
                o.items[k] = d
                return d
            if name == "update":
                self.note_mod(("items", o.oid), o)
                for v in args:
                    v = self.value_of(v)
                    if isinstance(v, DictV):
                        if v.rest is None:
                            o.items.update(v.items)
                        else:
                            self.emit("call", ("attr", o, "update"), (v,), node=node, frame=frame)
                            o.rest = ("upd", o.rest or NONE, v)
                            o.items.update(v.items)
                    elif isinstance(v, (GenV, GenExp)):
                        self.consume(v, ("attr", o, "update"), node, frame)
                        o.rest = self.fresh("upd")
                    else:
                        self.emit("call", ("attr", o, "update"), (v,), node=node, frame=frame)
                        o.rest = ("upd", o.rest or NONE, v)
                        # later entries override: previously known values are uncertain
                        o.items = {k: ("over", x, ("idx", v, k)) for k, x in o.items.items()}
                return NONE
            if name == "items":
                if o.rest is None:
                    return self.list_([("tup", (k, v)) for k, v in o.items.items()])
            if name == "keys" and o.rest is None:
                if self.cfg.deep_eq:
                    return SetV(self.new_oid(), list(o.items))
                return self.list_(list(o.items))
            if name == "values" and o.rest is None:
                return self.list_(list(o.items.values()))
            if name == "copy":
                return DictV(self.new_oid(), dict(o.items), o.rest)
            if name == "pop" and args and args[0] in o.items:
                self.note_mod(("items", o.oid), o)
                return o.items.pop(args[0])
            if name == "pop" and args and o.rest is None and self.is_constlike(args[0]) and all(self.is_constlike(x) for x in o.items) \
                    and not any(self.eq(args[0], x) for x in o.items):
                if len(args) > 1:
                    return args[1]
                self.raise_("KeyError", node=node)
        if isinstance(o, ListV):
            if name == "append" and o.items is not None:
                self.note_mod(("items", o.oid), o)
                o.items.append(args[0])
                return NONE
            if name == "extend":
                self.note_mod(("items", o.oid), o)
                items = self.collect(self.value_of(args[0]), node, frame)
                if isinstance(items, list) and o.items is not None:
                    o.items.extend(items)
                else:
                    o.items = None
                return NONE
            if name == "insert" and o.items is not None and is_int(args[0]):
                self.note_mod(("items", o.oid), o)
                o.items.insert(args[0][2], args[1])
                return NONE
            if name == "pop" and o.items:
                self.note_mod(("items", o.oid), o)
                return o.items.pop(args[0][2] if args and is_int(args[0]) else -1)
            if name == "copy" and o.items is not None:
                return self.list_(o.items)
        if isinstance(o, SetV):
            if name == "add" and o.items is not None:
                self.note_mod(("items", o.oid), o)
                if args[0] not in o.items:
                    o.items.append(args[0])
                return NONE
        if name in MUTATORS:
            self.note_mod(("items", o.oid), o)
            if isinstance(o, DictV):
                o.rest = self.fresh("mut")
            else:
                o.items = None
        return self.opaque(("attr", o, name), args, kwargs, node, frame, pure=name in PURE_METHODS)

    def getitem(self, base, key, node, frame):
        base = self.value_of(base)
        key = self.value_of(key)
        r = self.cfg.on_index(self, base, key, node, frame)
        if r is not None:
            return r
        if isinstance(base, Obj) and base.cls is not None:
            m = self.p.find_method(base.cls, "__getitem__")
            if m is not None and not self.is_stub(m):
                return self.call(("bound", ("fn", m.qual), base), [key], {}, node, frame)
        if kind_(base) in ("cls", "ext") and not (kind_(base) == "cls" and self.p.is_enum(self.p.classes[base[1]])):
            return base
        if kind_(base) == "cls" and is_c(key):
            m = self.enum_member(self.p.classes[base[1]], key[2])
            if m is not None:
                return m
        if kind_(base) == "tup" and is_int(key):
            try:
                return base[1][key[2]]
            except IndexError:
                self.raise_("IndexError", node=node)
        if kind_(base) == "ntup" and is_int(key):
            return base[2][key[2]]
        if isinstance(base, ListV) and base.items is not None and is_int(key):
            try:
                return base.items[key[2]]
            except IndexError:
                self.raise_("IndexError", node=node)
        if isinstance(base, DictV):
            if key in base.items:
                return base.items[key]
            if base.rest is None and all(self.is_constlike(x) for x in base.items):
                if self.is_constlike(key):
                    for x in base.items:
                        if self.eq(key, x):
                            return base.items[x]
                    self.raise_("KeyError", node=node)
                d = self.dom(key)
                if d is not None:
                    k = self.split_dom(key)
                    if k in base.items:
                        return base.items[k]
                    self.raise_("KeyError", node=node)
        if is_c(base) and isinstance(base[2], (str, bytes)) and is_int(key):
            try:
                return C(base[2][key[2]])
            except IndexError:
                self.raise_("IndexError", node=node)
        self.maybe_raise(("idx", base, key), node, frame)
        if isinstance(base, (tuple, Obj)):
            return ("idx", self.versioned(base), key)
        return ("idx", base, key)

    def setitem(self, base, key, value, node, frame):
        base = self.value_of(base)
        if isinstance(base, DictV):
            self.note_mod(("items", base.oid), base)
            base.items[self.value_of(key)] = value
            self.emit("setitem", base, (key, value), node=node, frame=frame)
            return
        if isinstance(base, ListV) and base.items is not None and is_int(key):
            self.note_mod(("items", base.oid), base)
            try:
                base.items[key[2]] = value
            except IndexError:
                self.raise_("IndexError", node=node)
            return
        if isinstance(base, Obj) and base.cls is not None:
            m = self.p.find_method(base.cls, "__setitem__")
            if m is not None and not self.is_stub(m):
                self.call(("bound", ("fn", m.qual), base), [key, value], {}, node, frame)
                return
        self.emit("setitem", base, (key, value), node=node, frame=frame)
        if isinstance(base, (tuple, Obj)):
            self.bump(base)
        self.maybe_raise(("attr", base, "__setitem__"), node, frame)

    # ------------------------------------------------------------------ expressions
    def truth_of(self, node, frame):
        """Evaluate a test expression to a Python bool (splitting as needed)."""
        if isinstance(node, ast.BoolOp):
            if isinstance(node.op, ast.And):
                return all(self.truth_of(v, frame) for v in node.values)
            return any(self.truth_of(v, frame) for v in node.values)
        if isinstance(node, ast.UnaryOp) and isinstance(node.op, ast.Not):
            return not self.truth_of(node.operand, frame)
        if isinstance(node, ast.Compare):
            return self.compare_chain(node, frame)
        return self.truth(self.ev(node, frame), node, frame)

    OPS = {
        ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">=",
        ast.Is: "is", ast.IsNot: "is not", ast.In: "in", ast.NotIn: "not in",
    }

    def compare_chain(self, node, frame):
        st = None
        if isinstance(node.left, (ast.Attribute,)):
            from .project import static_test
            st = static_test(node)
        if st is not None:
            return st
        left = self.ev(node.left, frame)
        if len(node.ops) == 1 and isinstance(node.ops[0], (ast.Eq, ast.NotEq)) and isinstance(node.left, ast.Name) \
                and isinstance(node.comparators[0], ast.Name) and node.left.id == node.comparators[0].id:
            t = self.value_of(left)  # false for NaN
            if isinstance(t, tuple) and not is_c(t) and not self.intlike(t) and kind_(t) in ("sym", "elem", "idx", "attr", "call"):
                return self.split(("eq", t, t)) == isinstance(node.ops[0], ast.Eq)
        for op, rhs in zip(node.ops, node.comparators):
            right = self.ev(rhs, frame)
            o = self.OPS[type(op)]
            if not self.compare_values(o, left, right, node, frame):
                return False
            left = right
        return True

    def effective_eq(self, c):
        """How instances of c are compared: ("method", Func), ("fields", Class, names) or None (identity)."""
        for k in self.p.mro(c):
            if not isinstance(k, Class):
                continue
            if "__eq__" in k.methods:
                return ("method", k.methods["__eq__"])
            if k.is_dataclass() and k.dataclass_opts().get("eq", True):
                names = []
                for n, default, owner in self.dataclass_fields(k):
                    cmp = True
                    if isinstance(default, ast.Call) and ast.unparse(default.func).rsplit(".", 1)[-1] == "field":
                        cmp = not any(w.arg == "compare" and isinstance(w.value, ast.Constant) and w.value.value is False
                                      for w in default.keywords)
                    if cmp:
                        names.append(f"_{owner.name.lstrip('_')}{n}" if n.startswith("__") and not n.endswith("__") else n)
                return ("fields", k, names)
        return None

    def half_eq(self, a, b, node, frame):
        """a.__eq__(b): True, False or None (NotImplemented)."""
        e = self.effective_eq(a.cls)
        if e is None:
            return True if a is b else None
        if e[0] == "method":
            r = self.call(("bound", ("fn", e[1].qual), a), [b], {}, node, frame)
            if r == ("ext", "builtins.NotImplemented") or r == C(NotImplemented):
                return None
            return self.truth(r, node, frame)
        if not isinstance(b, Obj) or b.cls is not a.cls:
            return None
        for n in e[2]:
            x, y = self.getattr_(a, n, node, frame), self.getattr_(b, n, node, frame)
            if x is not y and not self.deep_equal(x, y, node, frame):
                return False
        return True

    def deep_equal(self, a, b, node, frame):
        a, b = self.value_of(a), self.value_of(b)
        if a is b:
            return self.eq(a, b) if isinstance(a, tuple) and not isinstance(a, Obj) else True
        ao, bo = (isinstance(x, Obj) and x.cls is not None and not x.symbolic for x in (a, b))
        if ao or bo:
            for x, y, own in ((a, b, ao), (b, a, bo)):
                if own:
                    r = self.half_eq(x, y, node, frame)
                    if r is not None:
                        return r
            if ao and bo or any(isinstance(x, (DictV, ListV, SetV)) or is_c(x) or kind_(x) == "tup" or kind_(x) == "sym" and
                                x[2:] in (("str",), ("bytes",), ("nat",), ("int",), ("bool",)) for x in (a, b)):
                return False
            return self.eq(a, b)
        seqs = []
        for x in (a, b):
            if isinstance(x, ListV) and x.items is not None:
                seqs.append(("list", list(x.items)))
            elif kind_(x) == "tup":
                seqs.append(("tup", list(x[1])))
        if len(seqs) == 2:
            (ka, xs), (kb, ys) = seqs
            if ka != kb or len(xs) != len(ys):
                return False
            return all(x is y or self.deep_equal(x, y, node, frame) for x, y in zip(xs, ys))
        if isinstance(a, DictV) and isinstance(b, DictV) and a.rest is None and b.rest is None and all(
                self.is_constlike(k) for k in [*a.items, *b.items]):
            if set(a.items) != set(b.items):
                return False
            return all(a.items[k] is b.items[k] or self.deep_equal(a.items[k], b.items[k], node, frame) for k in a.items)
        if isinstance(a, SetV) and isinstance(b, SetV) and a.items is not None and b.items is not None and all(
                self.is_constlike(k) for k in [*a.items, *b.items]):
            return set(a.items) == set(b.items)
        return self.eq(a, b)

    def compare_values(self, o, left, right, node, frame):
        if o in ("==", "!=") and self.cfg.deep_eq:
            return self.deep_equal(left, right, node, frame) == (o == "==")
        if o in ("==", "!="):
            l2 = self.value_of(left)
            if isinstance(l2, Obj) and l2.cls is not None and not l2.symbolic:
                m = self.p.find_method(l2.cls, "__eq__")
                if m is not None:
                    r = self.truth(self.call(("bound", ("fn", m.qual), l2), [right], {}, node, frame), node, frame)
                    return r if o == "==" else not r
        if o in ("<", "<=", ">", ">=") and not isinstance(left, tuple):
            left = ("sym", repr(left)) if not isinstance(left, Obj) else left
        if o in ("<", "<=", ">", ">="):
            if isinstance(left, Obj) or isinstance(right, Obj) or not isinstance(left, tuple) or not isinstance(right, tuple):
                if o in (">", ">="):
                    left, right, o = right, left, {">": "<", ">=": "<="}[o]
                if o == "<":
                    return not self.split(("le", right, left))
                return self.split(("le", left, right))
        return self.cond(("cond", o, left, right), node, frame)

    def ev(self, node, frame):
        m = getattr(self, "e_" + type(node).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported expression {type(node).__name__} at {frame.func.qual}:{getattr(node, 'lineno', '?')}")
        return m(node, frame)

    def e_Constant(self, node, frame):
        return C(node.value)

    def e_Name(self, node, frame):
        return self.lookup(node.id, frame)

    def e_Attribute(self, node, frame):
        base = self.ev(node.value, frame)
        return self.getattr_(base, self.mangle(node.attr, frame), node, frame)

    def e_Call(self, node, frame):
        f = self.ev(node.func, frame)
        args = []
        kwargs = {}
        for a in node.args:
            if isinstance(a, ast.Starred):
                v = self.ev(a.value, frame)
                items = self.const_items(v)
                if items is not None:
                    args.extend(items)
                else:
                    args.append(("star", v))
            else:
                args.append(self.ev(a, frame))
        for k in node.keywords:
            v = self.ev(k.value, frame)
            if k.arg is None:
                if isinstance(v, DictV) and v.rest is None and all(is_c(x) for x in v.items):
                    for x, y in v.items.items():
                        kwargs[x[2]] = y
                else:
                    kwargs["**"] = v
            else:
                kwargs[k.arg] = v
        if isinstance(f, tuple) and f[0] == "lru":
            r = ("memo", args[0], f[2], self.new_oid())
            return r
        return self.call(f, args, kwargs, node, frame)

    def e_BinOp(self, node, frame):
        a = self.ev(node.left, frame)
        b = self.ev(node.right, frame)
        return self.binop(BINOPS[type(node.op)], a, b, node, frame)

    def binop(self, op, a, b, node, frame):
        a, b = self.value_of(a), self.value_of(b)
        if op in ("|", "&", "^"):
            fa, fb = self.flag_mask(a), self.flag_mask(b)
            if fa and is_int(b):
                fb = (fa[0], b[2])
            if fb and is_int(a):
                fa = (fb[0], a[2])
            if fa and fb and fa[0] == fb[0]:
                v = {"|": fa[1] | fb[1], "&": fa[1] & fb[1], "^": fa[1] ^ fb[1]}[op]
                return self.enum_call(self.p.classes[fa[0]], [C(v)], {}, node, frame)
            if fa and fa[1] == 0 and op == "|":
                return b
            if fb and fb[1] == 0 and op == "|":
                return a
        for x in (a, b):
            if kind_(x) == "enum" and self.cmp_enum(x):
                v = self.enum_value(x)
                if is_c(v) and v[1] == "int":
                    if x is a:
                        a = v
                    if x is b:
                        b = v
        if is_c(a) and is_c(b):
            try:
                r = PYOPS[op](a[2], b[2])
                if isinstance(r, (int, float, str, bytes)):
                    if isinstance(r, (str, bytes)) and len(r) > 10000:
                        raise TypeError
                    return C(r)
            except (TypeError, ValueError, ZeroDivisionError, OverflowError, MemoryError):
                pass
        if isinstance(a, tuple) and a[0] == "cond":
            a = C(int(self.truth(a)))
        if isinstance(b, tuple) and b[0] == "cond":
            b = C(int(self.truth(b)))
        if op == "*":
            for x, n in ((a, b), (b, a)):
                if isinstance(x, ListV) or kind_(x) == "tup" or is_c(x) and x[1] in ("str", "bytes"):
                    self.cfg.on_alloc(self, "repeat", n, node, frame)
        elif op == "<<" and not is_c(b):
            self.cfg.on_alloc(self, "shift", b, node, frame)
        if op == "+" and isinstance(a, ListV) and isinstance(b, ListV) and a.items is not None and b.items is not None:
            return self.list_(a.items + b.items)
        if op == "+" and kind_(a) == "tup" and kind_(b) == "tup":
            return ("tup", a[1] + b[1])
        if isinstance(a, (Obj, ListV, DictV, SetV, GenV, GenExp)) or isinstance(b, (Obj, ListV, DictV, SetV, GenV, GenExp)):
            if isinstance(a, Obj) and a.cls is not None:
                dn = DUNDER.get(op)
                m = self.p.find_method(a.cls, dn) if dn else None
                if m is not None:
                    return self.call(("bound", ("fn", m.qual), a), [b], {}, node, frame)
            return self.opaque(("ext", f"operator.{op}"), [a, b], {}, node, frame, pure=not isinstance(b, (GenV, GenExp)))
        strish = any((is_c(x) and x[1] in ("str", "bytes")) or kind_(x) in ("fstr",) for x in (a, b))
        if not strish:
            if self.cfg.exact_div:
                r = self.exact_div(op, a, b)
                if r is not None:
                    return r
            if op == "+":
                return lin_add(a, b)
            if op == "-":
                return lin_add(a, b, -1)
            if op == "*":
                if is_int(a):
                    return lin_scale(b, a[2])
                if is_int(b):
                    return lin_scale(a, b[2])
                x, y = sorted((a, b), key=repr)
                return ("op", "*", (x, y))
            if op == "**" and is_int(a) and is_int(b):
                return C(a[2] ** b[2])
            if op == "<<" and is_int(b) and 0 <= b[2] < 64:
                return lin_scale(a, 1 << b[2])
            if op == "<<" and is_int(a) and a[2] == 1:
                return ("op", "<<", (a, b))
            if op in ("%", "&") and b == (C(2) if op == "%" else C(1)):
                return self.parity(a)
            if op == "&" and a == C(1):
                return self.parity(b)
            if op == "//" and b == C(2) or op == ">>" and b == C(1):
                return self.half(a)
            if op == "//" and is_int(b) and b[2] > 0 and b[2] & (b[2] - 1) == 0:
                return self.shr(a, b[2].bit_length() - 1)
            if op == ">>" and is_int(b):
                return self.shr(a, b[2])
            if op == "%" and is_int(b) and b[2] > 0 and b[2] & (b[2] - 1) == 0:
                return self.mask(a, b[2] - 1)
            if op == "&":
                if is_int(b):
                    return self.mask(a, b[2])
                if is_int(a):
                    return self.mask(b, a[2])
            if op == "|":
                return self.bitor(a, b)
            if op == "^":
                for x, y in ((a, b), (b, a)):
                    if y == C(0):
                        return x
                    if y == C(-1):
                        return lin_add(lin_scale(x, -1), C(1), -1)
        if op in ("|", "&", "^"):
            a, b = sorted((a, b), key=repr)
        self.maybe_raise(("ext", f"operator.{op}"), node, frame)
        return ("op", op, (a, b))

    def exact_div(self, op, a, b):
        """Division by a constant as a quotient with the facts that define it."""
        if not is_int(b) or b[2] <= 0:
            return None
        k, n = b[2], None
        if op in ("//", "%"):
            n = k
        elif op == ">>" and k < 64:
            n, op = 1 << k, "//"
        elif op == "&" and k & (k + 1) == 0:
            n, op = k + 1, "%"
        if n is None:
            return None
        coefs, c = lin_of(a)
        whole = mk_lin({t: v // n for t, v in coefs.items()}, c // n)
        rest = mk_lin({t: v % n for t, v in coefs.items() if v % n}, c % n)
        if is_int(rest):
            quot, rem = whole, rest
        else:
            x = ("op", "//", (rest, C(n)))
            rem = lin_add(rest, lin_scale(x, n), -1)
            self.assume_le0(lin_scale(rem, -1), True)
            self.assume_le0(lin_add(rem, C(1 - n)), True)
            quot = lin_add(whole, x)
        return quot if op == "//" else rem

    def x_divmod(self, args, kwargs, node, frame):
        return ("tup", (self.binop("//", args[0], args[1], node, frame), self.binop("%", args[0], args[1], node, frame)))

    def parity(self, a):
        """a % 2, splitting on the parity of the odd part."""
        coefs, k = lin_of(a)
        odd = {t: c for t, c in coefs.items() if c % 2}
        p = k % 2
        for t in sorted(odd, key=repr):
            p ^= 1 if self.split(("odd", t)) else 0
        return C(p)

    def half(self, a):
        coefs, k = lin_of(a)
        out = {}
        for t, c in coefs.items():
            if c % 2:
                # t = 2*half(t) + parity(t)
                pt = 1 if self.split(("odd", t)) else 0
                h = ("op", ">>", (t, C(1)))
                out[h] = out.get(h, 0) + c
                k += c * pt
            else:
                out[t] = out.get(t, 0) + c // 2
        return mk_lin(out, k // 2)

    def shr(self, a, n):
        coefs, k = lin_of(a)
        m = 1 << n
        if all(c % m == 0 for c in coefs.values()):
            return mk_lin({t: c // m for t, c in coefs.items()}, k // m)
        return ("op", ">>", (a, C(n)))

    def mask(self, a, m):
        if m and m & (m + 1) == 0:
            coefs, k = lin_of(a)
            # drop multiples of m+1
            c2 = {t: c for t, c in coefs.items() if c % (m + 1)}
            if not c2:
                return C(k & m)
        return ("op", "&", (a, C(m)))

    def bitor(self, a, b):
        a, b = (C(int(x[2])) if is_int(x) else x for x in (a, b))
        for x, y in ((a, b), (b, a)):
            if y == C(0):
                return x
            if is_int(y) and y[2] > 0 and y[2] & (y[2] + 1) == 0:
                m = y[2] + 1
                coefs, k = lin_of(x)
                if all(c % m == 0 for c in coefs.values()) and k % m == 0:
                    return lin_add(x, y)
        a, b = sorted((a, b), key=repr)
        return ("op", "|", (a, b))

    def e_UnaryOp(self, node, frame):
        if isinstance(node.op, ast.Not):
            return C(not self.truth_of(node.operand, frame))
        v = self.value_of(self.ev(node.operand, frame))
        if isinstance(node.op, ast.USub):
            if is_c(v) and isinstance(v[2], (int, float)):
                return C(-v[2])
            if isinstance(v, tuple):
                return lin_scale(v, -1)
        if isinstance(node.op, ast.UAdd):
            return v
        if isinstance(node.op, ast.Invert):
            if is_int(v):
                return C(~v[2])
            fm = self.flag_mask(v)
            if fm is None and isinstance(v, tuple):
                return lin_add(lin_scale(v, -1), C(1), -1)
        return ("op", type(node.op).__name__, (v,))

    def e_BoolOp(self, node, frame):
        v = NONE
        for i, x in enumerate(node.values):
            v = self.ev(x, frame)
            if i == len(node.values) - 1:
                return v
            t = self.truth(v, x, frame)
            if isinstance(node.op, ast.And) and not t:
                return v if not (isinstance(v, tuple) and v[0] == "cond") else FALSE
            if isinstance(node.op, ast.Or) and t:
                return v if not (isinstance(v, tuple) and v[0] == "cond") else TRUE
        return v

    def e_Compare(self, node, frame):
        return C(self.compare_chain(node, frame))

    def e_IfExp(self, node, frame):
        if self.truth_of(node.test, frame):
            return self.ev(node.body, frame)
        return self.ev(node.orelse, frame)

    def e_Tuple(self, node, frame):
        out = []
        for e in node.elts:
            if isinstance(e, ast.Starred):
                v = self.ev(e.value, frame)
                self.cfg.on_spread(self, v, node, frame)
                items = self.collect(v, node, frame)
                if not isinstance(items, list):
                    out.append(("star", v if isinstance(v, tuple) else ("sym", repr(v))))
                else:
                    out.extend(items)
            else:
                out.append(self.ev(e, frame))
        return ("tup", tuple(out))

    def e_List(self, node, frame):
        return self.list_(self.e_Tuple(node, frame)[1])

    def e_Set(self, node, frame):
        items = self.e_Tuple(node, frame)[1]
        return SetV(self.new_oid(), list(dict.fromkeys(items)))

    def e_Dict(self, node, frame):
        d = DictV(self.new_oid(), {})
        for k, v in zip(node.keys, node.values):
            if k is None:
                x = self.ev(v, frame)
                self.cfg.on_spread(self, x, node, frame)
                if isinstance(x, DictV) and x.rest is None:
                    d.items.update(x.items)
                else:
                    d.rest = ("upd", d.rest or NONE, x)
            else:
                kk = self.value_of(self.ev(k, frame))
                d.items[kk] = self.ev(v, frame)
        return d

    def e_Subscript(self, node, frame):
        base = self.ev(node.value, frame)
        if kind_(base) == "ext" or (kind_(base) == "cls" and not self.p.is_enum(self.p.classes[base[1]])):
            return base
        key = self.ev(node.slice, frame)
        return self.getitem(base, key, node, frame)

    def e_Slice(self, node, frame):
        lo = self.ev(node.lower, frame) if node.lower else NONE
        hi = self.ev(node.upper, frame) if node.upper else NONE
        if node.step is not None:
            return ("slice", lo, hi, self.ev(node.step, frame))
        return ("slice", lo, hi)

    def e_JoinedStr(self, node, frame):
        parts = []
        for v in node.values:
            if isinstance(v, ast.FormattedValue):
                x = self.ev(v.value, frame)
                self.format_value(x, v, frame)
                parts.append(x if isinstance(x, tuple) else ("sym", repr(x)))
            else:
                parts.append(C(v.value))
        if all(is_c(x) for x in parts):
            return C("".join(str(x[2]) for x in parts))
        return ("fstr", tuple(parts))

    def format_value(self, x, node, frame):
        return None

    def e_FormattedValue(self, node, frame):
        return self.ev(node.value, frame)

    def e_Lambda(self, node, frame):
        f = Func(f"{frame.func.qual}.<lambda>", node, frame.module, None)
        return Closure(self.new_oid(), f, frame)

    def e_NamedExpr(self, node, frame):
        v = self.ev(node.value, frame)
        self.assign(node.target, v, frame)
        return v

    def e_Starred(self, node, frame):
        return ("star", self.ev(node.value, frame))

    def e_Yield(self, node, frame):
        v = self.ev(node.value, frame) if node.value is not None else NONE
        f = frame
        while f is not None and f.hook is None:
            f = f.parent
        if f is None:
            raise AnalysisError("yield outside a consumed generator")
        r = f.hook(v)
        return NONE if r is None else r

    def e_YieldFrom(self, node, frame):
        g = self.value_of(self.ev(node.value, frame))
        hook, mods = frame.hook, frame.hook_mods
        if isinstance(g, GenV):
            return self.run_gen(g, hook, (mods if mods else None))
        res = []

        def body(v):
            hook(v)

        self.iterate(node, g, None, body, frame, set(), lambda: None)
        return NONE

    def e_GeneratorExp(self, node, frame):
        return GenExp(self.new_oid(), node, frame)

    def comp(self, node, frame):
        acc = []
        n0 = len(self.events)
        g = GenExp(self.new_oid(), node, frame)
        self.run_genexp(g, acc.append, None)
        unknown = any(e.kind == "loop" for e in self.events[n0:])
        # a loop that ran zero times on this path leaves no event: look at iterables
        if not unknown and not acc:
            unknown = self.comp_unknown
        return acc, unknown

    comp_unknown = False

    def e_ListComp(self, node, frame):
        acc, unknown = self.comp(node, frame)
        o = self.list_(acc)
        if unknown:
            o.items = None
        self.emit("comp", o, tuple(acc), node=node, frame=frame)
        return o

    def e_SetComp(self, node, frame):
        acc, unknown = self.comp(node, frame)
        o = SetV(self.new_oid(), None if unknown else list(dict.fromkeys(acc)))
        return o

    def e_DictComp(self, node, frame):
        acc = []
        n0 = len(self.events)
        pair = ast.Tuple(elts=[node.key, node.value], ctx=ast.Load())
        fake = ast.GeneratorExp(elt=pair, generators=node.generators)
        ast.copy_location(fake, node)
        self.run_genexp(GenExp(self.new_oid(), fake, frame), acc.append, None)
        unknown = any(e.kind == "loop" for e in self.events[n0:])
        d = DictV(self.new_oid(), {})
        self.emit("comp", d, tuple(acc), node=node, frame=frame)
        if unknown:
            d.rest = self.fresh("dictcomp")
        else:
            for kv in acc:
                d.items[self.value_of(kv[1][0])] = kv[1][1]
        return d

    # ------------------------------------------------------------------ statements
    def block(self, stmts, frame):
        for st in stmts:
            self.stmt(st, frame)

    def stmt(self, st, frame):
        m = getattr(self, "s_" + type(st).__name__, None)
        if m is None:
            raise AnalysisError(f"unsupported statement {type(st).__name__} at {frame.func.qual}:{st.lineno}")
        m(st, frame)

    def s_Expr(self, st, frame):
        if isinstance(st.value, ast.Constant):
            return
        v = self.ev(st.value, frame)
        del v

    def s_Pass(self, st, frame):
        pass

    def s_Return(self, st, frame):
        v = self.ev(st.value, frame) if st.value is not None else NONE
        self.last_node = st
        raise AbsReturn(v)

    def s_Break(self, st, frame):
        raise AbsBreak

    def s_Continue(self, st, frame):
        raise AbsContinue

    def s_Global(self, st, frame):
        frame.globals.update(st.names)

    def s_Nonlocal(self, st, frame):
        frame.nonlocals.update(st.names)

    def s_Import(self, st, frame):
        for a in st.names:
            frame.vars[(a.asname or a.name).split(".")[0]] = self.resolved(self.p.lookup(a.name if a.asname else a.name.split(".")[0]))

    def s_ImportFrom(self, st, frame):
        for a in st.names:
            frame.vars[a.asname or a.name] = self.resolved(self.p.lookup(f"{st.module}.{a.name}"))

    def s_FunctionDef(self, st, frame):
        if any(x.rsplit(".", 1)[-1] == "overload" for x in [ast.unparse(d.func if isinstance(d, ast.Call) else d) for d in st.decorator_list]):
            return
        f = Func(f"{frame.func.qual}.<locals>.{st.name}", st, frame.module, None)
        c = Closure(self.new_oid(), f, frame)
        v = c
        for d in reversed(st.decorator_list):
            dn = ast.unparse(d.func if isinstance(d, ast.Call) else d).rsplit(".", 1)[-1]
            if dn in ("contextmanager", "wraps", "property", "staticmethod"):
                continue
            if dn in ("lru_cache", "cache"):
                continue
            v = self.call(self.ev(d, frame), [v], {}, st, frame)
        frame.vars[st.name] = v

    def s_ClassDef(self, st, frame):
        frame.vars[st.name] = ("sym", f"class {st.name}")

    def s_Assign(self, st, frame):
        v = self.ev(st.value, frame)
        for t in st.targets:
            self.assign(t, v, frame)

    def s_AnnAssign(self, st, frame):
        if st.value is not None:
            self.assign(st.target, self.ev(st.value, frame), frame)

    def s_AugAssign(self, st, frame):
        op = BINOPS[type(st.op)]
        t = st.target
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, frame)
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, frame)
            cur = self.getattr_(base, self.mangle(t.attr, frame), t, frame)
        else:
            base = self.ev(t.value, frame)
            key = self.ev(t.slice, frame)
            cur = self.getitem(base, key, t, frame)
        rhs = self.ev(st.value, frame)
        cur = self.value_of(cur)
        if self.cfg.on_iop(self, cur, op, rhs, st, frame):
            return  # updated in place
        if isinstance(cur, Obj) and cur.cls is not None:
            m = self.p.find_method(cur.cls, IDUNDER.get(op, "")) or self.p.find_method(cur.cls, DUNDER.get(op, ""))
            if m is not None:
                v = self.call(("bound", ("fn", m.qual), cur), [rhs], {}, st, frame)
            else:
                v = self.opaque(("attr", cur, IDUNDER.get(op, "op")), [rhs], {}, st, frame)
        elif isinstance(rhs, (GenV, GenExp)) or isinstance(cur, (ListV, SetV, DictV)) or (
                op in ("|", "&", "^") and isinstance(cur, tuple) and cur[0] in ("call", "sym", "attr") and not self.intlike(cur) and not self.flag_mask(rhs)):
            if isinstance(cur, ListV) and op == "+":
                self.call_container(cur, "extend", [rhs], {}, st, frame)
                v = cur
            else:
                r = self.opaque(("attr", cur, IDUNDER.get(op, "op")), [rhs], {}, st, frame)
                v = cur if isinstance(rhs, (GenV, GenExp)) else r
        else:
            v = self.binop(op, cur, rhs, st, frame)
        if isinstance(t, ast.Name):
            self.assign(t, v, frame)
        elif isinstance(t, ast.Attribute):
            self.setattr_(base, self.mangle(t.attr, frame), v, st, frame)
        else:
            self.setitem(base, key, v, st, frame)

    def assign(self, t, v, frame):
        if isinstance(t, ast.Name):
            if t.id in frame.nonlocals:
                f = frame.parent
                while f is not None:
                    if t.id in f.vars:
                        f.vars[t.id] = v
                        return
                    f = f.parent
            if t.id in frame.globals:
                self.gstore[(frame.func.module.name, t.id)] = v
                self.emit("setglobal", ("sym", t.id), (v,), node=t, frame=frame)
                return
            frame.vars[t.id] = v
        elif isinstance(t, ast.Attribute):
            base = self.ev(t.value, frame)
            self.setattr_(base, self.mangle(t.attr, frame), v, t, frame)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, frame)
            key = self.ev(t.slice, frame)
            self.setitem(base, key, v, t, frame)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.const_items(v)
            if items is None and isinstance(v, tuple) and v[0] == "call":
                items = None
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if items is not None and not stars:
                if len(items) != len(t.elts):
                    self.raise_("ValueError", node=t)
                for e, x in zip(t.elts, items):
                    self.assign(e, x, frame)
            else:
                for i, e in enumerate(t.elts):
                    if isinstance(e, ast.Starred):
                        self.assign(e.value, ("rest", v, i), frame)
                    else:
                        self.assign(e, ("idx", v, C(i)), frame)
        elif isinstance(t, ast.Starred):
            self.assign(t.value, v, frame)

    def s_Delete(self, st, frame):
        for t in st.targets:
            if isinstance(t, ast.Name):
                frame.vars.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                base = self.value_of(self.ev(t.value, frame))
                key = self.ev(t.slice, frame)
                if isinstance(base, DictV) and self.value_of(key) in base.items:
                    self.note_mod(("items", base.oid), base)
                    del base.items[self.value_of(key)]
                elif isinstance(base, Obj) and base.cls and self.p.find_method(base.cls, "__delitem__"):
                    m = self.p.find_method(base.cls, "__delitem__")
                    self.call(("bound", ("fn", m.qual), base), [key], {}, st, frame)
                    continue
                self.emit("delitem", base, (key,), node=st, frame=frame)
                if isinstance(base, (tuple, Obj)):
                    self.bump(base)
                self.maybe_raise(("attr", base, "__delitem__"), st, frame)
            elif isinstance(t, ast.Attribute):
                base = self.ev(t.value, frame)
                self.emit("delattr", ("attr", base, t.attr), (), node=st, frame=frame)

    def s_If(self, st, frame):
        from .project import static_test
        v = static_test(st.test)
        if v is None:
            v = self.truth_of(st.test, frame)
        self.block(st.body if v else st.orelse, frame)

    def s_While(self, st, frame):
        self.ex_while(st, frame)

    def s_For(self, st, frame):
        self.ex_for(st, frame)

    def s_Assert(self, st, frame):
        if self.cfg.assert_mode == "skip":
            return
        ok = self.truth_of(st.test, frame)
        if not ok:
            if self.cfg.assert_mode == "fork":
                self.raise_("AssertionError", node=st)
            raise Infeasible

    def s_Raise(self, st, frame):
        self.last_node = st
        if st.exc is None:
            e = getattr(frame, "handling", None)
            f = frame
            while e is None and f is not None:
                e = getattr(f, "handling", None)
                f = f.parent
            if e is None:
                e = Obj(self.new_oid(), None)
                e.ename = "builtins.RuntimeError"
            raise AbsRaise(e, st)
        v = self.value_of(self.ev(st.exc, frame))
        if st.cause is not None:
            self.ev(st.cause, frame)
        if kind_(v) in ("cls", "ext"):
            v = self.call(v, [], {}, st, frame)
        if not isinstance(v, Obj):
            e = Obj(self.new_oid(), None)
            e.ename = "?"
            e.args = (v,)
            v = e
        raise AbsRaise(v, st)

    def handler_types(self, h, frame):
        if h.type is None:
            return [("ext", "builtins.BaseException")]
        t = self.value_of(self.ev(h.type, frame))
        if kind_(t) == "tup":
            return list(t[1])
        return [t]

    def matches(self, exc, types):
        names = self.exc_names(exc)
        for t in types:
            n = t[1] if kind_(t) in ("cls", "ext") else None
            if n in names:
                return True
            if kind_(t) == "ext" and n and ("builtins." + n.rsplit(".", 1)[-1]) in names and not n.startswith("builtins.") and n.rsplit(".", 1)[-1] not in ("error",):
                return True
        if isinstance(exc, Obj) and exc.ename == "?":
            return self.split(("excmatch", exc, tuple(types)))
        return False

    def s_Try(self, st, frame):
        hts = [self.handler_types(h, frame) for h in st.handlers]
        ctx = [t for ts in hts for t in ts]
        if st.finalbody and ("ext", "builtins.Exception") not in ctx and ("ext", "builtins.BaseException") not in ctx:
            ctx = ctx + [("ext", "builtins.Exception")]

        def inner():
            self.exc_ctx.append(ctx)
            try:
                try:
                    self.block(st.body, frame)
                finally:
                    self.exc_ctx.pop()
            except AbsRaise as e:
                for h, ts in zip(st.handlers, hts):
                    if self.matches(e.exc, ts):
                        if h.name:
                            frame.vars[h.name] = e.exc
                        old = getattr(frame, "handling", None)
                        frame.handling = e.exc
                        self.emit("handler", extra=(ts, e.exc), node=h, frame=frame)
                        try:
                            self.block(h.body, frame)
                        finally:
                            frame.handling = old
                        return
                raise
            else:
                self.block(st.orelse, frame)

        if st.finalbody:
            try:
                inner()
            except Control:
                self.block(st.finalbody, frame)
                raise
            self.block(st.finalbody, frame)
        else:
            inner()

    s_TryStar = s_Try

    def s_With(self, st, frame):
        self.with_items(st, list(st.items), frame)

    def with_items(self, st, items, frame):
        if not items:
            self.block(st.body, frame)
            return
        it, rest = items[0], items[1:]
        cm = self.value_of(self.ev(it.context_expr, frame))

        def body():
            self.with_items(st, rest, frame)

        if isinstance(cm, GenV):
            self.emit("enter", ("sym", cm.func.qual), node=st, frame=frame)
            done = []

            def hook(v):
                done.append(1)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, frame)
                try:
                    body()
                except (AbsReturn, AbsBreak, AbsContinue) as e:
                    hook.pending = e
                return NONE

            hook.pending = None
            self.exc_ctx.append([("ext", "builtins.Exception")])
            try:
                self.run_gen(cm, hook, (frame, assigned_names(st.body)))
            finally:
                self.exc_ctx.pop()
            self.emit("exit", ("sym", cm.func.qual), node=st, frame=frame)
            if hook.pending is not None:
                raise hook.pending
            return
        if isinstance(cm, Obj) and cm.cls is not None and self.p.find_method(cm.cls, "__exit__"):
            enter = self.p.find_method(cm.cls, "__enter__")
            ex = self.p.find_method(cm.cls, "__exit__")
            v = self.call(("bound", ("fn", enter.qual), cm), [], {}, st, frame) if enter else cm
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, frame)
            self.emit("enter", cm, node=st, frame=frame)
            self.exc_ctx.append([("ext", "builtins.Exception")])
            popped = False
            try:
                try:
                    body()
                finally:
                    self.exc_ctx.pop()
                    popped = True
            except AbsRaise as e:
                r = self.call(("bound", ("fn", ex.qual), cm), [("sym", "exc_type", "obj"), e.exc, ("sym", "tb", "obj")], {}, st, frame)
                self.emit("exit", cm, node=st, frame=frame)
                if self.truth(r, st, frame):
                    return
                raise
            except Control:
                self.call(("bound", ("fn", ex.qual), cm), [NONE, NONE, NONE], {}, st, frame)
                self.emit("exit", cm, node=st, frame=frame)
                raise
            assert popped
            self.call(("bound", ("fn", ex.qual), cm), [NONE, NONE, NONE], {}, st, frame)
            self.emit("exit", cm, node=st, frame=frame)
            return
        if kind_(cm) == "suppress":
            self.exc_ctx.append(list(cm[1]))
            try:
                try:
                    body()
                finally:
                    self.exc_ctx.pop()
            except AbsRaise as e:
                if not self.matches(e.exc, list(cm[1])):
                    raise
            return
        if kind_(cm) == "nullctx":
            if it.optional_vars is not None:
                self.assign(it.optional_vars, cm[1], frame)
            body()
            return
        # unknown context manager: value is itself for memoryview-like objects
        self.emit("enter", cm, node=st, frame=frame)
        if it.optional_vars is not None:
            self.assign(it.optional_vars, cm, frame)
        try:
            body()
        except Control:
            self.emit("exit", cm, node=st, frame=frame)
            raise
        self.emit("exit", cm, node=st, frame=frame)


EXT = set()


RESULT_TYPES = {
    "codecs.decode": "str", "codecs.encode": "bytes", "int.from_bytes": "int", "builtins.int.from_bytes": "int",
    "builtins.len": "int", "builtins.repr": "str", "builtins.str": "str", "builtins.bytes": "bytes",
    "struct.pack": "bytes", "builtins.float": "float", "builtins.ord": "int", "builtins.bytearray": "bytearray",
    "builtins.memoryview": "memoryview",
}
FMT_TYPES = {"d": "float", "f": "float", "e": "float", "?": "bool", "c": "bytes"}


TEXT_CODECS = {"latin1", "latin-1", "iso-8859-1", "iso8859-1", "utf-8", "utf8", "utf-16-le", "utf-16le", "ascii"}
METHOD_TYPES = {
    ("memoryview", "toreadonly"): "memoryview", ("memoryview", "cast"): "memoryview",
    ("memoryview", "__enter__"): "memoryview", ("memoryview", "tobytes"): "bytes",
    ("str", "encode"): "bytes", ("bytes", "decode"): "str", ("bytearray", "decode"): "str",
}


def known_type(x):
    """Builtin type of the result of a known external operation, else None."""
    if isinstance(x, tuple) and x:
        if x[0] == "mv":
            return "memoryview"
        if x[0] == "buf":
            return x[1]
        if x[0] == "op" and x[1] == "*" and any(is_c(y) and y[1] in ("str", "bytes") for y in x[2]):
            return next(y[1] for y in x[2] if is_c(y) and y[1] in ("str", "bytes"))
        if x[0] == "sym" and len(x) > 2 and x[2] in ("bytes", "bytearray", "memoryview"):
            return x[2]
        if x[0] == "sym" and len(x) > 2 and x[2] in ("str", "nat", "int"):
            return "str" if x[2] == "str" else "int"
        if x[0] == "call" and isinstance(x[1], tuple) and x[1][0] == "ext":
            t = RESULT_TYPES.get(x[1][1])
            if t is not None:
                return t
            if x[1][1] == "codecs.decode" and len(x[2]) > 1 and is_c(x[2][1]) and x[2][1][2] in TEXT_CODECS:
                return "str"
        if x[0] == "call" and isinstance(x[1], tuple) and x[1][0] == "attr":
            base, name = known_type(x[1][1]), x[1][2]
            if (base, name) in METHOD_TYPES:
                return METHOD_TYPES[(base, name)]
            if name in ("to_bytes", "tobytes"):
                return "bytes"
            if name == "bit_length":
                return "int"
        if x[0] == "idx" and isinstance(x[2], tuple) and x[2] and x[2][0] == "slice":
            t = known_type(x[1])
            if t in ("memoryview", "bytes", "bytearray", "str", "list", "tuple"):
                return t
        if x[0] in ("len",):
            return "int"
        if x[0] == "idx" and kind_(x[1]) == "call" and x[1][1] in (("ext", "struct.unpack_from"), ("ext", "struct.unpack")) and is_c(x[1][2][0]):
            f = x[1][2][0][2]
            if len(f) == 2:
                return FMT_TYPES.get(f[-1], "int")
        if x[0] == "lin" and len(x[1]) == 1 and known_type(x[1][0][0]) == "int":
            return "int"
        if x[0] == "fstr":
            return "str"
    return None


def res_n(n):
    return n


def kind_(t):
    return t[0] if isinstance(t, tuple) and t else None


def _gcd(a, b):
    while b:
        a, b = b, a % b
    return a


def ast_const(node):
    if isinstance(node, ast.Constant):
        return bool(node.value)
    return None


def version_of(t):
    if isinstance(t, tuple) and t[0] == "call" and isinstance(t[1], tuple) and t[1][0] == "ext" and t[1][1].endswith("Version") and len(t[2]) == 1 and is_c(t[2][0]):
        try:
            return tuple(int(x) for x in str(t[2][0][2]).split("."))
        except ValueError:
            return None
    return None


def version_key(t):
    """Versions in order; the symbolic unreleased version is the last (its comparisons are checked on their own)."""
    v = version_of(t)
    if v is not None:
        return 0, v
    if isinstance(t, tuple) and t[0] == "enum" and t[1].endswith("SymbolicVersion"):
        return 1, ()
    return None


def version_like(t):
    return isinstance(t, tuple) and t[0] == "call" and isinstance(t[1], tuple) and t[1][0] == "ext" and t[1][1].endswith("Version")


def ext_exc_names(n):
    if n is None:
        return set()
    short = n.rsplit(".", 1)[-1]
    b = getattr(builtins, short, None)
    if isinstance(b, type) and issubclass(b, BaseException) and (n.startswith("builtins.") or "." not in n):
        return {f"builtins.{x.__name__}" for x in b.__mro__}
    return {n, "builtins.Exception", "builtins.BaseException", "builtins.object"}


_MODF = {}


def _module_func(m):
    if id(m) not in _MODF:
        node = ast.parse("def _module_(): pass").body[0]
        _MODF[id(m)] = Func(f"{m.name}.<module>", node, m, None)
    return _MODF[id(m)]


def _body_func(c):
    if id(c) not in _MODF:
        node = ast.parse("def _class_(): pass").body[0]
        _MODF[id(c)] = Func(f"{c.qual}.<body>", node, c.module, c)
    return _MODF[id(c)]


BINOPS = {
    ast.Add: "+", ast.Sub: "-", ast.Mult: "*", ast.Div: "/", ast.FloorDiv: "//", ast.Mod: "%",
    ast.Pow: "**", ast.LShift: "<<", ast.RShift: ">>", ast.BitOr: "|", ast.BitAnd: "&", ast.BitXor: "^",
    ast.MatMult: "@",
}
PYOPS = {
    "+": lambda a, b: a + b, "-": lambda a, b: a - b, "*": lambda a, b: a * b, "/": lambda a, b: a / b,
    "//": lambda a, b: a // b, "%": lambda a, b: a % b, "**": lambda a, b: a ** b if abs(b) < 1100 else _te(),
    "<<": lambda a, b: a << b if b < 5000 else _te(), ">>": lambda a, b: a >> b, "|": lambda a, b: a | b,
    "&": lambda a, b: a & b, "^": lambda a, b: a ^ b, "@": lambda a, b: a @ b,
}
DUNDER = {"|": "__or__", "&": "__and__", "+": "__add__", "-": "__sub__", "^": "__xor__"}
IDUNDER = {"|": "__ior__", "&": "__iand__", "+": "__iadd__", "-": "__isub__", "^": "__ixor__"}


def _te():
    raise TypeError
