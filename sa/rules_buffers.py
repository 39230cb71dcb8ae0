"""Array buffers, their views and the DataView accessors."""

from __future__ import annotations

from .fn import FnConfig, script
from .interp import kind_, known_type
from .project import AnalysisError
from .terms import C, NONE, Obj, is_c, is_int, lin_add, lin_of, lin_scale, show

MOD = "v8serialize.jstypes.jsbuffers"
BB = ("sym", "backing", "obj")
N = ("sym", "backing_bytes", "nat")
NATIVE = {"b": 1, "B": 1, "c": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 8, "L": 8, "q": 8, "Q": 8, "e": 2, "f": 4, "d": 8}


def clamp(ip, x, n, default):
    """A slice bound within a sequence of length n, as Python clamps it."""
    if x == NONE or x is None:
        return default
    if ip.compare("<", x, C(0)):
        x = lin_add(x, n)
        if ip.compare("<", x, C(0)):
            return C(0)
    if ip.compare(">", x, n):
        return n
    return x


def mv_(base, lo, n, ro=False, fmt="B"):
    return ("mv", base, lo, n, ro, fmt)


def zeros(x):
    """n for b"\\0" * n"""
    if kind_(x) == "op" and x[1] == "*" and C(b"\0") in x[2]:
        a, b = x[2]
        return b if a == C(b"\0") else a
    return None


class BufferConfig(FnConfig):
    """Byte views are (buffer, start, length, readonly, format); the backing buffer is any buffer of N bytes."""

    exact_div = True

    def __init__(self, p, sizes=None, items=None):
        super().__init__()
        self.getter = p.func("_pycompat.typing.get_buffer").qual
        self.sizes = sizes or {BB: N}
        self.items = items  # len() of data that is not made of bytes

    def content(self, ip, x):
        """(what the bytes are, how many) of something bytes or bytearray can be made of."""
        z = zeros(x)
        if z is not None:
            return ("zeros",), z
        if kind_(x) == "buf":
            return x[2], x[3]
        if kind_(x) == "mv":
            return ("copy", x[1], x[2]), x[3]
        if is_c(x) and isinstance(x[2], bytes):
            return (("zeros",) if not any(x[2]) else x), C(len(x[2]))
        if x in self.sizes and x != BB:
            return ("copy", x, C(0)), self.sizes[x]
        if ip.intlike(x):
            return ("zeros",), x
        return None

    def view(self, ip, x):
        if kind_(x) == "mv":
            return mv_(*x[1:5])
        if is_c(x) and isinstance(x[2], bytes):
            return mv_(x, C(0), C(len(x[2])))
        if kind_(x) == "buf" or zeros(x) is not None:
            c = self.content(ip, x)
            return mv_(("buf", known_type(x), *c), C(0), c[1])
        if x in self.sizes:
            if x == BB and not ip.split(("accessible", x)):
                ip.raise_("NotImplementedError")
            return mv_(x, C(0), self.sizes[x])
        return None

    def on_call(self, ip, f, args, kwargs, node, frame):
        k = kind_(f)
        if k == "fn" and f[1] == self.getter or f == ("ext", "builtins.memoryview") and args:
            v = self.view(ip, ip.value_of(args[0]) if not isinstance(args[0], Obj) else args[0])
            return NotImplemented if v is None else v
        if f == ("ext", "builtins.len") and len(args) == 1 and kind_(args[0]) == "mv":
            m = args[0]
            return ip.binop("//", m[3], C(NATIVE[m[5]]), node, frame)
        if f in (("ext", "builtins.bytes"), ("ext", "builtins.bytearray")) and len(args) <= 1:
            c = self.content(ip, ip.value_of(args[0])) if args else (("zeros",), C(0))
            return NotImplemented if c is None else ("buf", f[1].rsplit(".", 1)[-1], *c)
        if f == ("ext", "builtins.len") and len(args) == 1:
            x = args[0]
            if kind_(x) == "buf" or zeros(x) is not None:
                return self.content(ip, x)[1]
            if x in self.sizes:
                return self.sizes[x] if self.items is None else self.items
        if f == ("ext", "struct.pack_into") or k == "attr" and f[2] == "pack_into":
            ip.emit("call", f, args, node=node, frame=frame)
            return NONE
        if k == "attr" and kind_(f[1]) == "mv":
            m = f[1]
            if f[2] == "toreadonly" and not args:
                return (*m[:4], True, m[5])
            if f[2] == "cast" and args and is_c(args[0]) and args[0][2] in NATIVE and len(args) == 1:
                return (*m[:5], args[0][2])
            if f[2] == "__enter__":
                return m
            if f[2] in ("__exit__", "release"):
                ip.emit("release", f, [m], node=node, frame=frame)
                return NONE
        return NotImplemented

    def on_iop(self, ip, cur, op, rhs, node, frame):
        if kind_(cur) == "buf" and cur[1] == "bytearray" and op == "+":
            ip.emit("call", ("attr", cur, "extend"), [rhs], node=node, frame=frame)
            return True
        return False

    def on_attr(self, ip, base, name, node, frame):
        if kind_(base) == "mv":
            if name == "nbytes":
                return base[3]
            if name == "itemsize":
                return C(NATIVE[base[5]])
            if name == "ndim":
                return C(1)
            if name == "format":
                return C(base[5])
            if name == "readonly" and base[4]:
                return C(True)
        return NotImplemented

    def on_index(self, ip, base, key, node, frame):
        if kind_(base) == "mv" and key == ("slice", NONE, NONE):
            return base
        if kind_(base) == "mv" and kind_(key) == "slice" and len(key) == 3 and NATIVE[base[5]] == 1:
            n = base[3]
            a = clamp(ip, key[1], n, C(0))
            b = clamp(ip, key[2], n, n)
            if ip.compare("<", b, a):
                b = a
            return ("mv", base[1], lin_add(base[2], a), lin_add(b, a, -1), base[4], base[5])
        return None


# ------------------------------------------------------------------ buffers
D, M, NEW = ("sym", "data", "obj"), ("sym", "max", "nat"), ("sym", "new_length", "int")
ITEMS = ("sym", "data_items", "nat")
MAKE = """
try:
    b = JSArrayBuffer({data}{args})
except ValueError:
    return None
return (b, b.data, b.max_byte_length, b._data, True if b.resizable else False)
"""
RESIZE = """
b = JSArrayBuffer(d, max_byte_length=m)
mark()
try:
    b.resize(new)
except ValueError:
    return False
return True
"""
DATA = {  # how the data is given: the type of D (None: not given) and whether len() of it counts bytes
    "": None, "d, ": "int", "byte_length=d, ": "int", "d,": "bytes", " d, ": "bytearray", " d,": "memoryview", "  d,": "wide memoryview", "  d, ": "array",
}


def make_data(ty):
    def mk(ip):
        if ty == "memoryview":
            return mv_(D, C(0), N)
        if ty == "wide memoryview":
            ip.assume_le0(lin_add(lin_scale(ip.binop("//", N, C(4), None, None), 4), N, -1), True)
            ip.assume_le0(lin_add(N, lin_scale(ip.binop("//", N, C(4), None, None), 4), -1), True)
            return ("mv", D, C(0), N, False, "I")
        if ty == "int":
            return N
        ip.types[D] = (set() if ty == "array" else {ty}, {"int", "memoryview", "bytes", "bytearray", "NoneType"} - {ty} if ty == "array" else set())
        return D
    return mk


def check_array_buffer(p, rep):
    rep.rule("an ArrayBuffer holds all the bytes it was made of, as a copy unless asked otherwise, or zeros; it is never made longer than "
             "its maximum, read-only data is never writable and resizable data is never read-only")
    rep.rule("resizing keeps the bytes that stay, adds zeros, and is refused outside 0 … max_byte_length or on a fixed buffer")
    for spell, ty in DATA.items():
        for m in (None, M):
            for z in (None, True):
                for c in (None, False, True):
                    for r in (None, True):
                        _made(p, rep, spell, ty, m, z, c, r)
    _resize(p, rep)
    rep.at_least("buffers made", 100)
    rep.at_least("resizes decided", 4)


def _made(p, rep, spell, ty, m, z, c, r):
    args = "".join([", max_byte_length=m" * (m is not None), f", resizable={z}" * (z is not None), f", copy_data={c}" * (c is not None),
                    f", readonly={r}" * (r is not None)])
    given = spell.strip().rstrip(",")
    src = MAKE.format(data=given, args=args if given else args[2:])
    cfg = BufferConfig(p, {D: N}, ITEMS if ty == "array" else None)
    cfg.assert_mode = "fork"
    ps, ip = script(p, src, {"d": make_data(ty) if ty else NONE, "m": M}, cfg, MOD)
    rep.use(ps, ip)
    known = {D, N, M, ITEMS}
    label = f"JSArrayBuffer({ty or ''}{args})"
    size = C(0) if ty is None else N
    resizable = bool(z) or m is not None
    bad = resizable and bool(r)
    bad = bad or resizable and ty not in (None, "int", "bytearray") and c is False
    for q in ps:
        rep.ob("buffers made")
        over = m is not None and q.le(lin_add(M, C(1)), size)
        under = m is None or q.le(size, M)
        if q.outcome != "return":
            if bad and q.exc_name() == "AssertionError":
                continue
            decide(rep, q, known, (), False, "buffer-make", label, f"raises {q.exc_name()}")
            continue
        if q.value == NONE:
            decide(rep, q, known, (), bad or over, "buffer-make", label, "a buffer that is allowed is refused")
            continue
        if not decide(rep, q, known, (), not bad and under, "buffer-make", label,
                      "a buffer that cannot be is made" if bad else "the data may be longer than the maximum"):
            continue
        b, data, top, own, can = q.value[1]
        if kind_(data) != "mv":
            rep.undecided.append(f"{label}: its data is {show(data)}")
            continue
        content = cfg.content(ip, data[1]) if data[1] != D else (("copy", D, C(0)), N)
        if content is None:
            rep.undecided.append(f"{label}: its data is {show(data)}")
            continue
        what, n = content
        want = ("zeros",) if ty in (None, "int") else ("copy", D, C(0))
        terms = (data[2], data[3], n, top)
        empty = q.same(n, C(0))
        decide(rep, q, known, (what, *terms), (what == want or empty) and q.same(n, size), "buffer-data", label,
               f"holds {show(n)} bytes of {show(what)}")
        decide(rep, q, known, terms, q.same(data[3], size) and (q.same(data[2], C(0)) or q.same(size, C(0))), "buffer-data", label,
               f"data shows {show(data[3])} of its bytes, from {show(data[2])}")
        decide(rep, q, known, terms, q.same(top, M if m is not None else size), "buffer-max", label, f"max_byte_length is {show(top)}")
        rep.require(can == C(resizable), "buffer-resizable", label, "resizable is wrong")
        kt = "array" if own == D and ty == "array" else known_type(own) or (ty if own == D else None)
        if kt is None and is_c(own) and isinstance(own[2], bytes):
            kt = "bytes"
        if kt is None:
            rep.undecided.append(f"{label}: the type of its data is not followed ({show(own)})")
            continue
        view_ro = kind_(own) == "mv" and own[4]
        copied = own != D and kind_(own) != "mv"
        if r:
            rep.require(kt == "bytes" or view_ro, "buffer-readonly", label, f"read-only data is kept in a {kt}")
        elif copied:
            rep.require(kt == "bytearray", "buffer-readonly", label, f"writable data is kept in {kt}")
        elif view_ro:
            rep.viol("buffer-readonly", label, "data is made read-only unasked")
        if resizable:
            rep.require(kt == "bytearray", "buffer-resizable", label, f"resizable data is kept in a {kt}")
        if ty not in (None, "int"):
            rep.require(copied == (c is not False), "buffer-copy", label, "the data is shared" if not copied else "the data is not shared")


def _resize(p, rep):
    for ty in ("bytearray", "int"):
        for fixed in (False, True):
            cfg = BufferConfig(p, {D: N})
            src = RESIZE.replace(", max_byte_length=m", "") if fixed else RESIZE
            ps, ip = script(p, src, {"d": make_data(ty), "m": M, "new": NEW, "mark": ("sym", "mark", "obj")}, cfg, MOD)
            rep.use(ps, ip)
            known = {D, N, M, NEW}
            label = "resize of a fixed buffer" if fixed else "resize"
            for q in ps:
                at = next((i for i, e in enumerate(q.events) if e.kind == "call" and e.f == ("sym", "mark", "obj")), None)
                if at is None:
                    continue  # not made
                if q.outcome != "return":
                    decide(rep, q, known | {("sym", "mark", "obj")}, (), False, "buffer-resize", label, f"raises {q.exc_name()}")
                    continue
                rep.ob("resizes decided")
                kn = known | {("sym", "mark", "obj")}
                events = [e for e in q.events[at + 1:] if e.kind in ("call", "delitem", "setitem", "mutate", "augassign")]
                out = fixed or q.le(NEW, C(-1)) or q.le(lin_add(M, C(1)), NEW)
                inside = not fixed and q.le(C(0), NEW) and q.le(NEW, M)
                if q.value == C(False):
                    decide(rep, q, kn, (), out, "buffer-resize", label, "a length that is allowed is refused")
                    rep.require(not [e for e in events if e.kind != "call"], "buffer-resize", label, "a refused resize changes the data")
                    continue
                if not decide(rep, q, kn, (), inside, "buffer-resize", label, "a length that is not allowed is accepted"):
                    continue
                try:
                    size = N
                    for e in events:
                        size = _resized(q, e, size, known)
                except Broken as e:
                    decide(rep, q, kn, (), False, "buffer-resize", label, str(e))
                    continue
                except Undecided as e:
                    rep.undecided.append(f"{label}: {e}")
                    continue
                decide(rep, q, kn, (size,), q.same(size, NEW), "buffer-resize", label, f"the buffer becomes {show(size)} bytes long")


def _cut(q, key, size):
    """The first and the past-the-end byte a slice of a buffer of this size addresses."""
    out = []
    for x, default in ((key[1], C(0)), (key[2], size)):
        if x == NONE:
            out.append(default)
            continue
        if q.le(x, C(-1)):
            x = lin_add(size, x)
        elif not q.le(C(0), x):
            raise Undecided(f"the slice to {show(x)} is not followed")
        if q.le(x, C(0)):
            x = C(0)
        out.append(size if q.le(size, x) else x)
    return out


def _zero_count(x):
    if kind_(x) == "buf" and x[2] == ("zeros",):
        return x[3]
    if is_c(x) and isinstance(x[2], bytes) and not any(x[2]):
        return C(len(x[2]))
    return zeros(x)


def _resized(q, e, size, known):
    """The size after an operation on the data."""
    own = e.f[1] if e.kind == "call" and kind_(e.f) == "attr" else e.f
    if kind_(own) == "mark" or kind_(own) != "buf" or not e.args:
        raise Undecided(f"{e.kind} of {show(e.f) if e.f is not None else ''} is not followed")
    if e.kind == "call" and e.f[2] in ("extend", "__iadd__"):
        n = _zero_count(e.args[0])
        if n is None or not q.le(C(0), n):
            raise Undecided(f"{show(e.args[0])} is added")
        return lin_add(size, n)
    if e.kind in ("delitem", "setitem") and kind_(e.args[0]) == "slice" and len(e.args[0]) == 3:
        lo, hi = _cut(q, e.args[0], size)
        n = C(0) if e.kind == "delitem" else _zero_count(e.args[1])
        if n is None:
            raise Undecided(f"{show(e.args[1])} is put into the data")
        if q.same(hi, size):
            return lin_add(lo, n)
        if q.le(hi, lo) and q.same(n, C(0)):
            return size
        raise Broken("bytes are changed that should stay")
    raise Undecided(f"{e.kind} of {show(e.f)} is not followed")


# ------------------------------------------------------------------ views
SIGNED, UNSIGNED, FLOAT, RAW = "bhilq", "BHILQ", "efd", "Bc"
VIEWS = {  # JavaScript's view types: element size and the native formats that hold the element
    "kInt8Array": (1, SIGNED), "kUint8Array": (1, UNSIGNED), "kUint8ClampedArray": (1, UNSIGNED),
    "kInt16Array": (2, SIGNED), "kUint16Array": (2, UNSIGNED), "kInt32Array": (4, SIGNED), "kUint32Array": (4, UNSIGNED),
    "kFloat16Array": (2, FLOAT), "kFloat32Array": (4, FLOAT), "kFloat64Array": (8, FLOAT),
    "kBigInt64Array": (8, SIGNED), "kBigUint64Array": (8, UNSIGNED), "kDataView": (1, RAW),
}
X, Y = ("sym", "x", "int"), ("sym", "y", "int")
CREATE = """
try:
    v = create_view(bb, fmt, byte_offset=x, byte_length=y)
except ValueError:
    v = None
aligned = x % k == 0 and (y is None or y % k == 0)
sane = aligned and x >= 0 and (y is None or y >= 0)
tracking = isinstance(bb, bytearray) or (isinstance(bb, JSArrayBuffer) and bb.resizable)
inside = x <= nb and (y is None or x + y <= nb)
whole = y is not None or tracking or nb % k == 0
mv = None if v is None else v.get_buffer_as_memoryview()
return (v, True if sane else False, True if inside else False, True if whole else False, mv, None if v is None else v.item_length is None, None if v is None else v.view_tag)
"""
VIEW = """
v = K(bb, o, n)
mv = v.get_buffer_as_memoryview()
fits = (o * k <= nb) if n is None else (o * k + n * k <= nb)
r = v.is_in_range
tracking = n is None and (isinstance(bb, bytearray) or (isinstance(bb, JSArrayBuffer) and bb.resizable))
return (mv, True if r else False, v.byte_offset, v.byte_length, True if fits else False,
        True if v.is_length_tracking else False, True if tracking else False)
"""
READONLY = """
return (K(bb, 0, None).get_buffer_as_memoryview(), K(bb, 0, None, readonly=True).get_buffer_as_memoryview(),
        K(bb, 0, None).get_buffer_as_memoryview(readonly=True), K(bb, 1, 1, readonly=True).get_buffer_as_memoryview(),
        create_view(bb, K.view_tag, readonly=True).get_buffer_as_memoryview())
"""
BUFFER = """
return (K(bb, 0, None).get_buffer(), K(bb, 0, None).get_buffer(readonly=True), K(bb, 0, None, readonly=True).get_buffer())
"""


def subterms(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from subterms(x)


def strange(q, known, *terms):
    """Something the model says nothing about that the path depends on."""
    for t in list(q.atoms) + list(terms):
        if isinstance(t, tuple) and t and t[0] in ("accessible", "isinstance"):
            continue
        for s in subterms(t):
            if kind_(s) in ("call", "attr", "idx", "unknown", "loopvar", "ver") and s not in known:
                return s
            if kind_(s) == "sym" and s not in known:
                return s
    return None


class Undecided(Exception):
    pass


class Broken(Exception):
    pass


def tag_term(p, name):
    c = p.cls("ArrayBufferViewTag")
    return ("enum", c.qual, name)


def view_class(p, tag):
    ps, _ = script(p, "return ArrayBufferViewStructFormat(t).view_type", {"t": tag}, BufferConfig(p), MOD)
    if len(ps) != 1 or ps[0].outcome != "return" or kind_(ps[0].value) != "cls":
        raise Undecided("the view type of a tag could not be resolved")
    return ps[0].value


def the_mv(t, what):
    if kind_(t) != "mv":
        raise Undecided(f"{what} is {show(t)}")
    return t


def covers(q, mv, lo, n):
    """Does the view cover exactly n bytes from lo?"""
    return q.same(mv[3], n) and (q.same(mv[2], lo) or q.same(n, C(0)))


def whole_items(q, mv, lo, k):
    """Does the view cover the most whole elements from lo to the end of the buffer?"""
    coefs, c = lin_of(mv[3])
    left = lin_add(lin_add(N, lo, -1), mv[3], -1)
    multiple = all(v % k == 0 for v in coefs.values()) and c % k == 0
    return multiple and q.le(C(0), left) and q.le(left, C(k - 1)) and (q.same(mv[2], lo) or q.le(mv[3], C(0)))


def accessible(q):
    return q.atoms.get(("accessible", BB))


def decide(rep, q, known, terms, ok, key, label, msg):
    if ok:
        return True
    odd = strange(q, known, *terms)
    if odd is not None:
        rep.undecided.append(f"{label}: {show(odd)} is not understood")
    else:
        rep.viol(key, label, msg)
    return False


def check_views(p, rep):
    rep.rule("a view shows exactly the bytes of its range when the whole range is in its buffer, and none otherwise; one without a length "
             "shows as many whole elements as the buffer holds; its offset, length and in-range flag say the same")
    rep.rule("creating a view fails exactly when JavaScript's constructors do: misaligned, negative or out-of-range offsets and lengths, or "
             "a fixed buffer that is not a whole number of elements")
    for tag, (k, fmts) in VIEWS.items():
        t = tag_term(p, tag)
        try:
            K = view_class(p, t)
        except Undecided as e:
            rep.undecided.append(f"{tag}: {e}")
            continue
        for fn in (_view_reads, _view_creation, _view_readonly, _view_buffer):
            try:
                fn(p, rep, tag, t, K, k, fmts)
            except Undecided as e:
                rep.undecided.append(f"{tag}: {e}")
    rep.at_least("view states decided", 13 * 6)
    rep.at_least("view creations decided", 13 * 10)
    rep.at_least("view types decided", 13)
    rep.at_least("read-only views decided", 13)


def _view_reads(p, rep, tag, t, K, k, fmts):
    cn = K[1].rsplit(".", 1)[-1]
    o, n = ("sym", "o", "nat"), ("sym", "n", "nat")
    for length in (n, NONE):
        par = {"K": K, "bb": BB, "o": o, "n": length, "k": C(k), "nb": N}
        ps, ip = script(p, VIEW, par, BufferConfig(p), MOD)
        rep.use(ps, ip)
        known = {BB, N, o, n, ("attr", BB, "resizable")}
        for q in ps:
            label = f"{cn}({'fixed' if length != NONE else 'open'} length)"
            if q.outcome != "return":
                decide(rep, q, known, (), False, "view-read", label, f"reading the view raises {q.exc_name()}")
                continue
            mv, r, off, bl, fits, says, tracking = q.value[1]
            mv = the_mv(mv, "the bytes of a view")
            rep.ob("view states decided")
            decide(rep, q, known, (), says == tracking, "view-range", label, f"is_length_tracking is {show(says)}")
            lo, terms = lin_scale(o, k), (mv[2], mv[3], off, bl)
            if not accessible(q):
                decide(rep, q, known, terms, q.same(mv[3], C(0)) and q.same(bl, C(0)), "view-read", label,
                       "a view of a buffer that cannot be read shows bytes")
                continue
            if mv[1] != BB:
                raise Undecided("a view's bytes are not those of its buffer")
            if fits == C(True):
                good = covers(q, mv, lo, lin_scale(n, k)) if length != NONE else whole_items(q, mv, lo, k)
                decide(rep, q, known, terms, good, "view-read", label,
                       f"the view of a range in the buffer covers {show(mv[3])} bytes from {show(mv[2])}")
                decide(rep, q, known, terms, r == C(True), "view-range", label, "a view in range is said not to be")
                decide(rep, q, known, terms, q.same(off, lo), "view-range", label, f"byte_offset of a view in range is {show(off)}")
            else:
                decide(rep, q, known, terms, q.same(mv[3], C(0)), "view-read", label,
                       f"a view that is out of range shows {show(mv[3])} bytes")
                decide(rep, q, known, terms, r == C(False), "view-range", label, "a view out of range is said to be in range")
                decide(rep, q, known, terms, q.same(off, C(0)), "view-range", label, f"byte_offset of a view out of range is {show(off)}")
            decide(rep, q, known, terms, q.same(bl, mv[3]), "view-range", label, f"byte_length is {show(bl)} but {show(mv[3])} bytes are shown")


def _view_creation(p, rep, tag, t, K, k, fmts):
    cn = K[1].rsplit(".", 1)[-1]
    for length in (Y, NONE):
        par = {"bb": BB, "fmt": t, "x": X, "y": length, "k": C(k), "nb": N}
        ps, ip = script(p, CREATE, par, BufferConfig(p), MOD)
        rep.use(ps, ip)
        known = {BB, N, X, Y, ("attr", BB, "resizable")}
        label = f"create_view of {cn} ({'with' if length != NONE else 'without'} a length)"
        for q in ps:
            if q.outcome != "return":
                decide(rep, q, known, (), False, "view-create", label, f"raises {q.exc_name()}")
                continue
            v, sane, inside, whole, mv, opened, own = q.value[1]
            rep.ob("view creations decided")
            should = sane == C(True) and (not accessible(q) if accessible(q) is not None else False)
            should = should or sane == C(True) and inside == C(True) and whole == C(True)
            if v == NONE:
                if accessible(q) is None and sane == C(True):
                    raise Undecided("the buffer was not looked at")
                decide(rep, q, known, (), not should, "view-create", label, "a view JavaScript allows is refused")
                continue
            why = ("a misaligned or negative range" if sane != C(True) else "a range outside the buffer" if inside != C(True)
                   else "a buffer that is not a whole number of elements")
            if not decide(rep, q, known, (), should, "view-create", label, f"{why} is accepted"):
                continue
            if not isinstance(v, Obj) or v.cls is None:
                raise Undecided("create_view's result is not a view")
            rep.require(v.cls.qual == K[1], "view-create", label, f"gives a {v.cls.name}")
            rep.require(own == t, "view-create", label, f"the view made is tagged {show(own)}")
            rep.require(opened == C(length == NONE), "view-create", label, "the view does not keep whether it has a length of its own")
            mv = the_mv(mv, "the bytes of a view")
            if accessible(q):
                good = covers(q, mv, X, Y) if length != NONE else whole_items(q, mv, X, k)
                decide(rep, q, known, (mv[2], mv[3]), good, "view-create", label,
                       f"the view made covers {show(mv[3])} bytes from {show(mv[2])}")
            else:
                decide(rep, q, known, (mv[3],), q.same(mv[3], C(0)), "view-create", label, "bytes are shown of a buffer that cannot be read")
            off = v.fields.get("item_offset")
            if off is not None:
                decide(rep, q, known, (off,), q.same(lin_scale(off, k), X), "view-create", label, f"the view made starts at element {show(off)}")
            if length != NONE and v.fields.get("item_length") is not None:
                il = v.fields["item_length"]
                decide(rep, q, known, (il,), il != NONE and q.same(lin_scale(il, k), Y), "view-create", label, f"the view made has {show(il)} elements")


def _view_readonly(p, rep, tag, t, K, k, fmts):
    cn = K[1].rsplit(".", 1)[-1]
    ps, ip = script(p, READONLY, {"K": K, "bb": BB}, BufferConfig(p), MOD)
    rep.use(ps, ip)
    for q in ps:
        if q.outcome != "return":
            continue
        if accessible(q) is False:
            continue
        vs = [the_mv(v, "the bytes of a view") for v in q.value[1]]
        rep.ob("read-only views decided")
        rep.require(not vs[0][4], "view-readonly", cn, "a writable view is read-only")
        rep.require(all(v[4] for v in vs[1:]), "view-readonly", cn, "a read-only view gives out writable bytes")


def _view_buffer(p, rep, tag, t, K, k, fmts):
    """The elements a view gives out have the type its tag says."""
    classes = [p.classes[K[1]]] + [c for c in p.classes.values() if c.name.startswith("Backport") and K[1] in p.mro_quals(c)] \
        if hasattr(p, "mro_quals") else [p.classes[K[1]]]
    for c in classes:
        ps, ip = script(p, BUFFER, {"K": ("cls", c.qual), "bb": BB}, BufferConfig(p), MOD)
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "return":
                raise Undecided(f"get_buffer raises {q.exc_name()}")
            if accessible(q) is False:
                continue
            rep.ob("view types decided")
            for i, b in enumerate(q.value[1]):
                if isinstance(b, Obj) and tag == "kDataView":
                    rep.require(b.cls is not None and b.cls.name == "DataViewBuffer", "view-type", c.name, "get_buffer gives no DataViewBuffer")
                    b = b.fields.get("buffer")
                elif tag == "kDataView":
                    raise Undecided("get_buffer's result is not followed")
                b = the_mv(b, "get_buffer's result")
                rep.require(b[5] in fmts and NATIVE[b[5]] == k, "view-type", c.name, f"the elements are read as {b[5]!r}")
                rep.require(b[4] == (i > 0), "view-readonly", c.name, "get_buffer ignores or invents readonly")


# ------------------------------------------------------------------ DataView accessors
ACCESS = {
    "bigint64": "q", "biguint64": "Q", "float16": "e", "float32": "f", "float64": "d", "int16": "h", "int32": "i",
    "uint16": "H", "uint32": "I", "int8": "b", "uint8": "B",
}
SIZE = {"b": 1, "B": 1, "h": 2, "H": 2, "i": 4, "I": 4, "l": 4, "L": 4, "q": 8, "Q": 8, "e": 2, "f": 4, "d": 8}  # standard sizes
SAME = {"l": "i", "L": "I"}
VAL = ("sym", "value", "obj")


def fmt_of(t):
    """(byte order, item) of a struct format or struct.Struct's."""
    if is_c(t) and isinstance(t[2], str):
        s = t[2]
        order, item = (s[0], s[1:]) if s[:1] in "<>=!@" else ("@", s)
        if item in SIZE and len(item) == 1:
            order = {"!": ">", "=": "<", "@": "<"}[order] if order in "!=@" else order  # a little-endian machine
            if s[:1] not in "<>=!" and item in "lLqQ" and NATIVE[item] != SIZE[item]:
                return order, {"l": "q", "L": "Q"}[item]
            return order, SAME.get(item, item)
    raise Undecided(f"the format {show(t)} is not a single item")


def struct_call(e):
    """(function, format, rest of the arguments) of a call of struct's functions."""
    f = e[1] if kind_(e) == "call" else None
    if kind_(f) == "ext" and f[1].startswith("struct.") and e[2]:
        return f[1].rsplit(".", 1)[-1], e[2][0], e[2][1:]
    if kind_(f) == "attr" and kind_(f[1]) == "call" and f[1][1] == ("ext", "struct.Struct") and f[1][2]:
        return f[2], f[1][2][0], e[2]
    return None


def placed(name, rest, off, size):
    """Do these arguments address the bytes at off of the buffer?"""
    if not rest or kind_(rest[0]) != "mv":
        raise Undecided("the buffer accessed is not followed")
    m = rest[0]
    if name.endswith(("_from", "_into")):
        at = rest[1] if len(rest) > 1 else C(0)
        return m[1] == BB and m[5] == "B", lin_add(m[2], at), lin_add(m[3], at, -1)
    return m[1] == BB and m[5] == "B", m[2], m[3]


def check_dataview(p, rep):
    rep.rule("each accessor of a DataView reads or writes the type it is named after at the given offset, big-endian unless asked "
             "otherwise, and an access that is not wholly inside the view fails without touching it")
    for name, item in ACCESS.items():
        size = SIZE[item]
        orders = [("", ">"), (", True", "<"), (", False", ">"), (", little_endian=True", "<")] if size > 1 else [("", None)]
        for kind in ("get", "set"):
            for arg, order in orders:
                call = f"b.{kind}_{name}(x{', value' if kind == 'set' else ''}{arg})"
                src = f"b = JSDataView(bb).get_buffer()\ntry:\n    r = {call}\n    ok = True\nexcept BoundsJSArrayBufferError:\n    r = None\n    ok = False\n" \
                      f"inside = x >= 0 and x + {size} <= nb\nreturn (r, ok, True if inside else False)"
                try:
                    _accessor(p, rep, src, kind, item, size, order, call)
                except Undecided as e:
                    rep.undecided.append(f"{call}: {e}")
    rep.at_least("accesses decided", 36 * 2)


def _accessor(p, rep, src, kind, item, size, order, call):
    ps, ip = script(p, src, {"bb": BB, "nb": N, "x": X, "value": VAL}, BufferConfig(p), MOD)
    rep.use(ps, ip)
    known = {BB, N, X, VAL}
    for q in ps:
        if accessible(q) is False:
            continue
        calls = [s for s in (struct_call(("call", e.f, tuple(e.args))) for e in q.events if e.kind == "call" and e.f is not None) if s]
        moves = [s for s in calls if s[0] in ("unpack", "unpack_from", "pack_into", "iter_unpack")]
        if q.outcome != "return":
            decide(rep, q, known, (), False, "dataview", call, f"raises {q.exc_name()}")
            continue
        r, ok, inside = q.value[1]
        rep.ob("accesses decided")
        if inside != C(True):
            decide(rep, q, known, (), ok == C(False) and not [m for m in moves if m[0] == "pack_into"], "dataview", call,
                   "an access outside the view is let through")
            continue
        if not decide(rep, q, known, (), ok == C(True), "dataview", call, "an access inside the view is refused"):
            continue
        if kind == "get":
            got = r[1] if kind_(r) == "idx" and r[2] == C(0) else None
            one = struct_call(got) if got is not None else None
            if one is None or one[0] not in ("unpack_from", "unpack"):
                raise Undecided(f"the value read is {show(r)}")
        else:
            if len(moves) != 1 or moves[0][0] != "pack_into" or len(moves[0][2]) != 3:
                raise Undecided("the way the value is written is not followed")
            one = moves[0]
            rep.require(one[2][2] == VAL, "dataview", call, f"writes {show(one[2][2])}")
            rep.require(r == NONE, "dataview", call, "gives a result")
        o, it = fmt_of(one[1])
        rep.require(it == item, "dataview", call, f"uses the format {it!r}")
        rep.require(order is None or o == order, "dataview", call, f"uses the wrong byte order ({o})")
        own, at, left = placed(one[0], one[2], X, size)
        rep.require(own, "dataview", call, "does not access the view's own bytes")
        decide(rep, q, known, (at,), q.same(at, X), "dataview", call, f"accesses the bytes at {show(at)}")
        if one[0] == "unpack":
            decide(rep, q, known, (left,), q.same(left, C(size)), "dataview", call, f"unpacks {show(left)} bytes")
