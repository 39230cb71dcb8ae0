"""Rules over the decoding side (layout, object numbering, references, counts, errors, bounds)."""

from __future__ import annotations

from . import v8spec as V
from .fn import FnConfig, is_empty, script
from .grammar import Loop, full_env, tagnames, tree
from .project import AnalysisError
from .reader import decode_paths, seq, serialization_tags
from .terms import C, FALSE, NONE, TRUE, Obj, contains, is_c, is_int, lin_add, lin_of, lin_scale, mk_lin, show, subterms
from .wire import (Adv, RWIRE, call_of, count_of, data_slice, decoded, meth_of, norm_codec, reader_payload,
                   strip_buf, unwrap_num)

_cache = {}


class RRun:
    """A normally returning path of the reader of one tag."""

    def __init__(self, tag, path, ip):
        self.tag, self.path, self.ip = tag, path, ip
        self.toks = seq(path)
        self.recs = [t for t in self.toks if t.kind == "REC"]
        self.final = {}
        for t in self.recs:
            self.final[t.b] = t.a
        for t in self.toks:
            if t.kind == "REPLACE":
                self.final[t.a] = t.b
        self._lay = None

    @property
    def at(self):
        for t in self.toks:
            if t.func is not None:
                return t.loc()
        return f"reader of {self.tag}"

    def delegated(self):
        """The tag is handed to the next decode step."""
        return any(t.kind == "CALL" and t.a == ("sym", "next", "obj") for t in self.toks)

    def items(self):
        stored = set(self.final.values()) if all(_hashable(x) for x in self.final.values()) else set()
        out = []
        for t in self.toks:
            if t.kind == "TAG" and t.b == FALSE:
                continue
            if t.kind in ("CALL", "SETITEM"):
                tgt = t.a[1] if t.kind == "CALL" and isinstance(t.a, tuple) and t.a[0] == "attr" else t.a
                args = t.b[1] if isinstance(t.b, tuple) else ()
                if not (any(tgt == x for x in self.final.values()) and any(
                        isinstance(x, tuple) and x and x[0] == "sym" and str(x[1]).startswith("nest") for x in args)):
                    continue
            out.append(t)
        return tree(out, RWIRE)

    def layout(self):
        if self._lay is None:
            self._lay = full_env(reader_payload(self.tag), self.items(), self.path,
                                 errcls=self.ip.p.cls("SerializationErrorTag").qual)
        return self._lay


def _hashable(x):
    try:
        hash(x)
        return True
    except TypeError:
        return False


def reader_runs(p, rep, exc=False):
    key = ("runs", exc)
    if key not in _cache:
        _cache[key] = [(t, *decode_paths(p, t, exc=exc)) for t in serialization_tags(p)]
    out = []
    for tag, ps, ip in _cache[key]:
        rep.use(ps, ip)
        rep.ob("tags decoded")
        out.append((tag, ps, ip))
    return out


def returning(p, rep):
    if "ret" not in _cache:
        _cache["ret"] = None
    runs = []
    for tag, ps, ip in reader_runs(p, rep):
        for q in ps:
            if q.outcome == "return":
                runs.append(RRun(tag, q, ip))
    return runs


# -- C03: layout -----------------------------------------------------------------

def check_reader_layout(p, rep):
    rep.rule("every returning path of the reader of each tag takes exactly the fields of V8's grammar of that tag from "
             "the stream, and computes its result from those fields")
    seen = {}
    keytags, anytags = {}, {}
    for run in returning(p, rep):
        tag = run.tag
        if run.delegated():
            continue
        if tag not in V.OBJECT_TAGS | V.VALUE_TAGS or tag == "kArrayBufferView":
            rep.viol("layout", run.at, f"{tag} is decoded as a value")
            continue
        rep.ob("reader layouts")
        err, env = run.layout()
        if err:
            tok, why = err
            rep.viol("layout", tok.loc() if tok is not None and tok.func is not None else run.at, f"reading {tag}: {why}")
            continue
        seen.setdefault(tag, set())
        if env.get("isview"):
            seen[tag].add("view")
        for kind, names in env.get("entrytags", {}).items():
            keytags.setdefault((tag, kind), set()).update(names)
        if "strtags" in env:
            anytags.setdefault(tag, set()).update(env["strtags"])
        if "codec" in env and tag == "kStringObject":
            anytags.setdefault(tag, set()).add(env["codec"])
        why = value_of(run, env)
        if why:
            rep.viol("value", run.at, f"reading {tag}: {why}")
    for tag in sorted((V.OBJECT_TAGS | V.VALUE_TAGS) - {"kArrayBufferView"} - set(seen)):
        rep.viol("layout", "-", f"no path decodes {tag}")
    for tag in sorted(V.BUFFER_TAGS | {"kObjectReference"}):
        if tag in seen and "view" not in seen[tag]:
            rep.viol("layout", "-", f"a view that follows {tag} is not read")
    for (tag, kind), names in sorted(keytags.items()):
        want = V.KEY_TAGS if kind == "pkey" else V.OBJECT_TAGS | V.VALUE_TAGS - {"kArrayBufferView"}
        if kind != "pkey":
            want = want - {"kArrayBufferView"}
        miss = want - names
        if miss:
            rep.viol("layout", "-", f"reading {tag}: entries starting with {', '.join(sorted(miss))} are not accepted")
    for tag, names in sorted(anytags.items()):
        miss = V.STRING_TAGS - names
        if miss:
            rep.viol("layout", "-", f"reading {tag}: {', '.join(sorted(miss))} is not accepted as its string")
    rep.ob("tags with a reader", len(seen))
    rep.at_least("tags with a reader", 30)


def string_value(run, env, t):
    d = decoded(t)
    if d is None:
        return f"{show(t)} is not the decoded text"
    src, codec, err = d
    tag = env["codec"]
    if codec != norm_codec(C(V.CODECS[tag])):
        return f"{tag} data is {V.CODECS[tag]}, not {codec}"
    if err != C("strict") and not (is_c(err) and err[2] == "surrogatepass"):
        return f"text is decoded with the lossy error handler {show(err)}"
    return raw_value(run, env["strdata"], env["strlen"], src)


def raw_value(run, adv, n, src):
    sl = data_slice(src)
    if sl is None:
        return f"{show(src)} is not the data of the stream"
    a, b = sl
    if not (run.path.same(a, adv.pos) and run.path.same(b, lin_add(adv.pos, adv.n))):
        return f"the data used ({show(a)}:{show(b)}) is not the data consumed ({show(adv.pos)}:+{show(adv.n)})"
    if n is not None and not run.path.same(adv.n, n):
        return f"{show(adv.n)} bytes are consumed, the length field says {show(n)}"
    return None


def double_value(run, env, t):
    t = t if not (isinstance(t, tuple) and t[0] == "call" and t[1] == ("ext", "builtins.float")) else t[2][0]
    if isinstance(t, tuple) and t[0] == "idx" and t[2] == C(0):
        c = call_of(t[1], "struct.unpack_from")
        if c:
            a = list(c[0]) + [c[1][k] for k in ("buffer", "offset") if k in c[1]]
            if a[0] != C("<d"):
                return f"a double is little-endian ('<d'), not {show(a[0])}"
            off = a[2] if len(a) > 2 else C(0)
            if strip_buf(a[1]) == ("sym", "data", "bytes") and run.path.same(off, env["double"].pos):
                return None
            return f"the double is read at {show(off)}, but the bytes consumed are at {show(env['double'].pos)}"
        c = call_of(t[1], "struct.unpack")
        if c:
            if c[0][0] != C("<d"):
                return f"a double is little-endian ('<d'), not {show(c[0][0])}"
            return raw_value(run, env["double"], None, c[0][1])
    return f"{show(t)} is not the double read"


def bigint_value(run, env, t):
    """± int.from_bytes(digits, 'little'), negative iff the field is odd."""
    coefs, k = lin_of(t)
    f = env["bigfield"]
    if len(coefs) != 1 or k:
        return f"{show(t)} is not the integer of the digits read"
    (x, c), = coefs.items()
    m = meth_of(x, "from_bytes") or (call_of(x, "builtins.int.from_bytes") and (None,) + call_of(x, "builtins.int.from_bytes"))
    if not m:
        return f"{show(t)} is not the integer of the digits read"
    _, a, kw = m
    order = a[1] if len(a) > 1 else kw.get("byteorder", C("big"))
    if order != C("little"):
        return f"bigint digits are little-endian, not {show(order)}"
    if kw.get("signed", FALSE) != FALSE:
        return "bigint digits are the magnitude, not a signed encoding"
    src = a[0] if a else kw.get("bytes")
    why = raw_value(run, env["digits"], None, src)
    if why:
        return why
    n = env["digits"].n
    if not half_of(n, f, run):
        return f"the number of digits is {show(n)}; V8 stores it in bits 1 to 30 of the field"
    odd = parity(run, f)
    if odd is None:
        return "the sign of the bigint does not depend on the lowest bit of the field"
    if c != (-1 if odd else 1):
        return f"the bigint is {'not negated' if odd else 'negated'} although the sign bit is {'set' if odd else 'clear'}"
    return None


def parity(run, f):
    q = run.path.q
    if ("odd", f) in run.path.atoms:
        return run.path.atoms[("odd", f)]
    for term in (("op", "&", (f, C(1))), ("op", "%", (f, C(2))), ("op", "&", (C(1), f))):
        b = q.known_truth(term)
        if b is not None:
            return b
        v = q.value_of(term)
        if is_int(v):
            return bool(v[2])
        r1 = q.le0(term)
        if r1 is True:
            return False
        if q.le0(lin_add(C(1), term, -1)) is True:
            return True
    # engine's own form of f % 2
    half = ("op", ">>", (f, C(1)))
    rest = lin_add(f, lin_scale(half, 2), -1)
    b = q.known_truth(rest)
    if b is not None:
        return b
    if q.le0(rest) is True:
        return False
    if q.le0(lin_add(C(1), rest, -1)) is True:
        return True
    return None


def half_of(n, f, run):
    if n == ("op", ">>", (f, C(1))) or n == ("op", "//", (f, C(2))):
        return True
    half = ("op", ">>", (f, C(1)))
    if isinstance(n, tuple) and n[0] == "op" and n[1] == "&":
        a, b = n[2]
        for x, m in ((a, b), (b, a)):
            if x == half and is_int(m) and m[2] >= 2**30 - 1 and (m[2] & (m[2] + 1)) == 0:
                return True
    if isinstance(n, tuple) and n[0] == "op" and n[1] in (">>", "//"):
        x = n[2][0]
        if isinstance(x, tuple) and x[0] == "op" and x[1] == "&":
            for y, m in (x[2], x[2][::-1]):
                if y == f and is_int(m) and m[2] & (2**31 - 2) == 2**31 - 2:
                    return n[2][1] == (C(1) if n[1] == ">>" else C(2))
    if run.path.same(n, half):
        return True
    # (f - sign) / 2 with the sign known
    odd = parity(run, f)
    if odd is not None and run.path.same(lin_scale(n, 2), lin_add(f, C(1 if odd else 0), -1)):
        return True
    return False


def zigzag_value(run, v, t):
    half = ("op", ">>", (v, C(1)))
    if isinstance(t, tuple) and t[0] == "op" and t[1] == "^":
        s = ("op", "&", (v, C(1)))
        for a, b in (t[2], t[2][::-1]):
            if a == half and b == lin_scale(s, -1):
                return None
    odd = parity(run, v)
    if odd is None:
        return "the sign of the int32 does not depend on the lowest bit of the varint"
    want = lin_add(lin_scale(half, -1), C(-1)) if odd else half
    if run.path.same(t, want):
        return None
    fl = ("op", "//", (v, C(2)))
    want2 = lin_add(lin_scale(fl, -1), C(-1)) if odd else fl
    if run.path.same(t, want2):
        return None
    # 2*t + odd
    twice = lin_scale(t, 2)
    if run.path.same(twice, lin_add(lin_scale(v, -1), C(-1)) if odd else v):
        return None
    return f"{show(t)} is not the zigzag decoding of {show(v)} when it is {'odd' if odd else 'even'}"


def is_enum(t, cls, name):
    return isinstance(t, tuple) and len(t) == 3 and t[0] == "enum" and t[2] == name and (cls is None or t[1].endswith(cls))


def field(o, name):
    return o.fields.get(name) if isinstance(o, Obj) else None


def primitive(run, v):
    """The value inside a primitive wrapper object, or the value itself."""
    if isinstance(v, Obj) and v.cls is not None and v.cls.name == "JSPrimitiveObject":
        return v.fields.get("value")
    return v


def value_of(run, env):
    """None if the returned value is the one the fields describe."""
    tag, v, path = run.tag, run.path.value, run.path
    q = path.q
    if tag == "kTheHole":
        return None if is_enum(v, None, "JSHole") else f"{show(v)} is returned for a hole"
    if tag == "kUndefined":
        return None if is_enum(v, None, "JSUndefined") else f"{show(v)} is returned for undefined"
    if tag == "kNull":
        return None if v == NONE else f"{show(v)} is returned for null"
    if tag in ("kTrue", "kFalse"):
        return None if v == C(tag == "kTrue") else f"{show(v)} is returned for {tag}"
    if tag in ("kTrueObject", "kFalseObject"):
        return None if primitive(run, v) == C(tag == "kTrueObject") else f"{show(v)} is returned for {tag}"
    if tag == "kInt32":
        if not (path.le(v, C(2**31 - 1)) and path.le(C(-2**31), v)) and not path.le(env["int"], C(2**32 - 1)):
            return f"{show(v)} is returned, which is not limited to -2**31 … 2**31 - 1"
        return zigzag_value(run, env["int"], v)
    if tag == "kUint32":
        if not path.le(v, C(2**32 - 1)):
            return f"{show(v)} is returned, which is not limited to 0 … 2**32 - 1"
        return None if path.same(v, env["int"]) else f"{show(v)} is returned instead of the varint read"
    if tag == "kDouble":
        return double_value(run, env, v)
    if tag == "kNumberObject":
        return double_value(run, env, primitive(run, v))
    if tag == "kBigInt":
        return bigint_value(run, env, v)
    if tag == "kBigIntObject":
        return bigint_value(run, env, primitive(run, v))
    if tag in V.STRING_TAGS:
        return string_value(run, env, v)
    if tag == "kStringObject":
        x = primitive(run, v)
        return string_value(run, env, x) if "codec" in env else (
            None if x == env["text"] else f"{show(x)} is returned instead of the string read")
    if tag == "kDate":
        c = call_of(v, "datetime.datetime.fromtimestamp")
        if not c:
            return f"a date is datetime.fromtimestamp() of its milliseconds, not {show(v)}"
        a, kw = c
        t = a[0]
        tz = a[1] if len(a) > 1 else kw.get("tz", NONE)
        ms = None
        if isinstance(t, tuple) and t[0] == "op" and t[1] == "/" and is_c(t[2][1]) and t[2][1][2] == 1000:
            ms = t[2][0]
        if isinstance(t, tuple) and t[0] == "op" and t[1] == "*" and C(0.001) in t[2]:
            ms = t[2][0] if t[2][1] == C(0.001) else t[2][1]
        if ms is None:
            return f"a date's milliseconds are divided by 1000, not {show(t)}"
        if not contains(("x", tz), ("sym", "default_timezone", "opt")):
            return f"the date does not use the timezone configured ({show(tz)})"
        return double_value(run, env, ms)
    if tag == "kObjectReference":
        if env.get("isview"):
            return view_value(run, env, [t.b for t in run.toks if t.kind == "GETREF"])
        ids = {t.a: t.b for t in run.toks if t.kind == "GETREF"}
        if ids.get(env["refid"]) != v:
            return f"{show(v)} is returned instead of the object with the id read"
        return no_view(run, env)
    if tag == "kRegExp":
        if not isinstance(v, Obj):
            return None
        src = v.fields.get("source")
        if "codec" in env:
            why = string_value(run, env, src)
            if why:
                return why
        elif src != env["text"] and not (src == C("(?:)") and (q.value_of(env["text"]) == C("") or is_empty(q, env["text"]))):
            return f"{show(src)} is the source instead of the string read"
        fl = v.fields.get("flags")
        c = fl
        while isinstance(c, tuple) and c[0] == "call" and c[1][0] in ("cls", "ext") and len(c[2]) == 1:
            c = c[2][0]
        m = masked(c, env["flags"])
        if m is not None and m & REGEXP_BITS != REGEXP_BITS:
            return f"only the flags in {m:#x} are kept of those read"
        if not contains(("x", fl), env["flags"]):
            # flags computed from those read
            return f"{show(v.fields.get('flags'))} are the flags instead of those read"
        return None
    if tag in V.BUFFER_TAGS:
        b = run.recs[0].a if run.recs else v
        why = buffer_value(run, env, b)
        if why:
            return why
        if env.get("isview"):
            return view_value(run, env, [b])
        if not same(v, b):
            return f"{show(v)} is returned instead of the buffer read"
        return no_view(run, env)
    if tag == "kSharedObject":
        f = list(v.fields.values()) if isinstance(v, Obj) else [v]
        return None if any(contains(("x", x), env["sharedid"]) for x in f) else f"{show(v)} does not hold the id read"
    if tag in ("kBeginJSMap", "kBeginJSSet", "kBeginJSObject", "kBeginDenseJSArray", "kBeginSparseJSArray"):
        return container_value(run, env)
    if tag == "kError":
        return error_value(run, env)
    return None


REGEXP_BITS = 0x1ff


def masked(t, x):
    """m if the term is x & m."""
    if isinstance(t, tuple) and t[:2] == ("op", "&") and x in t[2]:
        for y in t[2]:
            if is_int(y):
                return y[2]
    return None


ERROR_TAILS = ((), ("Stack",), ("Cause",), ("Stack", "Cause"), ("Cause", "Stack"))


def check_error_fields(p, rep):
    rep.rule("errors are read with every combination of fields V8 writes, in the current and in the former order, whatever "
             "the values of the fields are")
    groups = {}
    for run in returning(p, rep):
        if run.tag != "kError" or run.delegated():
            continue
        err, env = run.layout()
        if not err:
            groups.setdefault(tuple(x for x in env.get("fields", ()) if x != "End"), []).append((run, env))
    for proto in (False, True):
        for message in (False, True):
            for tail in ERROR_TAILS:
                key = ("proto",) * proto + ("Message",) * message + tail
                rep.ob("combinations of error fields")
                g = groups.get(key, [])
                at = "TagReader.decode(kError)" if not g else g[0][0].at
                what = ", ".join(key) or "none"
                if not g:
                    rep.viol("error-fields", at, f"errors whose fields are {what} are not read")
                    continue
                if proto:
                    got = set().union(*(env["proto"] or () for _, env in g))
                    rep.require(got >= {n for n in V.ERROR_TAGS if n.endswith("Prototype")}, "error-fields", at, f"errors whose fields are {what} are not read for every prototype")
                if "Cause" in tail:
                    none, facts = set(), {}
                    for run, env in g:
                        q, c = run.path.q, env.get("cause")
                        if c is None:
                            continue
                        d = q.dom(c)
                        if d is not None and set(d) == {NONE} or q.value_of(c) == NONE:
                            none.add(True)
                        elif NONE in run.path.excl.get(c, ()):
                            none.add(False)
                        else:
                            none |= {True, False}
                        for a, t in q.atoms.items():
                            if isinstance(a, tuple) and contains(a, c):
                                facts.setdefault(_anon(a, c), []).append(t)
                    rep.require(len(none) != 1, "error-fields", at,
                                f"errors whose fields are {what} are read only if the cause is {'' if none == {True} else 'not '}None")
                    for a, ts in facts.items():
                        rep.require(len(ts) < len(g) or len(set(ts)) > 1, "error-fields", at,
                                    f"errors whose fields are {what} are read only if {show(a)} is {ts[0]}")
    rep.at_least("combinations of error fields", 20)


def _anon(t, c):
    if t is c or t == c:
        return ("sym", "cause", "obj")
    return tuple(_anon(x, c) for x in t) if isinstance(t, tuple) else t


def same(a, b):
    return a is b or a == b


def no_view(run, env):
    pk = env.get("peek")
    q = run.path.q
    if pk is None:
        # only objects that are not buffers may be returned without looking for a view
        if run.tag == "kObjectReference":
            v = run.path.value
            yes, no = q.types.get(v, (set(), set()))
            if isinstance(v, tuple) and not yes:
                for n in ("JSArrayBuffer", "JSSharedArrayBuffer", "JSArrayBufferTransfer"):
                    c = run.ip.p.cls(n)
                    if not no & {getattr(m, "qual", m) for m in run.ip.p.mro(c)}:
                        return f"it is not checked whether a view follows a reference to a {n}"
            return None
        return "it is not checked whether a view of the buffer follows"
    d = q.dom(pk)
    if d is not None and any(is_enum(x, None, "kArrayBufferView") for x in d):
        if not any(is_enum(x, None, "kArrayBufferView") for x in run.path.excl.get(pk, ())):
            if run.tag == "kObjectReference":
                return None  # the referenced object is not a buffer
            return "a view that follows the buffer may be left unread"
    return None


def buffer_value(run, env, b):
    if not isinstance(b, Obj):
        # an opaque constructor: the data must be among its arguments
        args = list(subterms(b))
        if "bytes" in env and not any(data_slice(x) for x in args if isinstance(x, tuple)):
            return f"{show(b)} does not hold the data read"
        return None
    name = b.cls.name if b.cls is not None else "?"
    if run.tag in ("kArrayBuffer", "kResizableArrayBuffer"):
        data = [x for x in b.fields.values() if isinstance(x, tuple) and data_slice(x)]
        if not data:
            return f"the buffer ({name}) does not hold the data read"
        why = raw_value(run, env["bytes"], env["blen"], data[0])
        if why:
            return why
        res = b.fields.get("resizable")
        if res != C(run.tag == "kResizableArrayBuffer"):
            return f"the buffer is {'not ' if run.tag == 'kResizableArrayBuffer' else ''}resizable"
        if run.tag == "kResizableArrayBuffer":
            if not run.path.same(b.fields.get("max_byte_length"), env["max"]):
                return f"the maximum length is {show(b.fields.get('max_byte_length'))} instead of the one read"
            if not run.path.le(env["blen"], env["max"]):
                return "a maximum length below the length is accepted"
        return None
    idf = env["bufid"]
    if not any(x == idf for x in b.fields.values()):
        return "the buffer does not hold the id read"
    want = "JSSharedArrayBuffer" if run.tag == "kSharedArrayBuffer" else "JSArrayBufferTransfer"
    if name != want:
        return f"a {name} is returned for {run.tag}"
    return None


def view_value(run, env, bufs):
    v, path = run.path.value, run.path
    q = path.q
    ver = ("sym", "version", "nat")
    if "vflags" in env:
        if q.le0(lin_add(C(V.VIEW_FLAGS_SINCE), ver, -1)) is not True:
            return f"view flags are read for versions before {V.VIEW_FLAGS_SINCE}"
    elif q.le0(lin_add(ver, C(V.VIEW_FLAGS_SINCE - 1), -1)) is not True:
        return f"view flags are not read for versions from {V.VIEW_FLAGS_SINCE} on"
    if isinstance(v, Obj):
        parts = dict(v.fields)
        vals = list(v.fields.values())
        off = v.fields.get("byte_offset")
        ln = v.fields.get("byte_length", v.fields.get("_byte_length"))
    elif isinstance(v, tuple) and v[0] == "call":
        kw = dict(v[3])
        vals = list(v[2]) + list(kw.values())
        off, ln = kw.get("byte_offset"), kw.get("byte_length", "absent")
        if off is None and len(v[2]) > 1:
            off = v[2][1]
        if ln == "absent":
            ln = v[2][2] if len(v[2]) > 2 else NONE
    else:
        return f"{show(v)} is not a view"
    if not any(same(x, b) for x in vals for b in bufs):
        return "the view is not of the buffer it follows"
    if not contains(("x", v), env["vtag"]) and not isinstance(v, Obj):
        return "the type of the view does not depend on the view tag read"
    if off is None or not path.same(off, env["voff"]):
        return f"the view's offset is {show(off)} instead of the one read"
    track = None
    if "vflags" in env:
        track = q.flag_mask_truth(env["vflags"], V.VIEW_FLAGS["IsLengthTracking"]) if hasattr(q, "flag_mask_truth") else None
        track = flag_truth(run, env["vflags"], "IsLengthTracking")
    else:
        track = False
    if track is None:
        return "the length of the view does not depend on the length-tracking flag"
    if track and ln != NONE:
        return f"a length-tracking view gets the length {show(ln)}"
    if not track and not (ln != NONE and path.same(ln, env["vlen"])):
        return f"the view's length is {show(ln)} instead of the one read"
    return None


def flag_truth(run, word, name):
    """Whether a flag bit of a varint is set on this path."""
    for k, b in run.path.atoms.items():
        if k[0] in ("in", "flag", "bit", "truthy", "le0", "eq0") and contains(("x",) + tuple(k), word):
            r = _flag_atom(k, word, name)
            if r is not None:
                return b == r
    return None


def _flag_atom(k, word, name):
    bit = V.VIEW_FLAGS[name]
    txt = [x for x in subterms(("x",) + tuple(k))]
    for x in txt:
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "flag" and is_int(C(x[2])) and x[2] == bit:
            return True
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "enum" and x[2] == name:
            return True
        if isinstance(x, tuple) and len(x) == 3 and x[0] == "op" and x[1] == "&" and C(bit) in x[2]:
            return True
    return None


def container_value(run, env):
    v = run.path.value
    if not run.recs or not same(run.final[run.recs[0].b], v):
        return None  # reported by the reference rule
    for kind, t in env.get("emit", ()):
        if t.kind == "YIELD":
            cons = [x for x in run.toks if x.kind == "CONSUME"]
            ok = False
            for c in cons:
                f = c.a
                if isinstance(f, tuple) and f[0] == "attr" and same(f[1], v) and f[2] in (
                        "update", "__ior__", "extend", "__init__", "__iadd__"):
                    ok = True
            if not ok:
                return "the entries read are not stored in the object returned"
        elif t.kind == "CALL":
            f = t.a
            if not (f[2] in ("add", "append", "__setitem__", "set", "setdefault")):
                return f"the entries read are stored with {f[2]}()"
    if run.tag == "kBeginDenseJSArray":
        for kind, t in env.get("emit", ()):
            if kind == "elem":
                why = dense_index(run, env, t)
                if why:
                    return why
    if run.tag == "kBeginSparseJSArray":
        n = env["len"]
        if not run.path.le(n, C(0)):
            sets = [i for i, t in enumerate(run.toks) if sets_length(run, t, v, n)]
            if not sets:
                return "the array does not get the length read"
            stored = [i for i, t in enumerate(run.toks) if t.kind == "CONSUME" or any(
                t is e for kind, e in env.get("emit", ()) if e.kind in ("CALL", "SETITEM"))]
            if run.toks[sets[-1]].kind == "SETITEM" and stored and sets[-1] > stored[0]:
                return "the array gets its length by writing a hole over its last element"
    return None


def sets_length(run, t, v, n):
    if t.kind == "SETITEM" and same(t.a, v) and run.path.same(t.b[1][0], lin_add(n, C(-1))):
        return is_enum(t.b[1][1], None, "JSHole")
    if t.kind == "CALL" and isinstance(t.a, tuple) and t.a[0] == "attr" and t.a[2] == "resize":
        return any(run.path.same(x, n) for x in t.b[1] if isinstance(x, tuple))
    return False


def loop_of(run, tok):
    cur = []
    for t in run.toks:
        if t.kind == "LOOP":
            cur.append(t)
        elif t.kind == "ENDLOOP":
            if cur:
                cur.pop()
        elif t is tok:
            return cur[-1].facts if cur else None
    return None


def dense_index(run, env, t):
    got = t.a[1] if t.kind == "YIELD" else t.b[1]
    key = loop_of(run, t)
    lp = run.path.loops.get(key)
    if lp is None:
        return "elements are not read in a loop"
    n = env["len"]
    it = lp.get("iter")
    c = call_of(it, "builtins.range") if it is not None else None
    if len(got) == 1:
        return None if c and run.path.same(trips(c), n) else "the number of elements read is not the array's length"
    i = got[0]
    if c:
        if trips(c) is None or not run.path.same(trips(c), n):
            return f"{show(it)} is iterated instead of the array's length"
        if isinstance(i, tuple) and i[0] == "sym" and len(i) == 4 and i[3] == key or i == ("elem", it, key):
            return None
        if counts_up(run, lp, key, i):
            return None
        return f"elements get the index {show(i)}"
    if counts_up(run, lp, key, i):
        out = ("lv", key, i[2], "out")
        if run.path.same(out, n) or run.path.q.le0(lin_add(n, out, -1)) is True or run.path.q.eq0(lin_add(n, out, -1)) is True:
            return None
        return "the number of elements read is not the array's length"
    return f"elements get the index {show(i)}"


def trips(c):
    a = c[0]
    if len(a) == 1:
        return a[0]
    if len(a) >= 2 and a[0] == C(0) and (len(a) == 2 or a[2] == C(1)):
        return a[1]
    return None


def counts_up(run, lp, key, i):
    """i is a loop variable that starts at 0 and is incremented once per iteration."""
    if not (isinstance(i, tuple) and i[0] == "lv" and i[1] == key):
        return False
    c = count_of(run.path, ("lv", key, i[2], "out"))
    return c is not None and c[0] == 0 and c[1] == {key: 1} and not c[2]


def error_value(run, env):
    """The fields of the error are those read."""
    last = {}
    for t in run.toks:
        if t.kind == "SETATTR" and isinstance(t.a, tuple) and t.a[0] == "attr":
            last.setdefault(t.a[2], []).append(t.b)
    def final(n):
        return last.get(n, [NONE])[-1]
    for n in ("message", "stack", "cause"):
        want = env.get(n)
        got = final(n)
        if want is None and got != NONE:
            return f"{n} is set to {show(got)} although none was read"
        if want is not None and not same(got, want):
            return f"{n} is {show(got)} instead of the one read"
    nm = final("name")
    names = {x[2] for x in (run.path.q.dom(nm) or ()) if isinstance(x, tuple) and x[0] == "enum"} if not (
        isinstance(nm, tuple) and nm[0] == "enum") else {nm[2]}
    js = {}
    info = run.ip.enum_info(run.ip.p.cls("JSErrorName"))
    for k, r in info.items():
        js[k] = r
    if env.get("proto"):
        want = {t[:-len("Prototype")] for t in env["proto"]}
        if names and not names <= want | {w.replace("Uri", "URI") for w in want}:
            return f"the error's name is {', '.join(sorted(names))} after reading {', '.join(sorted(env['proto']))}"
        if len(env["proto"]) > 1 and not contains(("x", nm), env["etag"]) and not names:
            pass
    elif names and names != {"Error"}:
        return f"the error's name is {', '.join(sorted(names))} although no prototype was read"
    return None


# -- C01 / C02 -----------------------------------------------------------------------

def check_reader_numbering(p, rep):
    rep.rule("reading an object tag records exactly one object id, before anything nested is read (an error: before "
             "its cause; a buffer with a view: buffer first, then the view); reading any other tag records none")
    n = 0
    for run in returning(p, rep):
        if run.delegated():
            continue
        n += 1
        isview = any(t.kind == "TAG" and t.b != FALSE and tagnames(t, run.path) == {"kArrayBufferView"} for t in run.toks)
        want = (1 if run.tag in V.OBJECT_TAGS else 0) + (1 if isview else 0)
        if len(run.recs) != want:
            at = run.recs[-1].loc() if len(run.recs) > want else run.at
            rep.viol("numbering", at, f"reading {run.tag}{' and its view' if isview else ''} records {len(run.recs)} object "
                     f"ids; V8 assigns {want}")
            continue
        depth = 0
        for t in run.toks:
            if t.kind == "LOOP":
                depth += 1
            elif t.kind == "ENDLOOP":
                depth -= 1
            elif t.kind == "REC" and depth:
                rep.viol("numbering", t.loc(), f"reading {run.tag}: the object id is recorded inside a loop")
        if not run.recs:
            continue
        first = run.recs[0]
        if run.tag in V.OBJECT_TAGS:
            for t in run.toks:
                if t is first:
                    break
                if t.kind == "NEST" and not string_nest(t, run):
                    rep.viol("numbering", t.loc(), f"reading {run.tag}: a nested object is read before the object's own id is recorded")
        if isview:
            tags = [t for t in run.toks if t.kind == "TAG"]
            pos = {id(t): i for i, t in enumerate(run.toks)}
            vt = next(t for t in tags if tagnames(t, run.path) == {"kArrayBufferView"})
            if run.tag in V.OBJECT_TAGS and pos[id(first)] > pos[id(vt)]:
                rep.viol("numbering", first.loc(), f"reading {run.tag}: the view is read before the buffer's id is recorded")
    rep.ob("reader numbering paths", n)
    rep.at_least("reader numbering paths", 60)


def string_nest(t, run):
    if t.a is None:
        return False
    q = run.path.q
    a = q.value_of(t.a)
    d = {a} if isinstance(a, tuple) and a[0] == "enum" else (q.dom(a) or run.path.doms.get(a) or ())
    names = {x[2] for x in d if isinstance(x, tuple) and x[0] == "enum"}
    return bool(names) and names <= V.STRING_TAGS | {"kStringObject"}


def check_reader_references(p, rep):
    rep.rule("the object recorded under an id is the very object that decoding the tag returns")
    n = 0
    for run in returning(p, rep):
        if run.delegated() or not run.recs:
            continue
        n += 1
        last = run.final[run.recs[-1].b]
        v = run.path.value
        if not same(last, v):
            rep.viol("references", run.recs[-1].loc(),
                     f"reading {run.tag}: {show(last)} is recorded, but {show(v)} is returned")
        ids = {t.b for t in run.recs}
        for t in run.toks:
            if t.kind == "REPLACE" and t.a not in ids:
                rep.viol("references", t.loc(), f"reading {run.tag}: an id it did not record is replaced")
        for r in run.recs[:-1]:
            b = run.final[r.b]
            if not contains(("x", v), b) and not (isinstance(v, Obj) and any(same(x, b) for x in v.fields.values())):
                rep.viol("references", r.loc(), f"reading {run.tag}: the buffer recorded is not the view's buffer")
    rep.ob("recorded objects", n)
    rep.at_least("recorded objects", 50)


# -- C10 -------------------------------------------------------------------------------

def check_reader_counts(p, rep):
    rep.rule("a path that returns a collection has verified that the count in the stream equals the number of entries "
             "read, and that both lengths of an array agree")
    n = 0
    for run in returning(p, rep):
        if run.tag not in ("kBeginJSMap", "kBeginJSSet", "kBeginJSObject", "kBeginDenseJSArray", "kBeginSparseJSArray"):
            continue
        err, env = run.layout()
        if err:
            continue
        n += 1
        emits = {}
        for kind, t in env.get("emit", ()):
            emits.setdefault(kind, set()).add(loop_of(run, t))
        name = "count2" if "count2" in env else "count1" if "count1" in env else "count"
        unit = 2 if name == "count2" else 1
        kind = {"count2": "pair", "count1": "set", "count": "pkey"}[name]
        keys = {k for k in emits.get(kind, ())}
        if not counts_agree(run, env[name], {k: unit for k in keys}):
            rep.viol("counts", run.at, f"reading {run.tag}: the count read ({show(env[name])}) is not verified against the number of entries read")
        if "len2" in env and not run.path.same(env["len"], env["len2"]):
            rep.viol("counts", run.at, f"reading {run.tag}: the two lengths are not verified to be equal")
    rep.ob("verified collections", n)
    rep.at_least("verified collections", 10)


def counts_agree(run, v, want):
    path = run.path
    if not want and path.same(v, C(0)):
        return True
    for k, b in list(path.atoms.items()):
        if k[0] != "eq0" or b is not True:
            continue
        coefs = dict(k[1])
        if v not in coefs or coefs[v] not in (1, -1):
            continue
        s = coefs.pop(v)
        other = ("lin", tuple(sorted(((x, -s * c) for x, c in coefs.items()), key=lambda kv: repr(kv[0]))), -s * k[2]) \
            if coefs else C(-s * k[2])
        if coefs and len(coefs) == 1 and k[2] == 0:
            (x, c), = coefs.items()
            if -s * c == 1:
                other = x
        c = count_of(path, other)
        if c is not None and c[0] == 0 and {a: d for a, d in c[1].items() if d} == want and not c[2]:
            return True
    for lk, lp in path.loops.items():
        pass
    # the counter itself
    for lk in path.loops:
        for key in path.loops[lk]["end"]:
            if len(key) == 2:
                t = ("lv", lk, f"{key[1]}@{key[0]}", "out")
                if path.same(v, t):
                    c = count_of(path, t)
                    if c is not None and c[0] == 0 and c[1] == want:
                        return True
    return False


# -- C05: nothing V8 writes is refused --------------------------------------------

U32 = 2**32 - 1


def check_reader_refusals(p, rep):
    rep.rule("a reader refuses a number it has read only for being outside 32 bits, disagreeing with another one, or reaching beyond "
             "the input: never a value that V8 can have written")
    for tag, ps, ip in reader_runs(p, rep):
        if tag not in V.OBJECT_TAGS | V.VALUE_TAGS or tag in ("kRegExp", "kError", "kArrayBufferView"):
            continue
        for q in ps:
            if q.outcome != "raise" or any(e.kind == "raised" for e in q.events):
                continue
            run = RRun(tag, q, ip)
            if not run.toks or run.toks[-1].kind != "THROW":
                continue
            wire = [t for t in run.toks if t.kind in ("VARINT", "RAW", "NEST", "TAG", "PEEK", "CAP", "DOUBLE")]
            if not wire or wire[-1].kind != "VARINT":
                continue
            why = _refused(run, wire)
            if why is not None:
                rep.ob("refusals decided")
                if why:
                    rep.viol("refused", run.toks[-1].loc(), f"reading {tag}: {why}")
    rep.at_least("refusals decided", 5)


def _about(t, v):
    return any(x == v for x in subterms(t)) if isinstance(t, tuple) else False


def _refused(run, wire):
    """'' when the refusal is justified, a reason when it is not, None when it is not understood."""
    q = run.path
    nums = [t.a for t in wire if t.kind == "VARINT"]
    v = nums[-1]
    if any(q.le(C(U32 + 1), x) for x in nums):
        return ""
    rel = [a for a in q.atoms if isinstance(a, tuple) and any(_about(a, x) for x in (nums if run.tag in V.BUFFER_TAGS else [v]))]
    if run.tag.startswith("kBegin") and any(a[0] == "eq0" for a in rel):
        return ""  # not the number of entries, or not the length, found
    if any(a[0] not in ("le0", "eq0") for a in rel) or v in q.doms and not all(is_c(x) for x in q.doms[v]) or v in q.excl and any(not is_c(x) or x[2] is not None for x in q.excl[v]):
        return None
    others = [a for a in rel if any(len(_parts(a)) > 1 or x is None for x in _parts(a))]
    if not others:
        if not rel and v not in q.doms:
            return None
        return f"{show(v)} is refused although it is a number of 32 bits and agrees with everything else"
    if run.tag in V.BUFFER_TAGS and len(wire) == len(nums) and len(nums) <= 2 and all(a[0] == "le0" for a in others):
        for a in others:
            sign = next((c for x, c in a[1] if isinstance(x, tuple) and x[0] == "len"), 0)
            if sign:
                room = lin_scale(mk_lin(dict(a[1]), 0), 1 if sign > 0 else -1)
                if q.le(room, C(-1)):
                    return ""
                if not q.le(C(0), room):
                    return "a buffer that ends where the input ends can be refused"
        if len(nums) == 1:
            return "a buffer that fits the input can be refused"
        if len(nums) == 2:
            return "" if q.le(lin_add(nums[1], C(1)), nums[0]) else \
                "a buffer whose length is not above its maximum length can be refused"
    return None


def _parts(a):
    return [x for x, _ in a[1]] if isinstance(a[1], tuple) and all(isinstance(y, tuple) and len(y) == 2 for y in a[1]) else [None]


# -- C27: references ------------------------------------------------------------

def check_reference_reports(p, rep):
    rep.rule("a reference to an object that was not read is reported as a decoding error")
    base = p.cls("DecodeV8SerializeError")
    for number in (1, 2, U32):
        def call(ip, f, args, kw, node, frame):
            return C(number) if isinstance(f, tuple) and f[0] == "fn" and f[1].endswith(".read_varint") else NotImplemented
        ps, ip = script(p, "s = ReadableTagStream(data)\ns.objects.record_reference(a)\nreturn s.read_object_reference()",
                        {"data": ("sym", "data", "bytes"), "a": ("sym", "a", "obj")}, FnConfig(call=call), "v8serialize.decode")
        rep.use(ps, ip)
        for q in ps:
            rep.ob("references refused")
            if q.outcome == "return":
                rep.viol("reference-report", "read_object_reference", f"reference {number} is resolved when one object was read")
                continue
            c = next((x for x in p.classes.values() if x.name == q.exc_name()), None)
            rep.require(c is not None and base in p.mro(c), "reference-report", "read_object_reference",
                        f"a reference to an object that was not read raises {q.exc_name()}")
    rep.at_least("references refused", 3)
