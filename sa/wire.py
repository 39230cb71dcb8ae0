"""What abstract writer and reader paths mean on the wire: grammars and payload forms."""

from __future__ import annotations

import codecs

from . import v8spec as V
from .grammar import ALT, K, OPT, S, STAR, T, Loop, full, tagnames, tree
from .reader import Tok, seq
from .terms import C, FALSE, NONE, TRUE, Obj, is_c, is_int, lin_add, lin_of, lin_scale, show, subterms

WIRE = {"TAG", "VARINT", "PUT", "BYTES", "INS", "MUT", "NEST", "NEXT"}
REFS = {"REC", "REPLACE", "NEST", "NEXT", "GETID", "GETREF"}


# -- term helpers --------------------------------------------------------------

def call_of(t, name):
    """args, kwargs of a call term of the external function called name."""
    if isinstance(t, tuple) and t and t[0] == "call" and t[1] == ("ext", name):
        return t[2], dict(t[3])
    return None


def meth_of(t, name):
    """receiver, args, kwargs of a method call term."""
    if isinstance(t, tuple) and t and t[0] == "call" and isinstance(t[1], tuple) and t[1][0] == "attr" and t[1][2] == name:
        return t[1][1], t[2], dict(t[3])
    return None


def unwrap_num(t):
    while True:
        for n in ("builtins.float", "builtins.int"):
            c = call_of(t, n)
            if c and len(c[0]) == 1:
                t = c[0][0]
                break
        else:
            return t


def unwrap_double(t, q, known=()):
    """float(x) is the double x; int(x) is only known to be for an int x."""
    while True:
        c = call_of(t, "builtins.float")
        if not (c and len(c[0]) == 1):
            c = call_of(t, "builtins.int")
            if not (c and len(c[0]) == 1 and (c[0][0] in known or {"int", "bool"} & set(q.types.get(c[0][0], ((), ()))[0]) or
                                              any(q.atoms.get(("isinstance", c[0][0], ("cls", n))) is True for n in ("int", "bool")))):
                return t
        t = c[0][0]


def unwrap_iter(t):
    """Iterables with the same items in the same order."""
    while True:
        for n in ("builtins.list", "builtins.tuple", "builtins.iter"):
            c = call_of(t, n)
            if c and len(c[0]) == 1:
                t = c[0][0]
                break
        else:
            return t


def norm_codec(t):
    if is_c(t) and t[1] == "str":
        try:
            return codecs.lookup(t[2]).name
        except LookupError:
            return None
    return None


def encoded(t):
    """(text, codec, errors) if t is an encoding of a str."""
    if is_c(t) and t[1] == "bytes" and all(c < 128 for c in t[2]):
        return C(t[2].decode("ascii")), None if not t[2] else "ascii", None
    m = meth_of(t, "encode")
    if m:
        rec, a, kw = m
        codec = a[0] if a else kw.get("encoding", C("utf-8"))
        err = a[1] if len(a) > 1 else kw.get("errors", C("strict"))
        return rec, norm_codec(codec), err
    for n in ("builtins.bytes", "builtins.bytearray", "codecs.encode"):
        c = call_of(t, n)
        if c and (len(c[0]) > 1 or "encoding" in c[1]):
            a, kw = c
            codec = a[1] if len(a) > 1 else kw["encoding"]
            err = a[2] if len(a) > 2 else kw.get("errors", C("strict"))
            return a[0], norm_codec(codec), err
    return None


def packed(t):
    """(format, value) if t is struct.pack(format, value)."""
    c = call_of(t, "struct.pack")
    if c and len(c[0]) == 2 and is_c(c[0][0]):
        return c[0][0][2], c[0][1]
    return None


def to_bytes(t):
    """(integer, length, byteorder, signed)"""
    m = meth_of(t, "to_bytes")
    if not m:
        return None
    rec, a, kw = m
    length = a[0] if a else kw.get("length", C(1))
    order = a[1] if len(a) > 1 else kw.get("byteorder", C("big"))
    return rec, length, order, kw.get("signed", FALSE)


def lin_parts(t):
    coefs, k = lin_of(t)
    return coefs, k


# -- writer payload predicates (functions of token, match) ---------------------

def p_double(t, m):
    p = packed(t.a)
    if p is None:
        return f"a double is written as 8 bytes of struct.pack('<d', …), not {show(t.a)}"
    if p[0] != "<d":
        return f"a double is written little-endian ('<d'), not {p[0]!r}"
    m.env["double"] = p[1]
    return True


def p_strlen(t, m):
    m.env["strlen"] = t.a
    return True


def p_strdata(tagname):
    want = V.CODECS[tagname]

    def f(t, m):
        e = encoded(t.a)
        if e is None:
            return f"not the encoded text of a string: {show(t.a)}"
        text, codec, err = e
        if codec == "ascii" and is_c(t.a) and tagname != "kTwoByteString":
            codec = None
        if codec is not None and codec != codecs.lookup(want).name:
            return f"{tagname} data is {want}, not {codec}"
        if err is not None and not (is_c(err) and err[2] in (("strict", "surrogatepass") if want.startswith("utf-16") else ("strict",))):
            return f"text is encoded with the lossy error handler {show(err)}"
        n = m.env.get("strlen")
        ok = m.path.same(n, ("len", t.a)) or (is_c(t.a) and n == C(len(t.a[2])))
        if not ok and tagname == "kOneByteString":
            ok = m.path.same(n, ("len", text))
        if not ok:
            return f"the length written ({show(n)}) is not the length of the data that follows ({show(t.a)})"
        m.env["text"] = text
        return True
    return f


def string_payload(tag):
    return S(K("VARINT", p_strlen, "string length"), K("BYTES", p_strdata(tag), "string data"))


def p_pad(t, m):
    if not (isinstance(t.b, tuple) and (t.b == C(0) or (t.b[0] == "enum" and t.b[2] == "kPadding"))):
        return f"only padding bytes may be inserted, not {show(t.b)}"
    m.env["pad"] = t
    return True


def twobyte_payload():
    return S(K("VARINT", p_strlen, "string length"), OPT(K("INS", p_pad, "padding")),
             K("BYTES", p_strdata("kTwoByteString"), "string data"))


def tagged_string():
    return ALT(S(T("kUtf8String"), string_payload("kUtf8String")),
               S(T("kOneByteString"), string_payload("kOneByteString")),
               S(T("kTwoByteString"), twobyte_payload()))


def p_bigint_len(t, m):
    m.env["bigfield"] = t.a
    return True


def p_bigint_data(t, m):
    b = to_bytes(t.a)
    if b is None:
        return f"a bigint is written as the bytes of its magnitude, not {show(t.a)}"
    x, length, order, signed = b
    if order != C("little"):
        return f"bigint digits are little-endian, not {show(order)}"
    if signed != FALSE:
        return "bigint digits are the magnitude, not a signed encoding"
    field = m.env["bigfield"]
    rest = lin_add(field, lin_scale(length, 2), -1)
    path = m.path
    if rest == C(0):
        neg = False
    elif rest == C(1):
        neg = True
    else:
        return f"the length field ({show(field)}) is not 2*length + sign for the {show(length)} bytes written"
    # x is the magnitude: non-negative on this path, and the sign agrees
    value = lin_scale(x, -1) if neg else x
    if neg:
        if path.q.le0(lin_add(value, C(1))) is not True:
            return f"sign bit is set although {show(value)} is not known to be negative here"
    elif path.q.le0(lin_scale(value, -1)) is not True:
        return f"sign bit is not set although {show(value)} may be negative here"
    if not wide_enough(length, value, x):
        return f"{show(length)} bytes are not always enough for the digits of {show(value)}"
    m.env["bigint"] = value
    return True


def wide_enough(length, value, x):
    """8*length >= value.bit_length() for all values."""
    coefs, d = lin_parts(length)
    if len(coefs) != 1:
        return False
    (u, a), = coefs.items()
    if not (isinstance(u, tuple) and u[0] == "op" and u[1] == ">>" and is_int(u[2][1])):
        return False
    k = u[2][1][2]
    bl, c = lin_parts(u[2][0])
    if len(bl) != 1:
        return False
    (b, one), = bl.items()
    m = meth_of(b, "bit_length")
    if one != 1 or not m or m[0] not in (value, x):
        return False
    return a * 8 == (1 << k) and c + 8 * d >= (1 << k) - 1


def bigint_payload():
    return S(K("VARINT", p_bigint_len, "bigint length field"), K("BYTES", p_bigint_data, "bigint digits"))


def p_zigzag(t, m):
    """2v for v >= 0, -2v - 1 for v < 0."""
    return zigzag_of(t.a, m)


def zigzag_of(a, m):
    path = m.path
    coefs, k = lin_parts(a)
    if is_int(a):
        return True
    if len(coefs) == 1:
        (v, c), = coefs.items()
        if c == 2 and k == 0 and path.q.le0(lin_scale(v, -1)) is True:
            m.env["int"] = v
            return True
        if c == -2 and k == -1 and path.q.le0(lin_add(v, C(1))) is True:
            m.env["int"] = v
            return True
    return f"{show(a)} is not the zigzag encoding of an int32 (2n, or -2n-1 when negative)"


def p_uint(t, m):
    m.env["int"] = t.a
    return True


def p_any(t, m):
    return True


def bind(name):
    def f(t, m):
        m.env[name] = t.a
        return True
    return f


def p_err(*names):
    """A varint of one of the error tags."""
    def f(t, m):
        a = m.path.q.value_of(t.a)
        ds = None
        if isinstance(a, tuple) and a[0] == "enum":
            ds = {a[2]}
        else:
            d = m.path.q.dom(a) if isinstance(a, tuple) else None
            if d:
                ds = {x[2] if isinstance(x, tuple) and x[0] == "enum" else str(x) for x in d}
        if ds is None:
            return f"expected an error tag, found {show(a)}"
        if not ds <= set(names):
            return f"expected error tag {'/'.join(names)}, found {sorted(ds)}"
        return True
    return f


PROTOS = [n for n in V.ERROR_TAGS if n.endswith("Prototype")]


def pair_loop(key, val):
    return STAR(S(K("NEST", key, "an entry's key"), K("NEST", val, "an entry's value")))


def writer_payload(tag, entries):
    """Grammar of what follows a tag; entries(kind) gives NEST predicates."""
    if tag in V.CONSTANT_TAGS:
        return S()
    e = entries
    return {
        "kInt32": lambda: K("VARINT", p_zigzag, "zigzag varint"),
        "kUint32": lambda: K("VARINT", p_uint, "varint"),
        "kDouble": lambda: K("BYTES", p_double, "double"),
        "kBigInt": bigint_payload,
        "kUtf8String": lambda: string_payload("kUtf8String"),
        "kOneByteString": lambda: string_payload("kOneByteString"),
        "kTwoByteString": twobyte_payload,
        "kObjectReference": lambda: K("VARINT", bind("refid"), "object id"),
        "kTrueObject": S, "kFalseObject": S,
        "kNumberObject": lambda: K("BYTES", p_double, "double"),
        "kBigIntObject": bigint_payload,
        "kStringObject": tagged_string,
        "kDate": lambda: K("BYTES", p_double, "double"),
        "kRegExp": lambda: S(tagged_string(), K("VARINT", bind("flags"), "RegExp flags")),
        "kBeginJSMap": lambda: S(pair_loop(e("key"), e("value")), T("kEndJSMap"), K("VARINT", bind("count2"))),
        "kBeginJSSet": lambda: S(STAR(K("NEST", e("elem"))), T("kEndJSSet"), K("VARINT", bind("count1"))),
        "kBeginJSObject": lambda: S(pair_loop(e("pkey"), e("value")), T("kEndJSObject"), K("VARINT", bind("count"))),
        "kBeginDenseJSArray": lambda: S(
            K("VARINT", bind("len"), "array length"), STAR(K("NEST", e("elem"))),
            pair_loop(e("pkey"), e("value")), T("kEndDenseJSArray"),
            K("VARINT", bind("count"), "number of properties"), K("VARINT", bind("len2"), "array length")),
        "kBeginSparseJSArray": lambda: S(
            K("VARINT", bind("len"), "array length"), pair_loop(e("pkey"), e("value")), T("kEndSparseJSArray"),
            K("VARINT", bind("count"), "number of properties"), K("VARINT", bind("len2"), "array length")),
        "kArrayBuffer": lambda: S(K("VARINT", bind("blen"), "byte length"), K("BYTES", bind("bytes"), "buffer data")),
        "kResizableArrayBuffer": lambda: S(
            K("VARINT", bind("blen"), "byte length"), K("VARINT", bind("max"), "max byte length"),
            K("BYTES", bind("bytes"), "buffer data")),
        "kSharedArrayBuffer": lambda: K("VARINT", bind("bufid"), "buffer id"),
        "kArrayBufferTransfer": lambda: K("VARINT", bind("bufid"), "transfer id"),
        "kArrayBufferView": lambda: S(
            K("VARINT", bind("vtag"), "view tag"), K("VARINT", bind("voff"), "byte offset"),
            K("VARINT", bind("vlen"), "byte length"), K("VARINT", bind("vflags"), "view flags")),
        "kSharedObject": lambda: K("VARINT", bind("sharedid"), "shared value id"),
        "kHostObject": S,
        "kError": lambda: S(
            OPT(K("VARINT", p_err(*PROTOS), "error prototype tag")),
            OPT(S(K("VARINT", p_err("Message"), "message tag"), tagged_string())),
            OPT(S(K("VARINT", p_err("Stack"), "stack tag"), tagged_string())),
            OPT(S(K("VARINT", p_err("Cause"), "cause tag"), K("NEST"))),
            K("VARINT", p_err("End"), "end tag")),
    }[tag]()


# -- counting -------------------------------------------------------------------

def count_of(path, t):
    """(constant, {loop key: increments per iteration}, [collections counted by len]) of a count."""
    coefs, k = lin_of(t)
    loops, lens = {}, []
    for x, c in coefs.items():
        if isinstance(x, tuple) and x[0] == "lv" and x[3] == "out":
            lp = path.loops.get(x[1])
            if lp is None:
                return None
            name, _, fid = x[2].rpartition("@")
            hit = None
            for key in lp["end"]:
                if len(key) == 2 and key[1] == name and str(key[0]) == fid:
                    hit = key
            if hit is None:
                return None
            init, end = lp["init"].get(hit, C(0)), lp["end"][hit]
            d = lin_add(end, ("lv", x[1], x[2], "in"), -1)
            if is_int(d):
                delta = d[2]
            else:
                # the running index of enumerate()
                ec, ek = lin_of(end)
                nx = [y for y in ec if isinstance(y, tuple) and y[0] == "sym" and str(y[1]).startswith("n@")]
                if len(ec) == 1 and nx and ec[nx[0]] == 1 and is_int(init) and init[2] == ek - 1:
                    delta = 1
                else:
                    return None
            sub = count_of(path, init)
            if sub is None:
                return None
            k += c * sub[0]
            for lk, dl in sub[1].items():
                loops[lk] = loops.get(lk, 0) + c * dl
            lens += sub[2] * c
            loops[x[1]] = loops.get(x[1], 0) + c * delta
        elif isinstance(x, tuple) and x[0] == "len":
            lens += [x[1]] * c if c > 0 else []
            if c < 0:
                return None
        else:
            return None
    return k, loops, lens


def resolve_allowed(path, b):
    """The constraint in force at a token."""
    for _ in range(10):
        if isinstance(b, tuple) and b and b[0] == "lv":
            lp = path.loops.get(b[1])
            if lp is None:
                return b
            fkey = None
            for key in list(lp["end"]) + list(lp["init"]):
                if len(key) == 3 and key[0] == "f" and key[2] == "allowed_tags":
                    fkey = key
            if fkey is None:
                return b
            init, end = lp["init"].get(fkey), lp["end"].get(fkey)
            if init == end or end is None:
                b = init
                continue
            if init is None:
                b = end
                continue
            return b
        return b
    return b


def constraint_tags(ip, b):
    """Names of the tags a TagConstraint allows, or None for no constraint."""
    if b == NONE:
        return None
    if isinstance(b, Obj):
        items = ip.const_items(b.fields.get("allowed_tags"))
        if items is not None:
            return {x[2] for x in items}
    return False


# -- reader payloads -------------------------------------------------------------

RWIRE = {"TAG", "VARINT", "NEST", "ADV", "YIELD", "PEEK", "PAD", "CALL", "SETITEM"}


def strip_buf(t):
    """The bytes a term copies or views unchanged."""
    while isinstance(t, tuple) and t:
        for n in ("builtins.bytes", "builtins.bytearray", "builtins.memoryview"):
            c = call_of(t, n)
            if c and len(c[0]) == 1 and not c[1]:
                t = c[0][0]
                break
        else:
            m = None
            for n in ("tobytes", "toreadonly", "__enter__"):
                m = m or meth_of(t, n)
            if m and not m[1]:
                t = m[0]
                continue
            if t[0] == "idx" and t[2] in (("slice", NONE, NONE), ("slice", NONE, NONE, NONE)):
                t = t[1]
                continue
            return t
    return t


def data_slice(t):
    """(start, stop) if t is data[start:stop]."""
    t = strip_buf(t)
    if isinstance(t, tuple) and t and t[0] == "idx" and isinstance(t[2], tuple) and t[2][0] == "slice":
        base = strip_buf(t[1])
        if base == ("sym", "data", "bytes") and (len(t[2]) == 3 or t[2][3] in (NONE, C(1))):
            return t[2][1], t[2][2]
    return None


def decoded(t):
    """(bytes term, codec, errors) if t is decoded text."""
    for n in ("codecs.decode", "builtins.str"):
        c = call_of(t, n)
        if c and (len(c[0]) > 1 or "encoding" in c[1]):
            a, kw = c
            codec = a[1] if len(a) > 1 else kw["encoding"]
            err = a[2] if len(a) > 2 else kw.get("errors", C("strict"))
            return a[0], norm_codec(codec), err
    m = meth_of(t, "decode")
    if m:
        rec, a, kw = m
        codec = a[0] if a else kw.get("encoding", C("utf-8"))
        err = a[1] if len(a) > 1 else kw.get("errors", C("strict"))
        return rec, norm_codec(codec), err
    return None


class Adv:
    """Bytes taken from the stream: n bytes at pos."""

    def __init__(self, pos, n):
        self.pos, self.n = pos, n


def r_take(name, count=None):
    def f(t, m):
        if count is not None and t.a != C(count):
            return f"{count} bytes are taken here, not {show(t.a)}"
        m.env[name] = Adv(t.b, t.a)
        return True
    return K("ADV", f, "raw data")


def r_string(tag):
    return S(K("VARINT", bind("strlen"), "string length"), r_take("strdata"), MARK("codec", tag))


def MARK(name, value):
    """Matches nothing; records which alternative was taken."""
    def f(m):
        m.env[name] = value
        return None
    return ("mark", f)


def r_tagged_string():
    """A string in any encoding: through the context, or read in place."""
    return ALT(
        S(K("TAG", r_strtag), K("NEST", r_sametag, "the string of the tag just read")),
        S(T("kUtf8String"), r_string("kUtf8String")),
        S(T("kOneByteString"), r_string("kOneByteString")),
        S(T("kTwoByteString"), r_string("kTwoByteString")))


def r_strtag(t, m):
    names = tagnames(t, m.path)
    if names is None or "kUtf8String" not in names and "kOneByteString" not in names and "kTwoByteString" not in names:
        return f"expected the tag of a string, found {sorted(names) if names else show(t.a)}"
    extra = names - V.STRING_TAGS - {"kStringObject"}
    if extra:
        return f"a string tag is expected here, {sorted(extra)} is accepted too"
    m.env["tagtok"] = t
    m.env.setdefault("strtags", set())
    m.env["strtags"] = m.env["strtags"] | names
    return True


def r_anytag(t, m):
    m.env["tagtok"] = t
    return True


def r_sametag(t, m):
    k = m.env.get("tagtok")
    if t.a is None or k is None:
        return "the tag was already read, so it has to be given to the nested decode"
    if t.a != k.a and m.path.q.value_of(t.a) != m.path.q.value_of(k.a):
        return f"nested decode of {show(t.a)} although the tag read is {show(k.a)}"
    m.env["first"] = t.b
    m.env["text"] = t.b
    return True


def r_whole(name):
    def f(t, m):
        if t.a is not None:
            return "a complete object (with its tag) is expected here"
        m.env[name] = t.b
        return True
    return K("NEST", f, "a nested object")


def r_first(kind):
    """The first object of an entry, whose tag tells it from the end tag."""
    def keytag(t, m):
        names = tagnames(t, m.path)
        if kind == "pkey":
            if names is None or not names <= V.KEY_TAGS:
                return f"property keys have a number or string tag; {sorted(names - V.KEY_TAGS) if names else show(t.a)} is accepted here"
        m.env["tagtok"] = t
        m.env.setdefault("entrytags", {})
        m.env["entrytags"] = dict(m.env["entrytags"])
        m.env["entrytags"][kind] = m.env["entrytags"].get(kind, frozenset()) | frozenset(names or ())
        return True
    return S(K("TAG", keytag, "an entry or the end tag"), K("NEST", r_sametag, "the object of the tag just read"))


def r_emit(kind):
    """The entry just read is handed on."""
    def f(t, m):
        want = [m.env["index"] if kind == "elem" else m.env["first"]]
        if kind in ("pair", "pkey", "elem"):
            want.append(m.env["second"])
        if t.kind == "YIELD":
            y = t.a
            got = list(y[1]) if isinstance(y, tuple) and y[0] == "tup" and kind != "set" else [y]
        elif t.kind == "SETITEM":
            got = list(t.b[1])
        else:
            got = list(t.b[1])
        if kind == "elem" and len(got) == 1 and t.kind == "CALL":
            want = want[1:]  # append(value)
        if kind == "elem" and len(got) == 2:
            want[0] = got[0]
            m.env["index"] = got[0]
        if got != want:
            return f"the entry just read ({', '.join(map(show, want))}) is passed on as ({', '.join(map(show, got))})"
        m.env["emit"] = m.env.get("emit", ()) + ((kind, t),)
        return True
    return ("tok", lambda t, m: None if t.kind in ("YIELD", "SETITEM", "CALL") and f(t, m) is True else (
        f(t, m) if t.kind in ("YIELD", "SETITEM") else "the entry just read is not passed on"))


def r_pairs(kind):
    return STAR(S(r_first(kind), r_whole("second"), r_emit(kind)))


def r_bind(name):
    return K("VARINT", bind(name), name)


def r_errtag(name, *names):
    def f(t, m):
        q = m.path.q
        v = ("call", ("cls", m.errcls), (t.a,), (), 0)
        d = q.dom(v)
        got = {x[2] for x in d} if d else None
        if got is None:
            x = q.value_of(v)
            got = {x[2]} if isinstance(x, tuple) and x[0] == "enum" else None
        if got is None:
            got = set(V.ERROR_TAGS)
            got -= {x[2] for x in m.path.excl.get(v, ()) if isinstance(x, tuple) and x[0] == "enum"}
        if not got <= set(names):
            return f"expected error tag {'/'.join(names)}, accepted here: {sorted(got)}"
        m.env[name] = t.a
        m.env["proto"] = got if name == "proto" else m.env.get("proto")
        m.env["fields"] = (*m.env.get("fields", ()), "proto" if name == "proto" else names[0])
        return True
    return K("VARINT", f, "error tag " + "/".join(names))


def r_note(name, src):
    def f(m):
        m.env[name] = m.env.get(src)
    return ("mark", f)


def r_view():
    return OPT(S(T("kArrayBufferView"), r_bind("vtag"), r_bind("voff"), r_bind("vlen"), OPT(r_bind("vflags")),
                 MARK("isview", True)))


def r_peeked_view():
    def peek(t, m):
        m.env["peek"] = t.a
        return True
    return ALT(S(K("PEEK", peek), r_view()), S())


def reader_payload(tag):
    """Grammar of what a reader takes from the stream after a tag."""
    if tag in V.CONSTANT_TAGS or tag in ("kTrueObject", "kFalseObject", "kHostObject"):
        return S()
    return {
        "kInt32": lambda: r_bind("int"), "kUint32": lambda: r_bind("int"),
        "kDouble": lambda: r_take("double", 8), "kNumberObject": lambda: r_take("double", 8),
        "kDate": lambda: r_take("double", 8),
        "kBigInt": lambda: S(r_bind("bigfield"), r_take("digits")),
        "kBigIntObject": lambda: S(r_bind("bigfield"), r_take("digits")),
        "kUtf8String": lambda: r_string("kUtf8String"),
        "kOneByteString": lambda: r_string("kOneByteString"),
        "kTwoByteString": lambda: r_string("kTwoByteString"),
        "kStringObject": r_tagged_string,
        "kObjectReference": lambda: S(r_bind("refid"), r_peeked_view()),
        "kRegExp": lambda: S(r_tagged_string(), r_bind("flags")),
        "kBeginJSMap": lambda: S(r_pairs("pair"), T("kEndJSMap"), r_bind("count2")),
        "kBeginJSSet": lambda: S(STAR(S(r_first("set"), r_emit("set"))), T("kEndJSSet"), r_bind("count1")),
        "kBeginJSObject": lambda: S(r_pairs("pkey"), T("kEndJSObject"), r_bind("count")),
        "kBeginDenseJSArray": lambda: S(
            r_bind("len"), STAR(S(r_whole("second"), MARK("index", None), r_emit("elem"))), r_pairs("pkey"),
            T("kEndDenseJSArray"), r_bind("count"), r_bind("len2")),
        "kBeginSparseJSArray": lambda: S(
            r_bind("len"), r_pairs("pkey"), T("kEndSparseJSArray"), r_bind("count"), r_bind("len2")),
        "kArrayBuffer": lambda: S(r_bind("blen"), r_take("bytes"), r_peeked_view()),
        "kResizableArrayBuffer": lambda: S(r_bind("blen"), r_bind("max"), r_take("bytes"), r_peeked_view()),
        "kSharedArrayBuffer": lambda: S(r_bind("bufid"), r_peeked_view()),
        "kArrayBufferTransfer": lambda: S(r_bind("bufid"), r_peeked_view()),
        "kSharedObject": lambda: r_bind("sharedid"),
        "kError": lambda: S(
            OPT(r_errtag("proto", *PROTOS)),
            OPT(S(r_errtag("etag", "Message"), r_tagged_string(), r_note("message", "text"))),
            ALT(
                S(S(r_errtag("etag", "Stack"), r_tagged_string(), r_note("stack", "text")),
                  OPT(S(r_errtag("etag", "Cause"), r_whole("cause")))),
                S(OPT(S(r_errtag("etag", "Cause"), r_whole("cause"))),
                  OPT(S(r_errtag("etag", "Stack"), r_tagged_string(), r_note("stack", "text"))))),
            r_errtag("etag", "End")),
    }[tag]()
