"""Rules over the encoding side (object numbering, references, layout, keys, counts)."""

from __future__ import annotations

import ast

from . import v8spec as V
from .grammar import K, Loop, S, STAR, full_env, tagnames, tree
from .project import AnalysisError
from .reader import Tok, seq
from .terms import C, FALSE, NONE, TRUE, Obj, contains, is_c, is_int, lin_add, lin_of, lin_scale, show, subterms
from .wire import (REFS, WIRE, bind, constraint_tags, count_of, resolve_allowed, unwrap_double, unwrap_iter, unwrap_num,
                   writer_payload, zigzag_of, p_any)
from .writer import WriterConfig, encode_paths, write_method_names, write_paths, writer_dispatch

# what TagWriter writes for each type
TYPE_TAGS = {
    "int": {"kInt32", "kUint32", "kDouble", "kBigInt"},
    "JSHoleEnum": {"kTheHole"}, "JSUndefinedEnum": {"kUndefined"}, "bool": {"kTrue", "kFalse"},
    "NoneType": {"kNull"}, "str": V.STRING_TAGS, "float": {"kDouble"},
    "JSPrimitiveObject": V.PRIMITIVE_OBJECT_TAGS, "JSRegExp": {"kRegExp"}, "Pattern": {"kRegExp"},
    "JSErrorData": {"kError"}, "BaseException": {"kError"}, "datetime": {"kDate"},
    "V8SharedObjectReference": {"kSharedObject"}, "JSObject": {"kBeginJSObject"},
    "JSArray": {"kBeginDenseJSArray", "kBeginSparseJSArray"}, "Mapping": {"kBeginJSMap"},
    "Set": {"kBeginJSSet"}, "Collection": {"kBeginDenseJSArray"},
    "BaseJSArrayBuffer": V.BUFFER_TAGS, "bytes": {"kArrayBuffer"}, "bytearray": {"kArrayBuffer"},
    "memoryview": {"kArrayBuffer"}, "JSArrayBufferView": {"kArrayBufferView"},
}


class Run:
    """One abstract path of one writer entry point."""

    def __init__(self, entry, kind, path, ip):
        self.entry, self.kind, self.path, self.ip = entry, kind, path, ip
        self.value = path.ctx["value"]
        self.params = path.ctx["params"]
        self.toks = seq(path)

    def first_tags(self, items):
        for t in items:
            if not isinstance(t, Loop) and t.kind == "TAG":
                return t
        return None


def short(tn):
    return tn.rsplit(".", 1)[-1]


_cache = {}


def runs(p, rep, which=("encode", "method")):
    """Every normally returning path of every writer entry point."""
    if "runs" not in _cache:
        out = []
        tab, f = writer_dispatch(p)
        for tn, fn in tab:
            ps, ip = encode_paths(p, tn)
            out.append((short(tn), "encode", ps, ip))
        for m in write_method_names(p):
            ps, ip = write_paths(p, m)
            out.append((m, "method", ps, ip))
        _cache["runs"] = out
    res = []
    for entry, kind, ps, ip in _cache["runs"]:
        if kind not in which:
            continue
        rep.use(ps, ip)
        rep.ob("writer entry points")
        for q in ps:
            if q.outcome == "return":
                res.append(Run(entry, kind, q, ip))
    return res


def default_tag(run):
    """The tag a method's payload belongs to when called with tag=None."""
    t = run.params.get("tag")
    if t is None:
        return None
    return t


# -- C03: layout ------------------------------------------------------------------

def elem_part(t):
    """(iterated term, loop key, part) of a loop element."""
    if isinstance(t, tuple) and t:
        if t[0] == "idx" and is_int(t[2]):
            b = t[1]
            if isinstance(b, tuple) and b[0] == "elem" and len(b) == 3:
                return b[1], b[2], t[2][2]
        if t[0] == "elem" and len(t) == 4:
            return t[1], t[2], t[3]
        if t[0] == "elem" and len(t) == 3:
            return t[1], t[2], None
    return None


CHAIN = {"items", "values", "keys", "array", "properties", "elements", "__iter__"}


def source_of(it, run):
    """None if `it` iterates the entry's own items in order, else a reason."""
    t = unwrap_iter(it)
    roots = [x for x in list(run.params.values()) if not is_c(x)]
    while True:
        if any(t is r or t == r for r in roots):
            return None
        if isinstance(t, tuple) and t[0] == "call" and t[1][0] == "attr" and not t[2] and t[1][2] in CHAIN:
            t = unwrap_iter(t[1][1])
        elif isinstance(t, tuple) and t[0] == "attr" and t[2] in CHAIN:
            t = unwrap_iter(t[1])
        else:
            return f"entries are not taken, in order, from the value being written but from {show(it)}"


def entries_for(run, roles):
    def entries(kind):
        def f(t, m):
            e = elem_part(t.a)
            if kind == "elem":
                if e is None or e[2] is not None:
                    return f"an element of the value is expected, not {show(t.a)}"
            elif kind in ("key", "pkey"):
                if e is not None and e[2] is None and not isinstance(e[0], Obj):
                    # iterating the keys of a mapping
                    pass
                elif e is None or e[2] != 0:
                    return f"the key of an entry is expected, not {show(t.a)}"
                m.env["entry"] = (e, t.a)
            else:
                k = m.env.get("entry")
                byidx = isinstance(t.a, tuple) and t.a[0] == "idx" and k and t.a[2] == k[1]
                if not byidx and (e is None or e[2] != 1 or k is None or k[0][:2] != e[:2]):
                    return f"the value of the same entry as the key is expected, not {show(t.a)}"
            if e is not None:
                why = source_of(e[0], run)
                if why:
                    return why
            roles[id(t)] = (t, kind, e)
            return True
        return f
    return entries


class Layout:
    """The result of matching one path."""

    def __init__(self, run, tag, err, env, roles, items):
        self.run, self.tag, self.err, self.env, self.roles, self.items = run, tag, err, env, roles, items


def layouts(run):
    """Match a run against the grammar of every tag its first TAG may be."""
    items = tree(run.toks, WIRE)
    lead = []
    while items and not isinstance(items[0], Loop) and items[0].kind == "NEST":
        lead.append(items.pop(0))
    if items and not isinstance(items[0], Loop) and items[0].kind == "INS" and False:
        items.pop(0)
    if items and not isinstance(items[0], Loop) and items[0].kind == "PUT":
        pass
    if not items:
        return lead, []
    t0 = items[0]
    if isinstance(t0, Loop):
        return lead, [Layout(run, None, (t0.items[0], "data is written before any tag"), {}, {}, items)]
    tagp = run.params.get("tag")
    if t0.kind != "TAG":
        if t0.kind == "NEXT":
            return lead, []
        d = run.path._ip.params.get("tag") if tagp is not None else None
        if tagp is not None and run.path.q.value_of(tagp) == NONE:
            st = default_of(run)
            if st is None:
                return lead, []
            tags = {st}
            body = items
        else:
            return lead, [Layout(run, None, (t0, "data is written before any tag"), {}, {}, items)]
    else:
        tags = tagnames(t0, run.path)
        body = items[1:]
        if tags is None:
            return lead, [Layout(run, None, (t0, f"cannot tell which tag is written: {show(t0.a)}"), {}, {}, items)]
    out = []
    for tag in sorted(tags):
        roles = {}
        try:
            g = writer_payload(tag, entries_for(run, roles))
        except KeyError:
            out.append(Layout(run, tag, (t0, f"{tag} is not a tag of a value this package writes"), {}, {}, items))
            continue
        err, env = full_env(g, body, run.path)
        out.append(Layout(run, tag, err, env, roles, items))
    return lead, out


_defaults = {}


def default_of(run):
    """Name of the default of a method's tag parameter."""
    key = run.entry
    if key not in _defaults:
        import ast
        f = run.ip.p.cls("WritableTagStream").methods[run.entry]
        a = f.node.args
        name = None
        for x, d in list(zip(a.kwonlyargs, a.kw_defaults)) + list(zip(a.args[len(a.args) - len(a.defaults):], a.defaults)):
            if x.arg == "tag" and isinstance(d, ast.Attribute):
                name = d.attr
        _defaults[key] = name
    return _defaults[key]


def all_layouts(p, rep):
    out = []
    for run in runs(p, rep):
        if run.kind == "method" and run.entry in ("write_header", "write_zigzag", "write_constant"):
            if run.entry != "write_constant":
                continue
        if run.kind == "method" and not any(t.kind in WIRE for t in run.toks):
            continue
        lead, ls = layouts(run)
        rep.ob("writer layouts", len(ls))
        out.append((run, lead, ls))
    return out


def site(tok, run):
    return tok.loc() if tok is not None else f"{run.entry}"


def check_layout(p, rep):
    rep.rule("every abstract path of every writer entry point emits a token sequence of the V8 grammar of its tag, "
             "with each length/zigzag/sign/codec field derived from the data it describes")
    seen = {}
    for run, lead, ls in all_layouts(p, rep):
        for L in ls:
            if L.err:
                rep.viol("layout", site(L.err[0], run), f"writing {L.tag or run.entry}: {L.err[1]}")
                continue
            seen.setdefault(L.tag, 0)
            seen[L.tag] += 1
            check_payload(rep, L, run)
        if lead and not any(L.tag == "kArrayBufferView" for L in ls) and ls:
            rep.viol("layout", site(lead[0], run), "a nested value is written before the tag of its container")
        if run.kind == "encode" and ls and ls[0].tag == "kArrayBufferView" and not ls[0].err:
            last = lead[-1] if lead else None
            if last is None or last.kind != "NEST" or not any(
                    isinstance(x, tuple) and len(x) == 3 and x[0] == "attr" and x[2] == "backing_buffer" for x in [last.a, *subterms(last.a)]):
                rep.viol("layout", site(ls[0].items[0], run), "a view is written that does not directly follow its buffer")
    want = V.OBJECT_TAGS | V.VALUE_TAGS
    for t in sorted(want - set(seen)):
        rep.viol("layout", "-", f"no path writes {t}")
    rep.ob("tags with a writer", len(seen))
    check_padding(p, rep)
    check_zigzag_method(p, rep)


def check_payload(rep, L, run):
    """Payload fields derive from the value being written."""
    path, env, tag = run.path, L.env, L.tag
    q = path.q
    t0 = L.items[0]

    def bad(msg):
        rep.viol("payload", site(t0 if not isinstance(t0, Loop) else None, run), f"writing {tag}: {msg}")

    v = run.value
    if run.kind == "encode":
        ent = run.entry
        if ent in TYPE_TAGS and tag not in TYPE_TAGS[ent]:
            bad(f"values of type {ent} are written as {'/'.join(sorted(TYPE_TAGS[ent]))}")
        if ent == "bool":
            b = q.value_of(v)
            if b == v and q.known_truth(v) is not None:
                b = C(q.known_truth(v))
            if (b, tag) not in ((TRUE, "kTrue"), (FALSE, "kFalse")):
                bad(f"{show(b)} is written as {tag}")
    if tag in ("kInt32", "kUint32") and "int" in env and not (tag == "kInt32" and run.entry == "write_zigzag"):
        if unwrap_num(env["int"]) != unwrap_num(v) and not path.same(env["int"], v):
            bad(f"{show(env['int'])} is written instead of the value")
    if tag == "kUint32" and not (q.le0(lin_scale(env["int"], -1)) is True and path.le(env["int"], C(2**32 - 1))):
        bad("the value is not limited to 0 … 2**32 - 1")
    if tag == "kInt32":
        n = env.get("int")
        if n is not None and not (path.le(n, C(2**31 - 1)) and path.le(C(-2**31), n)):
            bad("the value is not limited to -2**31 … 2**31 - 1")
    for name in {"kBeginSparseJSArray": ("len",), "kArrayBuffer": ("blen",), "kResizableArrayBuffer": ("blen", "max"),
                 "kArrayBufferView": ("voff", "vlen")}.get(tag, ()):
        if name in env and not path.le(env[name], C(2**32 - 1)):
            bad(f"the number {show(env[name])} is not limited to 0 … 2**32 - 1")
    if tag == "kDouble" and unwrap_double(env["double"], q, (v,) if run.kind == "encode" and run.entry in ("int", "bool") else ()) != v:
        bad(f"{show(env['double'])} is written instead of the value")
    if tag == "kNumberObject" and not attr_of(unwrap_double(env["double"], q), v, "value"):
        bad(f"{show(env['double'])} is written instead of the object's value")
    if tag == "kBigInt" and env["bigint"] != v:
        bad(f"{show(env['bigint'])} is written instead of the value")
    if tag == "kBigIntObject" and not attr_of(env["bigint"], v, "value", unwrap=True):
        bad(f"{show(env['bigint'])} is written instead of the object's value")
    if tag == "kStringObject" and not attr_of(env["text"], v, "value"):
        bad(f"{show(env['text'])} is written instead of the object's value")
    if tag in V.STRING_TAGS and run.entry != "int" and env["text"] != v and not is_c(env["text"]):
        bad(f"{show(env['text'])} is written instead of the value")
    if tag == "kDate":
        coefs, k = lin_of(env["double"])
        ok = False
        if len(coefs) == 1 and k == 0:
            (x, c), = coefs.items()
            ok = c == 1000 and isinstance(x, tuple) and x[0] == "call" and x[1] == ("attr", v, "timestamp")
        if not ok:
            bad(f"a date is its timestamp() in milliseconds, not {show(env['double'])}")
    if tag == "kRegExp":
        if run.kind == "method":
            if not attr_of(env["text"], v, "source"):
                bad(f"{show(env['text'])} is written instead of the RegExp's source")
            f = env["flags"]
            names = ("flags",)
            if not any(isinstance(x, tuple) and len(x) == 3 and x[0] == "attr" and x[2] == "flags" and x[1] is v for x in subterms(f)) \
                    and not _is_flags_const(f):
                bad(f"{show(f)} is written instead of the RegExp's flags")
    if tag == "kObjectReference":
        ids = [t.b for t in run.toks if t.kind == "GETID"] + [t.a for t in run.toks if t.kind == "GETREF"]
        if env["refid"] not in ids:
            bad(f"{show(env['refid'])} is not the id of the referenced object")
    if tag in ("kArrayBuffer", "kResizableArrayBuffer"):
        n, data = env["blen"], env["bytes"]
        if not (path.same(n, ("len", data)) or (is_c(data) and n == C(len(data[2])))):
            bad(f"the length written ({show(n)}) is not the length of the data that follows ({show(data)})")
        if run.kind == "method" and not contains(data, v):
            bad(f"{show(data)} is not the buffer's data")
        if tag == "kResizableArrayBuffer":
            if run.kind == "method" and not attr_of(env["max"], v, "max_byte_length"):
                bad(f"{show(env['max'])} is written as the maximum length")
            if not path.le(n, env["max"]):
                bad("the maximum length written may be smaller than the length")
    if run.kind == "method":
        if tag == "kSharedArrayBuffer" and not attr_of(env["bufid"], v, "buffer_id"):
            bad(f"{show(env['bufid'])} is written as the buffer id")
        if tag == "kArrayBufferTransfer" and not attr_of(env["bufid"], v, "transfer_id"):
            bad(f"{show(env['bufid'])} is written as the transfer id")
        if tag == "kSharedObject" and not attr_of(env["sharedid"], v, "shared_value_id"):
            bad(f"{show(env['sharedid'])} is written as the shared value id")
        if tag == "kArrayBufferView":
            vt = env["vtag"]
            if not (attr_of(vt, v, "view_tag") or (isinstance(vt, tuple) and vt[0] == "attr" and vt[2] == "value" and attr_of(vt[1], v, "view_tag"))):
                bad(f"{show(vt)} is written as the view tag")
            if not attr_of(env["voff"], v, "byte_offset"):
                bad(f"{show(env['voff'])} is written as the byte offset")
            n = env["vlen"]
            if n == C(0):
                bl = attr_term(v, "byte_length")
                if not (bl is not None and (known_eq(path, bl, NONE) or q.known_truth(bl) is False or known_eq(path, bl, C(0)))):
                    bad("the byte length is written as 0 although the view has a length")
            elif not attr_of(n, v, "byte_length"):
                bad(f"{show(n)} is written as the byte length")
    if tag == "kHostObject":
        calls = [t for t in run.toks if t.kind == "CALL"]
        ser = run.params.get("serializer")
        ok = [t for t in calls if t.a == ser or (isinstance(t.a, tuple) and t.a[0] == "attr" and t.a[1] == ser)]
        if len(ok) != 1:
            bad("the host object's serializer is not called exactly once")
    if tag == "kObjectReference" and run.kind == "method" and "obj" in run.params:
        if env["refid"] == run.params.get("serialized_id") and not known_eq(path, run.params["obj"], NONE):
            bad("the number given is written although an object may be given")
    if tag == "kArrayBuffer" and run.kind == "method":
        r = attr_term(v, "resizable")
        if q.known_truth(r) is not False and r != FALSE and not any(
                t is False and isinstance(a, tuple) and a[0] == "in" and len(a) == 3 and show(a[2]) == "features" for a, t in q.atoms.items()):
            bad("a buffer that may be resizable is written with a fixed length although resizable buffers may be enabled")
    if tag == "kOneByteString" and run.kind == "encode" and run.entry == "str":
        known = any(t is True and any(isinstance(x, tuple) and len(x) == 3 and x[0] == "attr" and x[2] in ("isascii", "isalnum_ascii")
                                      for x in subterms(a)) for a, t in q.atoms.items())
        if not known and not any(
                isinstance(a, tuple) and a and a[0] in ("le0", "cmp") and contains(a, v) for a in q.atoms) and not handles_unicode_errors(run):
            bad("any string is written as Latin-1, which has no form for most of them")
    if tag == "kError" and run.kind == "method":
        fields = error_fields(L.items)
        for name, prop in (("Message", "message"), ("Stack", "stack"), ("Cause", "cause")):
            got = fields.get(name)
            if got is None:
                if not known_eq(path, attr_term(v, prop), NONE):
                    bad(f"the {prop} is left out although the error has one")
            elif name == "Cause":
                if not any(t.kind == "NEST" and attr_of(t.a, v, prop) for t in got):
                    bad("something other than the error's cause is written as its cause")
            elif not any(isinstance(t.a, tuple) and any(attr_of(x, v, prop) for x in [t.a, *subterms(t.a)]) for t in got):
                bad(f"something other than the error's {prop} is written as its {prop}")


def error_fields(items):
    out, cur = {}, None
    for t in items:
        if getattr(t, "kind", None) == "VARINT" and isinstance(t.a, tuple) and t.a[0] == "enum" and t.a[1].endswith("SerializationErrorTag"):
            cur = out.setdefault(t.a[2], [])
        elif cur is not None and hasattr(t, "kind"):
            cur.append(t)
    return out


def handles_unicode_errors(run):
    return any(isinstance(n, ast.ExceptHandler) and n.type is not None and any(
        x in ast.dump(n.type) for x in ("Unicode", "ValueError", "'Exception'")) and not any(isinstance(r, ast.Raise) for r in ast.walk(n))
               for f in run.ip.p.cls("TagWriter").methods.values() for n in ast.walk(f.node))


CONTENTS = {("JSArray", "kBeginDenseJSArray"): ("array", "properties")}


def check_contents(p, rep):
    rep.rule("every entry of a collection is written, whatever its value")
    filled, empty, why = {}, {}, {}
    for run, lead, ls in all_layouts(p, rep):
        tags = [L.tag for L in ls if not L.err and L.tag.startswith("kBegin")]
        if not tags:
            continue
        rep.ob("collection writers decided")
        stack = []
        for t in run.toks:
            if t.kind == "LOOP":
                stack.append([t, 0])
            elif t.kind == "ENDLOOP" and stack:
                lt, n = stack.pop()
                lp = run.path.loops.get(lt.facts)
                if lp is None or "iter" not in lp:
                    continue
                if n:
                    filled[lt.facts] = lp
                elif t.b == C("next"):
                    empty.setdefault(lt.facts, (site(t, run), tags[0]))
                if n and t.b == C("break"):
                    why.setdefault(lt.facts, (site(t, run), tags[0]))
                if stack:
                    stack[-1][1] += n
            elif t.kind == "NEST":
                for x in stack:
                    x[1] += 1
        if run.kind == "encode":
            its = [lp["iter"] for lp in run.path.loops.values() if lp.get("iter") is not None]
            for part in CONTENTS.get((run.entry, tags[0]), ()):
                a = attr_term(run.value, part)
                gone = any(set(d) == {NONE} and isinstance(k, tuple) and _mentions(k, a, run.value, part)
                           for k, d in run.path.q.doms.items())
                if not gone and not any(_mentions(x, a, run.value, part) for x in its) and run.path.q.known_truth(a) is not False:
                    rep.viol("contents", run.entry, f"writing {tags[0]}: the {part} of a {run.entry} are not written")
            if (run.entry, tags[0]) not in CONTENTS and not any(_mentions(x, run.value, run.value, None) for x in its) \
                    and run.path.q.known_truth(run.value) is not False:
                rep.viol("contents", run.entry, f"writing {tags[0]}: the entries of the {run.entry} are not written")
    for k in filled:
        if k in empty:
            at, tag = empty[k]
            rep.viol("contents", at, f"writing {tag}: some entries are left out")
        if k in why:
            at, tag = why[k]
            rep.viol("contents", at, f"writing {tag}: entries after some entry are left out")
    rep.at_least("collection writers decided", 10)
    ps, ip = write_paths(p, "write_js_array_buffer", assert_fork=True)
    rep.use(ps, ip)
    for q in ps:
        if q.outcome == "raise" and q.exc_name() == "AssertionError":
            rep.require(not any(t is True and a[0] == "isinstance" for a, t in q.atoms.items()), "contents",
                        "WritableTagStream.write_js_array_buffer", "some buffers of a known kind cannot be written", "buffer kinds decided")


def _mentions(x, a, obj, part):
    if x is a or x == a:
        return True
    for y in subterms(x) if isinstance(x, tuple) else ():
        if y is a or y == a or isinstance(y, tuple) and part and len(y) == 3 and y[0] == "attr" and y[2] == part and y[1] is obj:
            return True
    return False


def _is_flags_const(t):
    return isinstance(t, tuple) and t[0] in ("enum", "flag") or is_c(t)


def attr_term(obj, name):
    if isinstance(obj, Obj):
        return obj.fields.get(name, ("attr", obj, name))
    return ("attr", obj, name)


def attr_of(t, obj, name, unwrap=False):
    if unwrap:
        t = unwrap_num(t)
    a = attr_term(obj, name)
    return t == a or t == ("attr", obj, name) or (isinstance(t, tuple) and len(t) == 3 and t[0] == "attr" and t[2] == name and (t[1] is obj or t[1] == obj))


def known_eq(path, a, b):
    """Does the path know a == b?"""
    q = path.q
    if q.value_of(a) == b:
        return True
    d = q.dom(a) if isinstance(a, tuple) else None
    return d is not None and set(d) == {b}


def check_padding(p, rep):
    """Two-byte string data starts at an even offset of the stream."""
    rep.rule("on every path of write_string_twobyte the data offset (start + padding + tag + length bytes) is even, "
             "by parity of the symbolic stream length")
    ps, ip = write_paths(p, "write_string_twobyte")
    for q in ps:
        if q.outcome != "return":
            continue
        run = Run("write_string_twobyte", "method", q, ip)
        toks = [t for t in run.toks if t.kind in WIRE]
        if not toks or toks[0].kind == "VARINT":
            if any(t.kind == "INS" or t.kind == "PUT" for t in toks):
                rep.viol("padding", toks[0].loc(), "padding is written although the string's tag is not written here")
            continue
        rep.ob("padding paths")
        par = 1
        unknown = False
        for t in toks:
            if t.kind in ("INS", "PUT"):
                par ^= 1
        names = [("sym", "len0", "nat")] + [k[1] for k in q.atoms if isinstance(k, tuple) and k[0] == "odd" and str(k[1][1]).startswith("vlen")]
        if len(names) != 2:
            unknown = True
        for n in names:
            o = q.atoms.get(("odd", n))
            if o is None:
                unknown = True
            elif o:
                par ^= 1
        if unknown or par:
            rep.viol("padding", toks[-1].loc(), "the data of a TwoByteString can start at an odd offset")
        for t in toks:
            if t.kind == "INS" and t.a != ("sym", "len0", "nat"):
                rep.viol("padding", t.loc(), "padding must come before the string's tag")


def check_zigzag_method(p, rep):
    ps, ip = write_paths(p, "write_zigzag")
    n = 0
    for q in ps:
        if q.outcome != "return":
            continue
        run = Run("write_zigzag", "method", q, ip)
        toks = [t for t in run.toks if t.kind in WIRE]
        err, env = full_env(K("VARINT", lambda t, m: zigzag_of(t.a, m), "zigzag varint"), toks, q)
        n += 1
        if err:
            rep.viol("zigzag", site(err[0], run), err[1])
        elif "int" in env and env["int"] != run.value:
            rep.viol("zigzag", toks[0].loc(), f"{show(env['int'])} is written instead of the value")
    rep.ob("zigzag paths", n)


# -- C01 / C02: object numbering and references ---------------------------------------

def check_numbering(p, rep):
    rep.rule("a path that writes an object tag records exactly one object id, before any nested value (for a view: "
             "after its buffer, for an error: before its cause); a path that writes no object tag records none")
    n = 0
    for run, lead, ls in all_layouts(p, rep):
        tags = {L.tag for L in ls if L.tag}
        recs = [t for t in run.toks if t.kind == "REC"]
        items = [t for t in run.toks if t.kind in ("REC", "NEST", "TAG", "NEXT")]
        if not ls:
            if recs:
                rep.viol("numbering", recs[0].loc(), f"{run.entry} records an object id without writing an object")
            continue
        n += 1
        payload_only = run.toks and not any(t.kind == "TAG" for t in run.toks)
        for tag in tags:
            isobj = tag in V.OBJECT_TAGS
            if not isobj:
                if recs:
                    rep.viol("numbering", recs[0].loc(), f"writing {tag} consumes an object id, which V8 does not assign")
                continue
            if len(recs) != 1:
                at = (recs[1] if len(recs) > 1 else ls[0].items[0])
                at = at.items[0] if isinstance(at, Loop) else at
                rep.viol("numbering", at.loc(),
                         f"writing {tag} in {run.entry} records {len(recs)} object ids; V8 assigns exactly one")
                continue
            depth_ok(rep, run, recs[0], tag)
            nests = [t for t in items if t.kind in ("NEST", "NEXT")]
            before = []
            for t in items:
                if t is recs[0]:
                    break
                if t.kind in ("NEST", "NEXT"):
                    before.append(t)
            allowed = [t for t in before if t in lead] if tag == "kArrayBufferView" else []
            if len(before) != len(allowed):
                rep.viol("numbering", before[0].loc(),
                         f"writing {tag}: a nested value is written before the object's own id is recorded")
            if tag == "kArrayBufferView" and lead and not before:
                rep.viol("numbering", recs[0].loc(), "the view's object id is recorded before its buffer's")
            if tag == "kHostObject":
                pos = {id(t): i for i, t in enumerate(run.toks)}
                for t in run.toks:
                    if t.kind == "CALL" and run.params.get("serializer") is not None and contains(("x", t.a), run.params["serializer"]) \
                            and pos[id(t)] < pos[id(recs[0])]:
                        rep.viol("numbering", t.loc(), "the host object is written before its object id is recorded")
    rep.ob("numbering paths", n)


def depth_ok(rep, run, rec, tag):
    d = 0
    for t in run.toks:
        if t.kind == "LOOP":
            d += 1
        elif t.kind == "ENDLOOP":
            d -= 1
        elif t is rec and d:
            rep.viol("numbering", t.loc(), f"writing {tag}: the object id is recorded inside a loop")


def check_recorded(p, rep):
    """The object recorded for back-references is the one the caller passed."""
    rep.rule("the object recorded under an id is the value given to the encoder (or the explicit identity), "
             "so later occurrences of it become references")
    n = 0
    for run in runs(p, rep):
        recs = [t for t in run.toks if t.kind == "REC"]
        for t in recs:
            n += 1
            ident = run.params.get("identity")
            v = run.value
            if run.kind == "encode":
                ok = t.a is v or t.a == v or t.a == ("dedup", v)
                if not ok:
                    rep.viol("recorded", t.loc(), f"encoding a {run.entry} records {show(t.a)} instead of the value itself")
            else:
                if ident is not None:
                    isnone = known_eq(run.path, ident, NONE)
                    if t.a == ident and not isnone:
                        continue
                    if (t.a is v or t.a == v) and isnone:
                        continue
                    rep.viol("recorded", t.loc(), f"{run.entry} records {show(t.a)} although " +
                             ("no identity is given" if isnone else "an identity is given"))
                elif not (t.a is v or t.a == v):
                    rep.viol("recorded", t.loc(), f"{run.entry} records {show(t.a)} instead of the value itself")
        reps = [t for t in run.toks if t.kind == "REPLACE"]
        for t in reps:
            ids = [r.b for r in recs]
            if t.a not in ids:
                rep.viol("recorded", t.loc(), f"{run.entry} replaces a reference it did not record")
            n += 1
            if run.kind in ("encode", "method"):
                holder = t.b
                if isinstance(holder, Obj) and holder.cls is not None and holder.cls.name == "ForwardReference":
                    continue
                rep.viol("recorded", t.loc(), f"{run.entry} replaces the recorded object with {show(t.b)}")
    rep.ob("recorded references", n)


def check_reference_step(p, rep):
    """serialize_object_references writes an id for known objects and delegates the rest."""
    from .interp import Interp
    from .writer import WriterConfig, frame0, mk_ctx
    rep.rule("the reference step writes a reference exactly for objects in the log, to the id of that same object, "
             "and passes every other value on unchanged")
    f = None
    for g in p.funcs.values():
        if g.name == "serialize_object_references" and g.cls is None:
            f = g
    if f is None:
        raise AnalysisError("serialize_object_references not found")
    ip = Interp(p, WriterConfig(p))

    def setup(ip):
        ip.wts = None
        ctx, w = mk_ctx(ip)
        v = ("sym", "value", "obj")
        ip.roots = [ctx, w]
        ip.ctx = {"value": v, "params": {"value": v}, "stream": w}
        return ip.call_func(f, [v], {"ctx": ctx, "next": ("sym", "next", "obj")}, None, frame0(ip))

    ps = ip.explore(setup)
    rep.use(ps, ip)
    for q in ps:
        if q.outcome != "return":
            continue
        run = Run("serialize_object_references", "step", q, ip)
        rep.ob("reference step paths")
        v = run.value
        inlog = [k[1] for k, b in q.atoms.items() if k[0] == "inlog" and b]
        notin = [k[1] for k, b in q.atoms.items() if k[0] == "inlog" and not b]
        toks = [t for t in run.toks if t.kind in WIRE | REFS]
        kinds = [t.kind for t in toks]
        where = toks[0].loc() if toks else f.qual
        if any(t == v or t == ("dedup", v) for t in inlog):
            ids = [t for t in toks if t.kind == "GETID"]
            if "NEXT" in kinds:
                rep.viol("step", where, "an object that was already written is written again")
            elif len(ids) != 1 or ids[0].a not in inlog:
                rep.viol("step", where, "the reference written is not to the object found in the log")
            elif [t.a for t in toks if t.kind == "VARINT"] != [ids[0].b] or "kObjectReference" not in str([t.a for t in toks if t.kind == "TAG"]):
                rep.viol("step", where, "the reference is not written as an object reference with the object's id")
        else:
            nx = [t for t in toks if t.kind == "NEXT"]
            if len(nx) != 1 or len([t for t in toks if t.kind in WIRE]) != 1:
                rep.viol("step", where, "a value that was not seen before is not passed on exactly once")
            elif nx[0].a != v:
                rep.viol("step", nx[0].loc(), f"a value that was not seen before is passed on as {show(nx[0].a)}")
            if not any(t == v or t == ("dedup", v) for t in notin):
                rep.viol("step", where, "values are passed on without looking them up in the object log")
    rep.at_least("reference step paths", 2)


# -- C09: object keys ----------------------------------------------------------------------

def check_keys(p, rep):
    rep.rule("keys of objects and array properties are written under a constraint that admits exactly V8's key tags, and "
             "no other value is written under a constraint")
    n = 0
    for run, lead, ls in all_layouts(p, rep):
        for L in ls:
            if L.err:
                continue
            for t, kind, e in L.roles.values():
                b = resolve_allowed(run.path, t.b)
                tags = constraint_tags(run.ip, b)
                n += 1
                if kind == "pkey":
                    if tags is None:
                        rep.viol("keys", t.loc(), f"writing {L.tag}: property keys are written without the object-key constraint")
                    elif tags is False:
                        rep.viol("keys", t.loc(), f"writing {L.tag}: cannot tell which constraint applies to keys ({show(b)})")
                    elif tags != V.KEY_TAGS:
                        extra = sorted(tags - V.KEY_TAGS) or sorted(V.KEY_TAGS - tags)
                        rep.viol("keys", t.loc(), f"writing {L.tag}: the key constraint wrongly treats {', '.join(extra)}")
                elif tags is not None:
                    rep.viol("keys", t.loc(), f"writing {L.tag}: a {kind} that is not an object key is written under a tag constraint")
        for t in run.toks:
            if t.kind == "TAG":
                b = resolve_allowed(run.path, t.b)
                if constraint_tags(run.ip, b) is not None:
                    rep.viol("keys", t.loc(), f"{run.entry}: the key constraint is still in force for a later tag")
    rep.ob("nested writes", n)
    rep.at_least("nested writes", 20)


class _FailNested(WriterConfig):
    fail_nested = True


def check_keys_lifted(p, rep):
    rep.rule("no key constraint is left on the stream when a nested write fails")
    n = 0
    for name, m in sorted(p.cls("WritableTagStream").methods.items()):
        a = m.node.args
        if not any(x.arg == "ctx" for x in a.posonlyargs + a.args + a.kwonlyargs):
            continue
        ps, ip = write_paths(p, name, cfg_cls=_FailNested)
        rep.use(ps, ip)
        for q in ps:
            failed = [e for e in q.events if e.kind == "nestfailed"]
            left = [e for e in q.events if e.kind == "left"]
            if not failed or not left or q.outcome != "raise":
                continue
            n += 1
            b = resolve_allowed(q, left[-1].extra)
            tags = constraint_tags(ip, b)
            if tags:
                rep.viol("keys", m.qual, f"{name}: when a nested write fails, the key constraint stays in force for what is written next")
            elif tags is False:
                rep.undecided.append(f"{m.qual}: the constraint left when a nested write fails is not understood ({show(b)})")
    rep.ob("failing nested writes", n)
    rep.at_least("failing nested writes", 4)


# -- C10: counts ------------------------------------------------------------------------------

def same_coll(a, b):
    def strip(t):
        t = unwrap_iter(t)
        while isinstance(t, tuple) and t and t[0] == "call" and t[1][0] == "attr" and not t[2] and t[1][2] in ("items", "values", "keys"):
            t = unwrap_iter(t[1][1])
        return t
    x, y = strip(a), strip(b)
    return x == y or x is y


def check_counts(p, rep):
    rep.rule("each count written after a collection equals the number of entries its loop wrote (increments per iteration), "
             "and both lengths of an array agree")
    n = 0
    for run, lead, ls in all_layouts(p, rep):
        for L in ls:
            if L.err or L.tag not in ("kBeginJSMap", "kBeginJSSet", "kBeginJSObject", "kBeginDenseJSArray", "kBeginSparseJSArray"):
                continue
            n += 1
            groups = {}
            for t, kind, e in L.roles.values():
                if e is not None:
                    groups.setdefault("elem" if kind == "elem" else "pair", []).append((t, e))
            at = L.items[0].loc() if not isinstance(L.items[0], Loop) else run.entry
            env = L.env

            def counted(term, group, unit, what):
                c = count_of(run.path, term)
                es = groups.get(group, [])
                keys = {e[1] for t, e in es}
                if c is None:
                    rep.viol("counts", at, f"writing {L.tag}: {what} is written as {show(term)}, which does not count the entries")
                    return
                k, loops, lens = c
                loops = {x: y for x, y in loops.items() if y}
                if lens:
                    ok = k == 0 and not loops and len(lens) == unit and (
                        not es or all(same_coll(lens[0], e[0]) for t, e in es)) and all(same_coll(x, lens[0]) for x in lens)
                    if not es:
                        ok = ok and from_params(run, lens[0])
                else:
                    ok = k == 0 and loops == {x: unit for x in keys}
                if not ok:
                    rep.viol("counts", at, f"writing {L.tag}: {what} does not equal the number of entries written"
                             f" ({show(term)}: {unit} per entry expected)")
            if L.tag == "kBeginJSMap":
                counted(env["count2"], "pair", 2, "the count of keys and values")
            elif L.tag == "kBeginJSSet":
                counted(env["count1"], "elem", 1, "the count of elements")
            else:
                counted(env["count"], "pair", 1, "the number of properties")
            if L.tag == "kBeginDenseJSArray":
                for term in (env["len"], env["len2"]):
                    counted(term, "elem", 1, "the array length")
            if L.tag == "kBeginSparseJSArray" and not run.path.same(env["len"], env["len2"]):
                rep.viol("counts", at, f"writing {L.tag}: the lengths before and after the properties differ")
            if L.tag == "kBeginSparseJSArray":
                src = env["len"]
                if run.kind == "method" and src != run.params.get("length"):
                    rep.viol("counts", at, f"writing {L.tag}: {show(src)} is written as the array length")
                if run.kind == "encode" and not (isinstance(src, tuple) and src[0] == "len"):
                    rep.viol("counts", at, f"writing {L.tag}: {show(src)} is written as the array length")
    rep.ob("counted collections", n)
    rep.at_least("counted collections", 10)


def from_params(run, t):
    return any(contains(("x", t), r) for r in run.params.values() if not is_c(r))
