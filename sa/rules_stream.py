"""The decoding stream: error discipline, bounds, and the primitive reads the other rules build on."""

from __future__ import annotations

from .project import AnalysisError, Class
from .reader import decode_paths, seq, serialization_tags, stream_paths
from .terms import C, FALSE, NONE, TRUE, Obj, contains, is_c, is_int, lin_add, lin_of, lin_scale, show, subterms

_cache = {}

COUNT = ("sym", "count", "nat")
MAXB = ("sym", "max_bits", "opt")
DATA = ("sym", "data", "bytes")
POS0 = ("sym", "pos0", "nat")


def runs(p):
    """Every tag decoded with every modelled exception enabled."""
    if "runs" not in _cache:
        _cache["runs"] = [(t, *decode_paths(p, t, exc=True, assert_fork=True)) for t in serialization_tags(p)]
    return _cache["runs"]


def method(p, name, args=(), kw=None, prims=(), exc=True):
    key = (name, repr(args), repr(kw), tuple(prims), exc)
    if key not in _cache:
        _cache[key] = stream_paths(p, name, args, kw, prims, exc)
    return _cache[key]


def is_v8(p, path):
    e = path.value
    return isinstance(e, Obj) and e.cls is not None and p.cls("V8SerializeError") in p.mro(e.cls)


def where(path):
    n = path.node
    for e in reversed(path.events):
        if e.kind == "raised":
            return f"{e.func.module.relpath}:{getattr(e.node, 'lineno', '?')} in {e.func.qual}" if e.func else "?"
    for e in reversed(path.events):
        if e.func is not None:
            return f"{e.func.module.relpath}:{getattr(n, 'lineno', '?')} (after {e.func.qual})"
    return f"line {getattr(n, 'lineno', '?')}"


STREAM = {
    "read_varint": ([], {"max_bits": MAXB}), "read_tag": ([], None), "peak_tag": ([], None),
    "ensure_capacity": ([COUNT], None), "throw": ([C("x")], None), "read_padding": ([], None),
    "read_header": ([], None), "read_bytes": ([COUNT], None),
}


def tag_variants(p):
    """How read_tag is called: any tag, one tag, a set of tags."""
    st = p.cls("SerializationTag").qual

    def con(ip):
        from .reader import _frame
        from .interp import Frame, _module_func
        m = p.modules["v8serialize.constants"]
        return [ip.global_value(m, "JS_OBJECT_KEY_TAGS")]
    return [("any tag", []), ("one tag", [("enum", st, "kDouble")]), ("a set of tags", con)]


def key_exempt(p, path):
    """A nested object decoded under the key constraint that is neither str, int nor float: cannot come from a tag."""
    for e in path.events:
        if e.kind != "tok" or e.extra.kind != "NEST" or e.extra.a is None:
            continue
        r = e.extra.b
        if ("int" in path.types.get(r, (set(), set()))[1] and "str" in path.types.get(r, (set(), set()))[1]):
            return True
    return False


def check_errors(p, rep):
    rep.rule("no path of any tag's reader, of the stream's primitive reads or of the header leaves with an exception "
             "outside the library's error family, unless a caller-supplied object raised it")
    for tag, ps, ip in runs(p):
        rep.use(ps, ip)
        for q in ps:
            if q.outcome == "return":
                rep.ob("returning paths")
                continue
            rep.ob("raising paths")
            if is_v8(p, q) or (q.exc_name() == "TypeError" and key_exempt(p, q)):
                continue
            rep.viol("errors", where(q), f"decoding {tag} can raise {q.exc_name()}")
    for m, (a, kw) in STREAM.items():
        ps, ip = method(p, m, a, kw)
        rep.use(ps, ip)
        rep.ob("stream primitives")
        for q in ps:
            if q.outcome == "return":
                continue
            rep.ob("raising paths")
            if not is_v8(p, q):
                rep.viol("errors", where(q), f"{m} can raise {q.exc_name()}")
    for label, a in tag_variants(p):
        ps, ip = method(p, "read_tag", a)
        rep.use(ps, ip)
        for q in ps:
            if q.outcome != "return":
                rep.ob("raising paths")
                if not is_v8(p, q):
                    rep.viol("errors", where(q), f"read_tag ({label}) can raise {q.exc_name()}")
    err = p.cls("DecodeV8SerializeError")
    rep.require(p.cls("V8SerializeError") in p.mro(err), "errors", err.qual, "DecodeV8SerializeError is not a V8SerializeError")
    ps, ip = method(p, "throw", [C("x")])
    rep.require(all(q.outcome == "raise" and q.value.cls is err for q in ps) and ps, "errors",
                "ReadableTagStream.throw", "throw does not always raise DecodeV8SerializeError")
    rep.at_least("tags", 0)
    rep.at_least("raising paths", 60)
    rep.at_least("returning paths", 150)


# -- C07 ---------------------------------------------------------------------------

def check_bounds(p, rep):
    rep.rule("every byte or slice of the input is read, and the position advanced, only where the facts of the path "
             "bound it by the input's length")
    for tag, ps, ip in runs(p):
        rep.use(ps, ip)
        for q in ps:
            bounds_path(rep, q, f"decoding {tag}")
    for m, (a, kw) in STREAM.items():
        ps, ip = method(p, m, a, kw)
        rep.use(ps, ip)
        for q in ps:
            bounds_path(rep, q, m)
    for label, a in tag_variants(p):
        ps, ip = method(p, "read_tag", a)
        rep.use(ps, ip)
        for q in ps:
            bounds_path(rep, q, f"read_tag ({label})")
    rep.at_least("input accesses", 60)
    rep.at_least("position updates", 40)
    check_capacity(p, rep)


def bounds_path(rep, q, what):
    for t in seq(q):
        if t.kind in ("RAW", "UNPACK"):
            rep.ob("input accesses")
            if t.facts is not True:
                rep.viol("bounds", t.loc(), f"{what}: reads {show(t.b)} of the input without knowing it is inside")
        elif t.kind == "ADV" and q.outcome == "return":
            rep.ob("position updates")
            if t.facts is not True:
                rep.viol("bounds", t.loc(), f"{what}: moves the position by {show(t.a)} without knowing it stays inside")


def check_capacity(p, rep):
    rep.rule("the capacity check returns only where the requested bytes remain and does not move the position")
    ps, ip = method(p, "ensure_capacity", [COUNT])
    n = 0
    for q in ps:
        if q.outcome != "return":
            continue
        n += 1
        if not q.le(lin_add(POS0, COUNT), ("len", DATA)):
            rep.viol("capacity", "ReadableTagStream.ensure_capacity", "returns although fewer bytes remain than requested")
        if not q.same(q.ctx["stream"].fields["pos"], POS0):
            rep.viol("capacity", "ReadableTagStream.ensure_capacity", "moves the position")
    rep.require(n, "capacity", "ReadableTagStream.ensure_capacity", "never returns")
    # and it must not reject what is available
    for q in ps:
        if q.outcome == "raise" and not q.q.le0(lin_add(lin_add(POS0, COUNT), ("len", DATA), -1)) is False:
            rep.viol("capacity", "ReadableTagStream.ensure_capacity", "rejects a request that the input can satisfy")


# -- primitive reads -----------------------------------------------------------------

def check_primitives(p, rep):
    check_varint(p, rep)
    check_read_tag(p, rep)
    check_peek(p, rep)
    check_read_padding(p, rep)
    check_read_bytes(p, rep)


def subst(t, m):
    if isinstance(t, tuple):
        if t in m:
            return m[t]
        if is_c(t):
            return t
        if t and t[0] == "lin":
            out = C(t[2])
            for x, c in t[1]:
                out = lin_add(out, lin_scale(subst(x, m), c))
            return out
        return tuple(subst(x, m) if isinstance(x, tuple) else x for x in t)
    return t


def loop_maps(lp):
    """(symbol -> initial value, symbol -> value after an iteration) of a loop's variables."""
    ini, end = {}, {}
    from .interp import lp_name
    for k, v in lp["init"].items():
        if k[0] in ("a", "e", "items"):
            continue
        ini[("lv", lp["key"], lp_name(k, lp), "in")] = v
    for k, v in lp["end"].items():
        if k[0] in ("a", "e", "items"):
            continue
        end[("lv", lp["key"], lp_name(k, lp), "in")] = v
    return ini, end


def group_of(t, path):
    """(index term) if t is the low seven bits of an input byte; the byte itself if it is known to be below 128."""
    if isinstance(t, tuple) and t[0] == "op" and t[1] == "&" and C(127) in t[2]:
        x = next((y for y in t[2] if y != C(127)), None)
        if isinstance(x, tuple) and x[0] == "idx" and x[1] == DATA:
            return x[2]
    if isinstance(t, tuple) and t[0] == "op" and t[1] == "%" and t[2][1] == C(128):
        x = t[2][0]
        if isinstance(x, tuple) and x[0] == "idx" and x[1] == DATA:
            return x[2]
    if isinstance(t, tuple) and t[0] == "idx" and t[1] == DATA and last_group(t, path) is True:
        return t[2]
    return None


def last_group(b, path):
    """Is the byte known to have (False) or lack (True) the continuation bit?"""
    q = path.q
    le = q.le0(lin_add(b, C(-127)))
    if le is not None:
        return le
    for a, v in path.atoms.items():
        if a[0] in ("eq", "eq0"):
            x = ("op", "&", (b, C(127)))
            y = ("op", "&", (C(127), b))
            z = ("op", "%", (b, C(128)))
            hi = ("op", "&", (b, C(128)))
            hi2 = ("op", "&", (C(128), b))
            if a[0] == "eq":
                s = {a[1], a[2]}
                if s in ({b, x}, {b, y}, {b, z}):
                    return v
                if s in ({hi, C(0)}, {hi2, C(0)}):
                    return v
                if s in ({hi, C(128)}, {hi2, C(128)}):
                    return not v
            else:
                co = dict(a[1])
                if set(co) in ({b, x}, {b, y}, {b, z}) and a[2] == 0 and sorted(co.values()) == [-1, 1]:
                    return v
                if set(co) in ({hi}, {hi2}):
                    c = abs(next(iter(co.values())))
                    if a[2] == 0:
                        return v
                    if abs(a[2]) == 128 * c:
                        return not v
        if a[0] == "truthy" and isinstance(a[1], tuple) and a[1][0] == "op":
            if a[1][1] == "&" and set(a[1][2]) == {b, C(128)}:
                return not v
            if a[1][1] == ">>" and a[1][2] == (b, C(7)):
                return not v
    return None


def split_shift(t):
    """t = acc + (group << shift): candidates (acc, group, shift)."""
    out = []
    if isinstance(t, tuple) and t[0] == "op" and t[1] in ("|", "+") and len(t[2]) == 2:
        for i in (0, 1):
            out.append((t[2][1 - i], t[2][i]))
    co, k = lin_of(t)
    for x, c in co.items():
        if c == 1:
            out.append((lin_add(t, x, -1), x))
    res = []
    for acc, g in out:
        if isinstance(g, tuple) and g[0] == "op" and g[1] == "<<":
            res.append((acc, g[2][0], g[2][1]))
        elif isinstance(g, tuple) and g[0] == "op" and g[1] == "*" and len(g[2]) == 2:
            for i in (0, 1):
                w = g[2][i]
                if isinstance(w, tuple) and w[0] == "op" and w[1] == "<<" and w[2][0] == C(1):
                    res.append((acc, g[2][1 - i], w[2][1]))
    return res


def check_varint(p, rep):
    rep.rule("a varint is the sum of its bytes' low seven bits, each shifted by seven more than the one before, ending "
             "at the first byte without the continuation bit (shown for one arbitrary step)")
    at = "ReadableTagStream.read_varint"
    ps, ip = method(p, "read_varint", [], {"max_bits": MAXB})
    rep.use(ps, ip)
    n = 0
    cont = []
    for q in ps:
        for lp in q.loops.values():
            if lp["end"]:
                cont.append((q, lp))
    for q in ps:
        if q.outcome != "return":
            continue
        n += 1
        ok = False
        why = "the value returned is not an accumulated sum of shifted seven-bit groups"
        for acc, g, sh in [*split_shift(q.value), (C(0), q.value, C(0))]:
            idx = group_of(g, q)
            if idx is None:
                continue
            b = ("idx", DATA, idx)
            if last_group(b, q) is not True:
                why = "it returns although the last byte read may have the continuation bit"
                continue
            if not q.same(q.ctx["stream"].fields["pos"], lin_add(idx, C(1))):
                why = "the position is not left just after the last byte"
                continue
            r = varint_step(q, acc, sh, idx, cont)
            if r is None:
                ok = True
                break
            why = r
        if not ok and not q.loops:
            continue
        rep.require(ok, "varint", at, why)
    rep.ob("varint paths", n)
    rep.require(n and cont, "varint", at, "no returning or no continuing path found")
    # the width limit
    for q, lp in cont:
        ini, end = loop_maps(lp)
        if q.atoms.get(("truthy", MAXB)) is False or any(
                a[0] in ("is", "eq") and MAXB in a[1:] and NONE in a[1:] and v for a, v in q.atoms.items()):
            continue
        lim = False
        for sym, e in end.items():
            if q.q.le0(lin_add(lin_add(e, C(1)), MAXB, -1)) is True:
                lim = True
        co = [L for L in q.ivals if any(x == MAXB for x, _ in L)]
        rep.require(lim or co, "varint", at, "a width limit does not bound the number of bytes read")


def varint_step(q, acc, sh, idx, cont):
    """None if (acc, sh) start at zero and one iteration adds a group and seven to the shift."""
    lvs = {x for t in (acc, sh, idx) for x in subterms(t) if isinstance(x, tuple) and x and x[0] == "lv"}
    phases = {x[3] for x in lvs}
    if not lvs:
        return None if acc == C(0) and sh == C(0) and q.same(idx, POS0) else "a first byte is not shifted by zero"
    keys = {x[1] for x in lvs}
    best = "no continuing iteration of the same loop found"
    for cq, lp in cont:
        if lp["key"] not in keys:
            continue
        ini, end = loop_maps(lp)
        key = lp["key"]
        to_in = {x: x[:3] + ("in",) for x in lvs}
        a, s, i = subst(acc, to_in), subst(sh, to_in), subst(idx, to_in)
        if subst(a, ini) != C(0):
            return "the accumulator does not start at zero"
        if subst(s, ini) != C(0):
            return "the first group is shifted"
        if lin_add(subst(s, end), s, -1) != C(7):
            return "the shift does not grow by seven with each byte"
        want = [x for x in split_shift(subst(a, end)) if x[0] == a and x[2] == s]
        gi = [group_of(x[1], cq) for x in want]
        if not any(x is not None for x in gi):
            return "an iteration does not add the byte's low seven bits at the current shift"
        b = ("idx", DATA, next(x for x in gi if x is not None))
        if last_group(b, cq) is not False:
            return "the loop continues after a byte without the continuation bit"
        # successive bytes
        if isinstance(i, tuple) and i[0] == "sym" or any(isinstance(x, tuple) and x[0] == "sym" and str(x[1]).startswith("i@") for x in subterms(i)):
            it = lp["iter"]
            first = it[2] if isinstance(it, tuple) and it[0] == "call" and it[1] == ("ext", "builtins.range") else None
            if first is None:
                return "the bytes read are not successive"
            lo = first[0] if len(first) > 1 else C(0)
            step = first[2] if len(first) > 2 else C(1)
            if step != C(1):
                return "the bytes read are not successive"
            d = lin_add(i, lin_add(iter_sym(i), C(0)), -1)
            if lin_add(d, lo) != POS0:
                return "the first byte read is not the one at the position"
            if b[2] != i:
                return "the group added is not of the byte being read"
        else:
            if subst(i, ini) != POS0:
                return "the first byte read is not the one at the position"
            if lin_add(subst(i, end), i, -1) != C(1):
                return "the bytes read are not successive"
            if b[2] != i:
                return "the group added is not of the byte being read"
        return None
    return best


def iter_sym(t):
    for x in subterms(t):
        if isinstance(x, tuple) and x and x[0] == "sym" and str(x[1]).startswith("i@"):
            return x
    return C(0)


def check_read_tag(p, rep):
    rep.rule("reading a tag returns the known tag at the position after any padding, only if the caller allows it, and "
             "moves past it only when asked to")
    st = p.cls("SerializationTag").qual
    at = "ReadableTagStream.read_tag"
    for label, a in tag_variants(p):
        for consume in (True, False):
            kw = {} if consume else {"consume": FALSE}
            ps, ip = method(p, "read_tag", a, kw)
            rep.use(ps, ip)
            n = 0
            for q in ps:
                if q.outcome != "return":
                    continue
                n += 1
                v = q.q.value_of(q.value)
                pos = q.ctx["stream"].fields["pos"]
                idx = lin_add(pos, C(-1)) if consume else pos
                byte = ("idx", DATA, idx)
                if not tag_of_byte(q, v, byte, st):
                    rep.viol("tag", at, f"({label}) the tag returned ({show(v)}) is not the one at the position left behind")
                if label == "one tag" and not is_tag(q, v, byte, st, {"kDouble"}):
                    rep.viol("tag", at, "a tag other than the requested one is accepted")
                if label == "a set of tags":
                    want = key_tags(q)
                    if want is None or not is_tag(q, v, byte, st, want):
                        rep.viol("tag", at, "a tag outside the requested set is accepted")
                pad_skipped(rep, p, q, idx, at)
            rep.ob("read_tag paths", n)
            rep.require(n >= 2, "tag", at, f"({label}) never returns a tag with and without padding before it")
            for q in ps:
                if q.outcome == "raise":
                    reject(rep, q, at, st)


def key_tags(q):
    for a in q.ctx["args"]:
        if isinstance(a, Obj):
            items = q.q.const_items(a.fields.get("allowed_tags"))
            if items is not None:
                return {x[2] for x in items}
    return None


def tag_of_byte(q, v, byte, st):
    if isinstance(v, tuple) and v[0] == "call" and v[1] == ("cls", st) and v[2] and q.q.value_of(v[2][0]) == q.q.value_of(byte):
        return True
    if isinstance(v, tuple) and v[0] == "call" and v[1] == ("cls", st) and v[2][0] == byte:
        return True
    call = ("call", ("cls", st), (byte,), (), 0)
    if isinstance(v, tuple) and v[0] == "enum" and v in (q.q.dom(call) or q.doms.get(call) or ()):
        return True
    if isinstance(v, tuple) and v[0] == "enum":
        r = q.q.enum_info(q.q.p.classes[st]).get(v[2])
        return r is not None and (q.same(byte, r["_value_"]) or any(
            a[0] in ("eq", "is") and val and {a[1], a[2]} == {("call", ("cls", st), (byte,), (), 0), v} for a, val in q.atoms.items()))
    return False


def is_tag(q, v, byte, st, names):
    if isinstance(v, tuple) and v[0] == "enum":
        return v[2] in names
    for d in (q.q.dom(v), q.doms.get(v), q.doms.get(("call", ("cls", st), (byte,), (), 0))):
        if d is not None and {x[2] for x in d if isinstance(x, tuple) and x[0] == "enum"} <= names:
            return True
    for a, val in q.atoms.items():
        if not val:
            continue
        if a[0] in ("eq", "is") and v in a[1:]:
            o = a[2] if a[1] == v else a[1]
            if isinstance(o, tuple) and o[0] == "enum" and o[2] in names:
                return True
        if a[0] == "in" and a[1] == v:
            items = q.q.const_items(a[2]) if not isinstance(a[2], Obj) else q.q.const_items(a[2].fields.get("allowed_tags"))
            if items is not None and {x[2] for x in items if isinstance(x, tuple) and x[0] == "enum"} <= names:
                return True
    return False


def pad_skipped(rep, p, q, idx, at):
    if not_padding(p, q, ("idx", DATA, idx), serialization_tags(p)["kPadding"]) is not True:
        rep.viol("tag", at, "padding in front of a tag may not be skipped")


def reject(rep, q, at, st):
    """A rejection needs a reason: the end of the input, an unknown byte or a tag that is not allowed."""
    pos = q.ctx["stream"].fields["pos"]
    if q.le(("len", DATA), pos):
        return
    for a, v in q.atoms.items():
        if v is False and a[0] in ("in", "eq", "is"):
            return
    if any(isinstance(t, tuple) and t[0] == "call" and t[1] == ("cls", st) and x for t, x in q.excl.items()):
        return
    rep.viol("tag", at, "a tag may be rejected for no reason")


def check_peek(p, rep):
    rep.rule("looking at the next tag leaves the position alone and answers None only at the end or at an unknown byte")
    st = p.cls("SerializationTag").qual
    at = "ReadableTagStream.peak_tag"
    ps, ip = method(p, "peak_tag")
    rep.use(ps, ip)
    got = 0
    byte = ("idx", DATA, POS0)
    for q in ps:
        if not q.same(q.ctx["stream"].fields["pos"], POS0):
            rep.viol("peek", at, "moves the position")
        if q.outcome != "return":
            rep.viol("peek", at, "raises")
            continue
        v = q.q.value_of(q.value)
        if v == NONE:
            end = q.le(("len", DATA), POS0)
            unknown = any(a[0] == "in" and a[1] == byte and val is False for a, val in q.atoms.items())
            rep.require(end or unknown, "peek", at, "answers None although a known tag may follow")
        else:
            got += 1
            rep.require(tag_of_byte(q, v, byte, st), "peek", at, f"answers {show(v)}, not the tag at the position")
    rep.require(got, "peek", at, "never answers a tag")
    rep.ob("peek paths", len(ps))


def check_read_padding(p, rep):
    rep.rule("skipping padding stops at the first byte that is not padding")
    at = "ReadableTagStream.read_padding"
    pad = serialization_tags(p)["kPadding"]
    ps, ip = method(p, "read_padding")
    rep.use(ps, ip)
    n = 0
    for q in ps:
        if q.outcome != "return":
            continue
        n += 1
        pos = q.ctx["stream"].fields["pos"]
        b = ("idx", DATA, pos)
        if not not_padding(p, q, b, pad):
            rep.viol("padding", at, "may stop while padding follows")
        for lp in q.loops.values():
            ini, end = loop_maps(lp)
            for k, e in end.items():
                if k[2].endswith(".pos") and lin_add(e, k, -1) != C(1):
                    rep.viol("padding", at, "skips something else than one byte at a time")
                if k[2].endswith(".pos") and not_padding(p, q, ("idx", DATA, k), pad) is not False:
                    rep.viol("padding", at, "skips a byte that is not padding")
    rep.ob("padding paths", n)
    rep.require(n, "padding", at, "never returns")


def not_padding(p, q, b, pad):
    """True: known not to be padding; False: known to be padding; None: unknown."""
    tag = ("enum", p.cls("SerializationTag").qual, "kPadding")
    if q.same(b, C(pad)):
        return False
    if q.q.le0(lin_add(b, C(-pad))) is False or q.q.le0(lin_add(C(pad), b, -1)) is False:
        return True
    for a, v in q.atoms.items():
        if a[0] == "eq" and b in a[1:] and (tag in a[1:] or C(pad) in a[1:]):
            return not v
        if a[0] == "eq0" and set(dict(a[1])) == {b} and abs(a[2]) == pad:
            return not v
    for d in (q.q.dom(b), q.doms.get(b)):
        if d is not None:
            pads = {C(pad), tag}
            if not set(d) & pads:
                return True
            if set(d) <= pads:
                return False
    ex = q.excl.get(b) or ()
    if C(pad) in ex or tag in ex:
        return True
    return None


def check_read_bytes(p, rep):
    rep.rule("reading bytes returns exactly the requested number from the position and moves past them")
    at = "ReadableTagStream.read_bytes"
    ps, ip = method(p, "read_bytes", [COUNT])
    rep.use(ps, ip)
    n = 0
    for q in ps:
        if q.outcome != "return":
            continue
        n += 1
        v = q.value
        while isinstance(v, tuple) and v[0] == "call" and v[1] in (("ext", "builtins.bytes"), ("ext", "builtins.memoryview")):
            v = v[2][0]
        ok = isinstance(v, tuple) and v[0] == "idx" and v[1] in (DATA, ("call", ("ext", "builtins.memoryview"), (DATA,), (), 0)) \
            and v[2][0] == "slice" and q.same(v[2][1], POS0) and q.same(v[2][2], lin_add(POS0, COUNT))
        rep.require(ok, "bytes", at, f"returns {show(q.value)}")
        rep.require(q.same(q.ctx["stream"].fields["pos"], lin_add(POS0, COUNT)), "bytes", at, "does not move past the bytes returned")
    rep.ob("read_bytes paths", n)
    rep.require(n, "bytes", at, "never returns")


# -- C11 -----------------------------------------------------------------------------

def check_header(p, rep):
    rep.rule("the header is the version tag and a 32-bit varint in 13..15; anything else is rejected, and the version "
             "is kept for the reads that depend on it")
    at = "ReadableTagStream.read_header"
    ps, ip = method(p, "read_header", [], None, ("read_varint", "read_tag", "throw"))
    rep.use(ps, ip)
    n = 0
    from .v8spec import READABLE_VERSIONS
    lo, hi = min(READABLE_VERSIONS), max(READABLE_VERSIONS)
    for q in ps:
        ts = [t for t in seq(q) if t.kind in ("TAG", "VARINT", "THROW", "ADV", "RAW")]
        kinds = [t.kind for t in ts]
        if q.outcome != "return":
            v = next((t.a for t in ts if t.kind == "VARINT"), None)
            if v is not None and not (q.q.le0(lin_add(C(lo), v, -1)) is False or q.q.le0(lin_add(v, C(-hi))) is False):
                rep.viol("header", at, f"a version from {lo} to {hi} can be rejected")
            continue
        n += 1
        if kinds != ["TAG", "VARINT"]:
            rep.viol("header", at, f"the header is read as {', '.join(kinds)}")
            continue
        tag, vi = ts
        d = q.q.dom(tag.a) or q.doms.get(tag.a) or {q.q.value_of(tag.a)}
        if {x[2] for x in d if isinstance(x, tuple) and x[0] == "enum"} != {"kVersion"}:
            rep.viol("header", at, "the first tag need not be the version tag")
        if not is_int(vi.b) or not 4 <= vi.b[2] <= 32:
            rep.viol("header", at, "the version is not limited to 32 bits")
        if not (q.le(C(lo), vi.a) and q.le(vi.a, C(hi))):
            rep.viol("header", at, f"accepts versions outside {lo}..{hi}")
        if not q.same(q.ctx["stream"].fields["version"], vi.a):
            rep.viol("header", at, "the version read is not kept")
        if not q.same(q.value, vi.a):
            rep.viol("header", at, "the version read is not returned")
    rep.ob("header paths", n)
    rep.require(n, "header", at, "no path accepts a header")
