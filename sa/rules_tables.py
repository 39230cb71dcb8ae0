"""Code tables, feature table and feature gating."""

from __future__ import annotations

from . import v8spec
from .fn import FnConfig, fn_paths, script
from .interp import Interp
from .reader import seq
from .terms import C, NONE, Obj, is_c, is_int, kind, show, subterms
from .writer import encode_paths, write_method_names, write_paths, writer_dispatch


def tables(p):
    ip = Interp(p, FnConfig())
    ip.prefix, ip.pending = (), []
    return ip


def site(p, c, name=None):
    c = p.cls(c) if isinstance(c, str) else c
    n = c.attrs.get(name, (None, None, None))[2] if name else c.node
    return f"{c.module.relpath}:{getattr(n, 'lineno', c.node.lineno)} {c.name}" + (f".{name}" if name else "")


def check_codes(p, rep):
    rep.rule("every tag, error part, view type, view flag and RegExp flag has the code V8 gives it, and no two share one")
    ip = tables(p)
    tabs = [("SerializationTag", v8spec.TAGS), ("SerializationErrorTag", v8spec.ERROR_TAGS),
            ("ArrayBufferViewTag", v8spec.VIEW_TAGS), ("ArrayBufferViewFlags", v8spec.VIEW_FLAGS),
            ("JSRegExpFlag", {n: 1 << v8spec.REGEXP_FLAGS[ch] for n, ch in v8spec.REGEXP_NAMES.items()}),
            ("SerializationFeature", {n: v for n, (v, _) in v8spec.FEATURES.items()})]
    for cn, spec in tabs:
        c = p.cls(cn)
        info = ip.enum_info(c)
        alias = ip.ecache.get(c.qual + "#alias", {})
        vals = {n: i["_value_"] for n, i in info.items()}
        rep.fn(c.qual)
        for n, v in spec.items():
            rep.ob("codes compared")
            if n in alias:
                rep.viol("code", site(p, c, n), f"{cn}.{n} has the same code as {cn}.{alias[n]}")
            elif n in vals:
                if vals[n] != C(v):
                    rep.viol("code", site(p, c, n), f"{cn}.{n} is {show(vals[n])}, V8's code is {v}")
            elif C(v) not in vals.values():
                rep.viol("code", site(p, c), f"no member of {cn} has V8's code {v} ({n})")
        for n in alias:
            if n not in spec:
                rep.viol("code", site(p, c, n), f"{cn}.{n} has the same code as {cn}.{alias[n]}")
    c = p.cls("JSRegExpFlag")
    info = ip.enum_info(c)
    for ch, bit in v8spec.REGEXP_FLAGS.items():
        for n, i in info.items():
            if i["_value_"] == C(1 << bit):
                chars = [v for k, v in i.items() if is_c(v) and v[1] == "str"]
                rep.require(chars == [C(ch)], "flag-char", site(p, c, n),
                            f"JSRegExpFlag.{n} is the bit of V8's flag '{ch}' but stands for {[show(x) for x in chars]}",
                            "flag letters compared")
    # a flags value is displayed as JavaScript does and keeps exactly V8's bits
    for name in ("canonical",):
        f = p.find_method(c, name)
        if f is None:
            continue
        full = sum(1 << b for b in v8spec.REGEXP_FLAGS.values())
        ps, ip2 = fn_paths(p, f, lambda ip: ([("sym", "flags", "obj")], {}))
        rep.use(ps, ip2)
        for q in ps:
            ok = q.outcome == "return" and (
                show(q.value) in (f"(& flags {full})", f"(& {full} flags)") or q.value == ("sym", "flags", "obj")
                or not any(is_int(t) and t[2] not in (full,) and t[2] >= 0 for t in subterms(q.value)))
            rep.require(ok, "flag-mask", site(p, c), f"the canonical flags are {show(q.value)}, which does not keep exactly V8's flags",
                        "flag masks compared")
    rep.at_least("codes compared", 90)


def check_tag_sets(p, rep):
    rep.rule("the sets of tags allowed as object keys, constants, buffers and wrapper objects are V8's")
    ip = tables(p)
    m = p.modules["v8serialize.constants"]
    st = p.cls("SerializationTag").qual
    for name, want in (("JS_OBJECT_KEY_TAGS", v8spec.KEY_TAGS), ("JS_CONSTANT_TAGS", v8spec.CONSTANT_TAGS),
                       ("JS_ARRAY_BUFFER_TAGS", v8spec.BUFFER_TAGS),
                       ("JS_PRIMITIVE_OBJECT_TAGS", v8spec.PRIMITIVE_OBJECT_TAGS)):
        try:
            v = ip.global_value(m, name)
        except Exception:
            continue
        tags = v.fields.get("allowed_tags") if isinstance(v, Obj) else None
        if kind(tags) == "fset" or (tags is not None and hasattr(tags, "items") and not isinstance(tags, tuple)):
            got = set(tags[1] if isinstance(tags, tuple) else tags.items)
        else:
            continue
        rep.ob("tag sets compared")
        exp = {("enum", st, t) for t in want}
        if got != exp:
            extra, miss = sorted(show(x) for x in got - exp), sorted(show(x) for x in exp - got)
            rep.viol("tag-set", f"{m.relpath} {name}", f"{name} differs from V8's set: extra {extra}, missing {miss}")
    rep.at_least("tag sets compared", 3)


def _name_field(i):
    return i["_value_"]


def check_error_names(p, rep):
    rep.rule("each JavaScript error name stands for the prototype tag V8 writes for it, in both directions")
    ip = tables(p)
    c = p.cls("JSErrorName")
    et = p.cls("SerializationErrorTag")
    info = ip.enum_info(c)
    einfo = ip.enum_info(et)
    tag_of = {}
    for n, i in info.items():
        t = [v for v in i.values() if kind(v) == "enum" and v[1] == et.qual]
        tag_of[n] = t[0][2] if t else None
    rep.fn(c.qual)
    want = {v: k for k, v in v8spec.ERROR_NAMES.items()}
    for n, t in tag_of.items():
        rep.ob("error names compared")
        js = want.get(t)
        if t is not None and einfo[t]["_value_"] != C(v8spec.ERROR_TAGS.get(t)):
            js = next((want.get(k) for k, v in v8spec.ERROR_TAGS.items() if C(v) == einfo[t]["_value_"]), None)
        if _name_field(info[n]) != C(js):
            rep.viol("error-name", site(p, c, n),
                     f"the error name for prototype tag {t} is {show(_name_field(info[n]))}, JavaScript's is '{js}'")
    by_tag = {}
    for n, t in tag_of.items():
        by_tag.setdefault(t, []).append(n)
    for t in want:
        rep.require(len(by_tag.get(t, [])) == 1, "error-name", site(p, c),
                    f"{len(by_tag.get(t, []))} error names stand for prototype tag {t}", "error names compared")
    f = c.methods.get("for_error_tag")
    for t in (v8spec.ERROR_TAGS if f else ()):
        if t not in einfo:
            continue
        ps, ip2 = fn_paths(p, f, lambda ip, t=t: ([("enum", et.qual, t)], {}))
        rep.use(ps, ip2)
        exp = (by_tag.get(t) or by_tag.get(None) or [None])[0]
        for q in ps:
            rep.require(q.outcome == "return" and q.value == ("enum", c.qual, exp), "error-tag-lookup", f.qual,
                        f"the name for error tag {t} is {show(q.value)}, expected {exp}", "error lookups decided")
    f = c.methods.get("for_error_name")
    for js, t in (v8spec.ERROR_NAMES.items() if f else ()):
        ps, ip2 = fn_paths(p, f, lambda ip, js=js: ([C(js)], {}))
        rep.use(ps, ip2)
        exp = (by_tag.get(t) or [None])[0]
        for q in ps:
            rep.require(q.outcome == "return" and q.value == ("enum", c.qual, exp), "error-name-lookup", f.qual,
                        f"the JavaScript error name '{js}' is looked up as {show(q.value)}, expected {exp}", "error lookups decided")
    if f:
        ps, ip2 = fn_paths(p, f, lambda ip: ([C("CustomError")], {}))
        for q in ps:
            rep.require(q.outcome == "return" and q.value == ("enum", c.qual, (by_tag.get(None) or [None])[0]),
                        "error-name-lookup", f.qual, f"an unknown error name is looked up as {show(q.value)}, expected Error",
                        "error lookups decided")
    f = p.find_method(c, "error_tag")
    for n, t in (tag_of.items() if f else ()):
        ps, ip2 = fn_paths(p, f, lambda ip, n=n: ([("enum", c.qual, n)], {}))
        for q in ps:
            rep.require(q.value == (("enum", et.qual, t) if t else NONE), "error-name-tag", f.qual,
                        f"the tag of {n} is {show(q.value)}, expected {t}", "error lookups decided")
    rep.at_least("error lookups decided", 20)


# ------------------------------------------------------------------ features
def _ver(v):
    return ("call", ("ext", "packaging.version.Version"), (C(v),), (), 0)


def _feature_version(i):
    """The version term of a feature (None: unreleased), or a term that is neither."""
    for k, v in i.items():
        if k in ("_value_", "__int__"):
            continue
        if kind(v) == "call" and v[1] == ("ext", "packaging.version.Version") and len(v[2]) == 1:
            return v[2][0]
        if kind(v) == "enum" and v[1].endswith("SymbolicVersion"):
            return NONE
    return False


def check_feature_table(p, rep):
    rep.rule("each optional feature names the first V8 release able to read it; a target release enables exactly the "
             "features first readable in it or earlier, and a release older than the format is refused")
    ip = tables(p)
    c = p.cls("SerializationFeature")
    info = ip.enum_info(c)
    vers = {}
    for n, (val, ver) in v8spec.FEATURES.items():
        i = info.get(n)
        if i is None:
            rep.viol("feature", site(p, c), f"there is no feature {n}")
            continue
        got = _feature_version(i)
        if got is False:
            rep.undecided.append(f"the first version of feature {n} was not recognised")
            continue
        vers[n] = got
        rep.require(got == C(ver), "feature-version", site(p, c, n),
                    f"{n} is said to be readable from V8 {show(got)}, V8 reads it from {ver or 'an unreleased version'}",
                    "features compared")
    f = p.find_method(c, "first_v8_version")
    for n, (val, ver) in v8spec.FEATURES.items():
        if f is None or n not in info:
            continue
        ps, ip2 = fn_paths(p, f, lambda ip, n=n: ([("enum", c.qual, n)], {}))
        for q in ps:
            v = q.value
            got = v[2][0] if kind(v) == "call" and len(v) > 2 and v[2] else NONE
            rep.require(got == C(ver), "feature-version", f.qual, f"the first version reported for {n} is {show(v)}, expected {ver}",
                        "features compared")
    f = p.find_method(c, "supported_by")
    for kind_, mk in (("text", lambda ip: ([("cls", c.qual)], {"v8_version": ("sym", "v", "str")})),
                      ("version", lambda ip: ([("cls", c.qual)], {"v8_version": _v(ip)}))):
        ps, ip2 = fn_paths(p, f, mk)
        rep.use(ps, ip2)
        for q in ps:
            le = orders(q)
            if q.outcome == "raise":
                if q.exc_name() == "LookupError":
                    low = [t for (a, b), t in le.items() if _is_ver(a, v8spec.FEATURES["MaxCompatibility"][1])]
                    rep.require(low == [False], "feature-lookup", f.qual,
                                "a V8 version is refused although it is not older than the first release of the format",
                                "version selections decided")
                continue
            mask = ip2.flag_mask(q.value)
            if mask is None:
                rep.require(False, "feature-lookup", f.qual, f"the features of a version are {show(q.value)}")
                continue
            for n, (val, ver) in v8spec.FEATURES.items():
                st = [t for (a, b), t in le.items() if (_is_ver(a, ver) and not _is_feature_ver(b))]
                if val == 0:
                    rep.require(st == [True], "feature-lookup", f.qual,
                                "a V8 version older than the first release of the format is accepted", "version selections decided")
                    continue
                have = bool(mask[1] & val)
                rep.ob("version selections decided")
                if not st:
                    if have:
                        rep.viol("feature-lookup", f.qual, f"{n} is enabled without comparing its first version with the target version")
                    elif any(t for (a, b), t in le.items() if _is_ver(b, ver)):
                        pass
                    else:
                        rep.viol("feature-lookup", f.qual, f"{n} is left out without comparing its first version with the target version")
                elif have != st[0]:
                    rep.viol("feature-lookup", f.qual,
                             f"{n} is {'enabled' if have else 'left out'} for a V8 version {'older' if have else 'not older'} than {ver or 'its release'}")
    # the release an encoder says its output needs is that of its newest feature
    from itertools import combinations
    from .interp import version_key
    names = [n for n in v8spec.FEATURES if n in info]
    base = [n for n in names if not v8spec.FEATURES[n][0]]
    for k in range(len(names) - len(base) + 1):
        for combo in combinations([n for n in names if n not in base], k):
            src = "|".join("SerializationFeature." + n for n in (*base[:1], *combo))
            if not src:
                continue
            ps, ip2 = script(p, f"return Encoder(features={src}).first_v8_version", {}, None, "v8serialize.encode")
            rep.use(ps, ip2)
            want = [v8spec.FEATURES[n][1] for n in (*base, *combo)]
            want = (1, ()) if None in want else max((0, tuple(int(x) for x in v.split("."))) for v in want)
            for q in ps:
                got = version_key(q.value) if q.outcome == "return" else None
                if q.outcome != "return":
                    rep.viol("encoder-version", "Encoder.first_v8_version", f"fails with {q.exc_name()} for {src.replace('SerializationFeature.', '')}")
                elif got is None:
                    rep.undecided.append(f"Encoder.first_v8_version is {show(q.value)}, which is not understood")
                else:
                    rep.require(got == want, "encoder-version", "Encoder.first_v8_version",
                                f"{src.replace('SerializationFeature.', '')} is said to be readable from {show(q.value)}", "version selections decided")
    rep.at_least("version selections decided", 20)
    # the symbolic "unreleased" version is newer than every release
    s = p.cls("SymbolicVersion")
    f = s.methods.get("__lt__")
    if f is not None:
        ps, ip2 = fn_paths(p, f, lambda ip: ([("enum", s.qual, next(iter(ip.enum_info(s)))), ("sym", "other", "obj")], {}))
        for q in ps:
            rep.require(q.outcome != "return" or q.value in (C(False), ("ext", "builtins.NotImplemented"), C(NotImplemented)),
                        "unreleased", f.qual, f"the unreleased version compares as older than another version ({show(q.value)})",
                        "version selections decided")


def orders(q):
    """{(a, b): whether a <= b} the path established."""
    le = {}
    for a, t in q.atoms.items():
        if not isinstance(a, tuple) or not a:
            continue
        if a[0] == "le" and len(a) == 3:
            le[(a[1], a[2])] = t
        elif a[0] == "le0" and len(a[1]) == 2:
            co = dict(a[1])
            pos = [x for x, c in co.items() if c == 1]
            neg = [x for x, c in co.items() if c == -1]
            if len(pos) == len(neg) == 1:
                if a[2] == 0:
                    le[(pos[0], neg[0])] = t
                elif a[2] == 1:  # pos < neg
                    le[(neg[0], pos[0])] = not t
    return le


def _v(ip):
    v = ("sym", "v", "obj")
    ip.types[v] = ({"packaging.version.Version"}, {"str"})
    return v


def _is_ver(t, ver):
    if ver is None:
        return kind(t) == "enum" and t[1].endswith("SymbolicVersion")
    return kind(t) == "call" and t[1] == ("ext", "packaging.version.Version") and t[2] == (C(ver),)


def _is_feature_ver(t):
    return any(_is_ver(t, v) for _, v in v8spec.FEATURES.values())


# ------------------------------------------------------------------ gating
def flag_state(path, cls, bit, coll):
    """True/False/None: whether the path establishes that flag `bit` of cls is set in the flags value coll."""
    for a, t in path.atoms.items():
        if isinstance(a, tuple) and a and a[0] == "in" and kind(a[1]) == "flag" and a[1][1] == cls and coll(a[2]):
            if a[1][2] == bit:
                return t
            if t and a[1][2] & bit:
                return True
    return None


def features_state(p, path, name):
    c = p.cls("SerializationFeature")
    bit = v8spec.FEATURES[name][0]
    fx = ("sym", "features", "obj")
    return flag_state(path, c.qual, bit, lambda x: x == fx or (kind(x) == "ver" and x[1] == fx))


def writer_runs(p):
    if "w" not in _cache:
        tab, _ = writer_dispatch(p)
        out = []
        for tn in [t for t, _ in tab] + ["builtins.object"]:
            ps, ip = encode_paths(p, tn)
            out.append((f"TagWriter.encode({tn.rsplit('.', 1)[-1]})", ps, ip))
        for m in write_method_names(p):
            ps, ip = write_paths(p, m)
            out.append((f"WritableTagStream.{m}", ps, ip))
        _cache["w"] = out
    return _cache["w"]


_cache = {}
DIRECT = {"WritableTagStream.write_js_regexp", "WritableTagStream.write_js_array_buffer_view", "TagWriter.encode(JSRegExp)"}


def toks(path):
    return [e.extra for e in path.events if e.kind == "tok"]


def tag_name(t):
    return t[2] if kind(t) == "enum" and t[1].endswith("SerializationTag") else None


def check_gating(p, rep):
    rep.rule("on every writer path, output that older releases cannot read appears only where the path established that its "
             "feature is enabled; a refusal names a feature that the path established to be disabled")
    sf = p.cls("SerializationFeature")
    rx = p.cls("JSRegExpFlag")
    vt = p.cls("ArrayBufferViewTag")
    for label, ps, ip in writer_runs(p):
        rep.use(ps, ip)
        for q in ps:
            ts = toks(q)
            for i, t in enumerate(ts):
                if t.kind != "TAG":
                    continue
                n = tag_name(t.a)
                at = f"{label}"
                if n == "kResizableArrayBuffer":
                    rep.require(features_state(p, q, "ResizableArrayBuffers") is True, "gate", at,
                                "a resizable buffer is written although ResizableArrayBuffers may be disabled", "gated outputs decided")
                elif n == "kRegExp":
                    fl = _after(ts, i)
                    if fl is None:
                        continue
                    _regexp_gate(p, rep, q, ts, fl, at, rx)
                elif n == "kArrayBufferView":
                    _view_gate(p, rep, q, ts, i, at, vt, ip)
                elif n == "kError":
                    _error_gate(p, rep, q, at)
            if q.outcome == "raise" and q.exc_name() == "FeatureNotEnabledEncodeV8SerializeError":
                f = q.value.kwargs.get("feature_required") if isinstance(q.value, Obj) else None
                if f is None and isinstance(q.value, Obj):
                    f = q.value.fields.get("feature_required")
                rep.ob("refusals decided")
                name = f[2] if kind(f) == "enum" else None
                if name is None:
                    rep.viol("refusal", label, f"the refusal does not name the feature that is required ({show(f) if f else None})")
                elif features_state(p, q, name) is not False:
                    rep.viol("refusal", label, f"the value is refused for lack of {name} although {name} is not established to be disabled")
                elif label in DIRECT and name in ("RegExpUnicodeSets", "Float16Array"):
                    need = _needs(p, q, name, rx, vt)
                    rep.require(need, "refusal", label, f"the value is refused for lack of {name} although it may not need it")
    rep.at_least("gated outputs decided", 10)
    rep.at_least("refusals decided", 3)


def _needs(p, q, name, rx, vt):
    if name == "RegExpUnicodeSets":
        return any(isinstance(a, tuple) and a[0] == "in" and kind(a[1]) == "flag" and a[1][1] == rx.qual and a[1][2] == 256 and t
                   for a, t in q.atoms.items())
    f16 = ("enum", vt.qual, "kFloat16Array")
    for k, d in q.doms.items():
        if set(d) == {f16}:
            return True
    for a, t in q.atoms.items():
        if t and isinstance(a, tuple) and f16 in a:
            return True
        if t and isinstance(a, tuple) and a[0] == "isinstance" and "Float16" in show(a):
            return True
    return False


def _after(ts, i):
    """The last VARINT of the construct: a RegExp's flags."""
    vs = [t for t in ts[i + 1:] if t.kind == "VARINT"]
    return vs[-1].a if len(vs) >= 2 else None


def _regexp_gate(p, rep, q, ts, fl, at, rx):
    rep.ob("gated outputs decided")
    if features_state(p, q, "RegExpUnicodeSets") is True:
        return
    if is_int(fl):
        ok = not (fl[2] & 256)
    else:
        m = fl if kind(fl) in ("flag", "enum") else None
        if m is not None and kind(fl) == "flag":
            ok = not (fl[2] & 256)
        elif m is not None:
            ok = fl[2] != "UnicodeSets"
        else:
            srcs = [x for x in subterms(fl)]
            ok = flag_state(q, rx.qual, 256, lambda x: x in srcs or (kind(x) == "ver" and x[1] in srcs)) is False
    rep.require(ok, "gate", at, f"the flags {show(fl)} of a RegExp are written although they may include UnicodeSets while "
                                "RegExpUnicodeSets may be disabled")


def _view_gate(p, rep, q, ts, i, at, vt, ip):
    vs = [t for t in ts[i + 1:] if t.kind == "VARINT"]
    if len(vs) < 1 or q.outcome != "return":
        return
    tag = vs[0].a
    rep.ob("gated outputs decided")
    f16 = ("enum", vt.qual, "kFloat16Array")
    if features_state(p, q, "Float16Array") is not True:
        ok = False
        for base in [tag] + list(subterms(tag)):
            if kind(base) == "enum" and base[1] == vt.qual:
                ok = base != f16
                break
            if is_int(base) and base == tag:
                ok = base[2] != v8spec.VIEW_TAGS["kFloat16Array"]
                break
            if f16 in q.excl.get(base, ()):
                ok = True
            d = q.doms.get(base)
            if d is not None and f16 not in d and all(kind(x) == "enum" and x[1] == vt.qual for x in d):
                ok = True
        rep.require(ok, "gate", at, f"a view of type {show(tag)} is written although it may be Float16 while Float16Array may be disabled")
    if len(vs) >= 4:
        fl = vs[3].a
        st = features_state(p, q, "ResizableArrayBuffers")
        m = ip.flag_mask(fl)
        bits = m[1] if m else (fl[2] if is_int(fl) else None)
        if bits is None and kind(fl) == "enum":
            v = ip.enum_value(fl)
            bits = v[2] if is_int(v) else None
        rep.ob("gated outputs decided")
        if bits is None:
            rep.viol("view-flags", at, f"view flags {show(fl)} are not determined by the view and the features")
            return
        if st is not True:
            rep.require(bits == 0, "view-flags", at, f"view flags {bits} are written although ResizableArrayBuffers may be disabled, "
                                                     "while the buffer is written with a fixed length then")
        else:
            for bit, prop in ((2, "is_backing_buffer_resizable"), (1, "is_length_tracking")):
                want = _prop_truth(q, prop)
                if want is None and _backed_by_bytearray(q):
                    rep.require(not bits & bit, "view-flags", at, f"view flag {bit} is set for a view of a bytearray, which is "
                                                                  "written as a buffer of a fixed length")
                if want is None and at != "WritableTagStream.write_js_array_buffer_view":
                    continue  # computed from the concrete view's buffer
                rep.require(want == bool(bits & bit), "view-flags", at,
                            f"view flag {bit} is {'set' if bits & bit else 'clear'} where the view's {prop} is {want}")


def _backed_by_bytearray(q):
    return any(t is True and isinstance(a, tuple) and a[0] == "isinstance" and a[2] in (("cls", "bytearray"), ("ext", "builtins.bytearray"))
               and show(a[1]).endswith(".backing_buffer") for a, t in q.atoms.items())


def _prop_truth(q, prop):
    for a, t in q.atoms.items():
        if isinstance(a, tuple) and a[0] == "truthy" and kind(a[1]) == "attr" and a[1][2] == prop:
            return t
    for k, d in q.doms.items():
        if kind(k) == "attr" and k[2] == prop and len(d) == 1:
            v = next(iter(d))
            if is_c(v):
                return bool(v[2])
    return None


def _error_gate(p, rep, q, at):
    ts = seq(q)
    start = next(i for i, t in enumerate(ts) if t.kind == "TAG" and tag_name(t.a) == "kError")
    nest = next((i for i, t in enumerate(ts) if i > start and t.kind == "NEST"), None)
    if nest is None:
        return
    rep.ob("gated outputs decided")
    recs = [t for t in ts[:nest] if t.kind == "REC"]
    if features_state(p, q, "CircularErrorCause") is True:
        return
    if not recs:
        # nothing can refer to the error while its cause is written
        return
    sid = recs[-1].b
    rep_ = [t for t in ts[:nest] if t.kind == "REPLACE" and t.a == sid]
    ok = bool(rep_) and isinstance(rep_[-1].b, Obj) and rep_[-1].b.cls is not None and rep_[-1].b is not recs[-1].a
    if ok:
        after = ts[ts.index(rep_[-1]):nest]
        ok = not any(t.kind == "SETATTR" and isinstance(t.a, tuple) and t.a[0] == "attr" and t.a[1] is rep_[-1].b for t in after)
    rep.require(ok, "gate", at, "an error can be referenced from its own cause although CircularErrorCause may be disabled")
