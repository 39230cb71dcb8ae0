"""RegExp values: flags, sources, and their Python counterparts."""

from __future__ import annotations

from .fn import FnConfig, is_empty, script
from .interp import kind_
from .rules_buffers import subterms
from .terms import C, FALSE, NONE, TRUE, Obj, is_c, show

MOD = "v8serialize.jstypes.jsregexp"
PY = {"ASCII": 256, "DOTALL": 16, "IGNORECASE": 2, "LOCALE": 4, "MULTILINE": 8, "UNICODE": 32, "VERBOSE": 64}
JS = {"Global": 1, "IgnoreCase": 2, "Multiline": 4, "Sticky": 8, "Unicode": 16, "DotAll": 32, "Linear": 64, "HasIndices": 128, "UnicodeSets": 256}
TO_JS = {"DOTALL": "DotAll", "IGNORECASE": "IgnoreCase", "MULTILINE": "Multiline", "UNICODE": "UnicodeSets"}
TO_PY = {"IgnoreCase": "IGNORECASE", "Multiline": "MULTILINE", "DotAll": "DOTALL", "Unicode": "UNICODE", "UnicodeSets": "UNICODE"}
LETTER = {"Global": "g", "IgnoreCase": "i", "Multiline": "m", "Sticky": "y", "Unicode": "u", "DotAll": "s", "Linear": "l", "HasIndices": "d",
          "UnicodeSets": "v"}
ERR = "JSRegExpV8SerializeError"
PAT, THROW, S = ("sym", "pattern", "obj"), ("sym", "throw", "bool"), ("sym", "source", "str")


def label_of(p, c, n):
    f = p.find_method(p.cls(c), n)
    return f"{f.module.relpath}:{f.node.lineno} {f.qual.rsplit('.', 1)[-1]}"


def names(table, mask):
    return "|".join(n for n, b in table.items() if b & mask) or "no flag"


def value(ip, t, cn):
    """The bits of a flag value of class cn."""
    m = ip.flag_mask(t)
    if m is not None and m[0].rsplit(".", 1)[-1] == cn:
        return m[1]
    return t[2] if is_c(t) and isinstance(t[2], int) and not isinstance(t[2], bool) else None


def masks(table):
    out = [0]
    for b in table.values():
        out += [m | b for m in out]
    return sorted(out)


def check_flags(p, rep):
    rep.rule("every set of Python flags has the JavaScript flags of the same meaning and the other way round, and those with a flag that has no "
             "counterpart are refused")
    la = label_of(p, "JSRegExpFlag", "from_python_flags")
    for m in masks(PY):
        ps, ip = script(p, "return JSRegExpFlag.from_python_flags(RegexFlag(m))", {"m": C(m)}, FnConfig(), MOD)
        rep.use(ps, ip)
        want = sum(JS[TO_JS[n]] for n, b in PY.items() if b & m and n in TO_JS)
        for q in ps:
            rep.ob("flag sets decided")
            if q.outcome == "raise":
                if q.exc_name() != ERR or not m & PY["VERBOSE"]:
                    rep.viol("regexp-flags", la, f"{names(PY, m)} ends in {q.exc_name()}")
            elif m & PY["VERBOSE"]:
                rep.viol("regexp-flags", la, f"{names(PY, m)} is accepted although JavaScript has no counterpart of VERBOSE")
            elif value(ip, q.value, "JSRegExpFlag") is None:
                rep.undecided.append(f"{la}: flags {show(q.value)[:60]} are not understood")
            elif value(ip, q.value, "JSRegExpFlag") != want:
                rep.viol("regexp-flags", la, f"{names(PY, m)} becomes {names(JS, value(ip, q.value, 'JSRegExpFlag'))} instead of {names(JS, want)}")
    lb = label_of(p, "JSRegExpFlag", "as_python_flags")
    for m in masks(JS) + [512, 513, 1 << 20 | 2]:
        for throw in (True, False):
            ps, ip = script(p, "return JSRegExpFlag(m).as_python_flags(throw=throw)", {"m": C(m), "throw": C(throw)}, FnConfig(), MOD)
            rep.use(ps, ip)
            want = 0
            for n, b in JS.items():
                if b & m and n in TO_PY:
                    want |= PY[TO_PY[n]]
            no = bool(m & JS["Linear"])
            for q in ps:
                rep.ob("flag sets decided")
                if q.outcome == "raise":
                    if q.exc_name() != ERR or not no or not throw:
                        rep.viol("regexp-flags", lb, f"{names(JS, m)} ends in {q.exc_name()}" + ("" if throw else " although asked not to raise"))
                elif no:
                    if throw or q.value != NONE:
                        rep.viol("regexp-flags", lb, f"{names(JS, m)} is accepted although Python has no counterpart of Linear")
                elif value(ip, q.value, "RegexFlag") is None:
                    if q.value == NONE:
                        rep.viol("regexp-flags", lb, f"{names(JS, m)} is refused although Python has counterparts")
                    else:
                        rep.undecided.append(f"{lb}: flags {show(q.value)[:60]} are not understood")
                elif value(ip, q.value, "RegexFlag") != want:
                    rep.viol("regexp-flags", lb, f"{names(JS, m)} becomes {names(PY, value(ip, q.value, 'RegexFlag'))} instead of {names(PY, want)}")
    lc = label_of(p, "JSRegExpFlag", "__str__")
    for n, b in JS.items():
        ps, ip = script(p, "return JSRegExpFlag(m).__str__()", {"m": C(b)}, FnConfig(), MOD)
        rep.use(ps, ip)
        for q in ps:
            rep.ob("flag letters decided")
            t = q.value[2] if q.outcome == "return" and is_c(q.value) else None
            if t is None:
                rep.undecided.append(f"{lc}: letters {show(q.value)[:60]} are not understood")
            elif t != LETTER[n]:
                rep.viol("regexp-flags", lc, f"{n} is written {t!r} instead of {LETTER[n]!r}")
    ld = label_of(p, "JSRegExpFlag", "canonical")
    for m in [0, *JS.values(), 511, 512, 513, 1024 | 256, 1 << 20 | 2]:
        ps, ip = script(p, "return JSRegExpFlag(m).canonical", {"m": C(m)}, FnConfig(), MOD)
        rep.use(ps, ip)
        for q in ps:
            v = value(ip, q.value, "JSRegExpFlag") if q.outcome == "return" else None
            if q.outcome == "return" and v is None:
                rep.undecided.append(f"{ld}: {show(q.value)[:60]} is not understood")
            elif v != m & 511:
                rep.viol("regexp-flags", ld, f"bits {m:#x} become {q.exc_name() if v is None else hex(v)} instead of {m & 511:#x}")
    rep.at_least("flag sets decided", 100)


def check_made(p, rep):
    rep.rule("a RegExp has the source and flags given, an empty source being (?:), and is refused with both Unicode and UnicodeSets")
    c = p.cls("JSRegExp")
    la = f"{c.module.relpath}:{c.node.lineno} JSRegExp"
    for m in [0, *JS.values(), 17, 272, 273, 511, 511 - 16, 511 - 256]:
        ps, ip = script(p, "r = JSRegExp(source, JSRegExpFlag(m))\nreturn r.source, r.flags", {"source": S, "m": C(m)}, FnConfig(), MOD)
        rep.use(ps, ip)
        both = m & 272 == 272
        for q in ps:
            rep.ob("RegExps made decided")
            if q.outcome == "raise":
                if not both or q.exc_name() != "ValueError":
                    rep.viol("regexp-made", la, f"a RegExp with {names(JS, m)} cannot be made ({q.exc_name()})")
                continue
            if both:
                rep.viol("regexp-made", la, "a RegExp with both Unicode and UnicodeSets is accepted")
                continue
            src, fl = q.value[1] if kind_(q.value) == "tup" else (None, None)
            empty = is_empty(q, S)
            if src is None:
                rep.undecided.append(f"{la}: result is not understood")
            elif not (src == S and empty is False or src == C("(?:)") and empty is True):
                if empty is None and src == S:
                    rep.viol("regexp-made", la, "an empty source stays empty")
                elif is_c(src) or src == S:
                    rep.viol("regexp-made", la, f"source {show(src)} stands for {'an empty' if empty else 'another'} source")
                else:
                    rep.undecided.append(f"{la}: source {show(src)[:60]} is not understood")
            if src is not None and value(ip, fl, "JSRegExpFlag") != m:
                rep.viol("regexp-made", la, f"a RegExp made with {names(JS, m)} has {show(fl)}")
    rep.at_least("RegExps made decided", 15)


class _PatCfg(FnConfig):
    """The flag conversion and the compiler may fail in every way they can."""

    def __init__(self, p):
        super().__init__()
        rf = p.cls("JSRegExpFlag")
        self.conv = {rf.methods[n].qual for n in ("from_python_flags", "as_python_flags") if n in rf.methods}
        self.err = ("cls", p.cls(ERR).qual)

    def opaque_func(self, f):
        return f.qual in self.conv

    def may_raise(self, ip, f):
        n = f[1] if kind_(f) == "fn" else f[1][1] if kind_(f) == "bound" else None
        if n in self.conv or kind_(f) == "attr" and f[2] in ("as_python_flags", "from_python_flags"):
            return [self.err]
        if f == ("ext", "re.compile"):
            return [("ext", "re.error"), ("ext", "builtins.ValueError"), ("ext", "builtins.OverflowError")]
        if kind_(f) == "attr" and f[2] == "decode" or f == ("ext", "codecs.decode"):
            return [("ext", "builtins.UnicodeDecodeError")]
        return False


TRY = ("try:\n    result = {}\nexcept (JSRegExpV8SerializeError, re.error, UnicodeDecodeError, ValueError, OverflowError):\n    raise\n"
       "return result")


def _failures(rep, q, la, what):
    """Is the path one on which something failed, and is this told as it should be?"""
    fails = [e for e in q.events if e.kind == "raised"]
    throw = _truth(q, THROW)
    if q.outcome == "raise":
        if q.exc_name() == "ValueError" and not fails:
            return True  # both Unicode flags, which no Python flags become
        if q.exc_name() != ERR:
            rep.viol("regexp-error", la, f"{what} ends in {q.exc_name()}, which is not the library's own error")
        elif not fails:
            rep.viol("regexp-error", la, f"{what} is refused although nothing failed")
        elif throw is not True:
            rep.viol("regexp-error", la, f"{what} raises although asked not to")
        return True
    if fails:
        if q.value != NONE:
            rep.viol("regexp-error", la, f"{what} that cannot be converted gives a result")
        elif throw is not False:
            rep.viol("regexp-error", la, f"{what} that cannot be converted is not reported")
        return True
    return False


def _is_bytes(q, t):
    """Whether the value is known (not) to be bytes."""
    yes, no = q.types.get(t, ((), ()))
    if yes and not yes & {"bytes", "str"} or yes >= {"bytes", "str"}:
        yes = set()
    if "bytes" in yes or "str" in no:
        return True
    if "str" in yes or "bytes" in no:
        return False
    return None


def _truth(q, t):
    d = q.doms.get(t)
    if d is not None and len(d) == 1:
        return next(iter(d)) in (TRUE, True)
    for a, v in q.atoms.items():
        if a[0] == "truthy" and a[1] == t:
            return v
        if a[0] == "eq0" and a[1] == (t, 1) or a[0] == "eq0" and isinstance(a[1], tuple) and ((t, 1),) == a[1]:
            return not v
        if a[0] in ("is", "eq") and t in a[1:] and (TRUE in a[1:] or FALSE in a[1:]):
            return v if TRUE in a[1:] else not v
    iv = q.ivals.get(((t, 1),))
    if iv == (0, 0):
        return False
    return None


def check_patterns(p, rep):
    rep.rule("a Python pattern gives a RegExp of its source and flags, and a RegExp a pattern compiled from its source and flags; any failure "
             "is the library's own error, or None when asked")
    la = label_of(p, "JSRegExp", "from_python_pattern")
    ps, ip = script(p, TRY.format("JSRegExp.from_python_pattern(pattern, throw=throw)"), {"pattern": PAT, "throw": THROW}, _PatCfg(p), MOD)
    rep.use(ps, ip)
    text = ("attr", PAT, "pattern")
    for q in ps:
        rep.ob("conversions decided")
        if _failures(rep, q, la, "a Python pattern"):
            continue
        r = q.value
        if not (isinstance(r, Obj) and r.cls is not None and r.cls.name == "JSRegExp"):
            if r == NONE:
                rep.viol("regexp-pattern", la, "a Python pattern is refused although nothing failed")
            else:
                rep.undecided.append(f"{la}: result {show(r)[:60]} is not understood")
            continue
        src, fl = r.fields.get("source"), r.fields.get("flags")
        is_bytes = _is_bytes(q, text)
        ok = src == text or any(s == text for s in subterms(src)) and kind_(src) == "call" and (
            kind_(src[1]) == "attr" and src[1][2] == "decode" and not _codec(src) or src[1] == ("ext", "builtins.str") and len(
                src[2]) + len(src[3]) > 1 and not _codec(("call", 0, src[2][1:], src[3]))) or src == C("(?:)")
        if not ok:
            if _codec(src) and kind_(src) == "call" and all(is_c(x) for x in src[2]) and all(is_c(x) for _n, x in src[3]):
                rep.viol("regexp-pattern", la, f"the source of a bytes pattern is decoded by {show(src)[:60]} and not strictly as UTF-8")
            elif any(kind_(s) == "call" and s[1] in (("ext", "re.escape"),) or kind_(s) == "attr" and s[2] in ("strip", "lower", "encode")
                   for s in subterms(src)) or not any(s == text for s in subterms(src)):
                rep.viol("regexp-pattern", la, f"the RegExp's source is {show(src)[:60]} and not the pattern's")
            else:
                rep.undecided.append(f"{la}: source {show(src)[:60]} is not understood")
        elif src == text and is_bytes is not False:
            if is_bytes is None:
                rep.undecided.append(f"{la}: how bytes patterns are told apart is not understood")
            else:
                rep.viol("regexp-pattern", la, "the source of a bytes pattern is left as bytes")
        given = [e for e in q.events if e.kind == "call" and e.f == ("fn", next((c for c in ip.cfg.conv if c.endswith("from_python_flags")), None))]
        if not given:
            rep.viol("regexp-pattern", la, "the pattern's flags are not converted") if is_c(fl) or ip.flag_mask(fl) else rep.undecided.append(
                f"{la}: flags {show(fl)[:60]} are not understood")
        elif not any(s == ("attr", PAT, "flags") for s in subterms(given[-1].args)):
            rep.viol("regexp-pattern", la, "the flags converted are not the pattern's")
        elif not (kind_(fl) == "call" and fl[1] == given[-1].f):
            rep.viol("regexp-pattern", la, f"the RegExp's flags are {show(fl)[:60]} and not the converted ones")
    rep.at_least("conversions decided", 4)
    lb = label_of(p, "JSRegExp", "as_python_pattern")

    def mk(ip):
        o = ip.new_obj(p.cls("JSRegExp"))
        o.symbolic, o.name = True, "regexp"
        o.fields["source"] = S
        return o
    ps, ip = script(p, TRY.format("regexp.as_python_pattern(throw=throw)"), {"regexp": mk, "throw": THROW}, _PatCfg(p), MOD)
    rep.use(ps, ip)
    for q in ps:
        rep.ob("conversions decided")
        if _failures(rep, q, lb, "a RegExp"):
            continue
        v = q.value
        if not (kind_(v) == "call" and v[1] == ("ext", "re.compile")):
            if v == NONE:
                ok = [e for e in q.events if e.kind == "call" and e.f == ("ext", "re.compile")]
                rep.viol("regexp-pattern", lb, "a RegExp is refused although " + ("it compiles" if ok else "nothing failed"))
            else:
                rep.undecided.append(f"{lb}: result {show(v)[:60]} is not understood")
            continue
        a, kw = list(v[2]), dict(v[3])
        src, fl = a[0] if a else kw.get("pattern"), a[1] if len(a) > 1 else kw.get("flags", C(0))
        if src != S:
            rep.viol("regexp-pattern", lb, f"{show(src)[:60]} is compiled and not the RegExp's source")
        if not (kind_(fl) == "call" and any(kind_(s) == "fn" and s[1].endswith("as_python_flags") or kind_(s) == "attr" and s[2] == "as_python_flags" and
                                               isinstance(s[1], tuple) and s[1][-1] == "flags" for s in subterms(fl))):
            if kind_(fl) in ("call", "op"):
                rep.undecided.append(f"{lb}: flags {show(fl)[:60]} are not understood")
            else:
                rep.viol("regexp-pattern", lb, f"it is compiled with flags {show(fl)[:60]} and not those of the RegExp")
    rep.at_least("conversions decided", 8)


def _codec(t):
    """A decoding other than UTF-8, or one that hides errors."""
    a, kw = list(t[2]), dict(t[3])
    enc = a[0] if a else kw.get("encoding")
    return enc is not None and not (is_c(enc) and str(enc[2]).lower().replace("_", "-") in ("utf-8", "utf8")) or len(a) > 1 or "errors" in kw
