"""Matching token sequences of abstract paths against format grammars.

Patterns are regular: a loop of the analysed code is one arbitrary iteration,
so a repetition in the grammar has to match the body of every loop.
"""

from __future__ import annotations

from .reader import seq


class Loop:
    def __init__(self, tok, items, how):
        self.tok, self.items, self.how = tok, items, how
        self.kind = "LOOP"

    def loc(self):
        return self.tok.loc()

    def __repr__(self):
        return f"LOOP{self.items}"


def tree(toks, keep):
    """Nest LOOP..ENDLOOP; keep only token kinds in keep."""
    stack = [[]]
    marks = []
    for t in toks:
        if t.kind == "LOOP":
            stack.append([])
            marks.append(t)
        elif t.kind == "ENDLOOP":
            if not marks:
                continue
            items = stack.pop()
            m = marks.pop()
            if items and is_exit(m, t):
                stack[-1].extend(items)
            elif items:
                stack[-1].append(Loop(m, items, t.b))
        elif keep is None or t.kind in keep:
            stack[-1].append(t)
    while marks:  # a path that leaves the loop by return/raise
        items = stack.pop()
        marks.pop()
        stack[-1].extend(items)
    return stack[0]


def is_exit(start, end):
    """The iteration that leaves the loop: what it does happens once."""
    return str(start.b[2]) == "exit" or str(end.b[2]) in ("break", "return", "raise")


class M:
    """A match in progress: bindings and the furthest mismatch."""

    def __init__(self, path):
        self.path = path
        self.env = {}
        self.far = -1
        self.why = None
        self.at = None

    def fail(self, pos, tok, why):
        if pos >= self.far:
            self.far, self.at, self.why = pos, tok, why


def T(*names):
    """A tag (one of names) of any tag enum."""
    def f(t, m):
        if t.kind != "TAG":
            return f"expected tag {'/'.join(names)}"
        ds = tagnames(t, m.path)
        if ds is None or not ds <= set(names):
            return f"expected tag {'/'.join(names)}, found {sorted(ds) if ds else t!r}"
        return None
    return ("tok", f)


def tagnames(t, path):
    """Possible tag names of a TAG token."""
    a = path.q.value_of(t.a)
    if isinstance(a, tuple) and a and a[0] == "enum":
        return {a[2]}
    d = path.q.dom(a) if isinstance(a, tuple) else None
    if d is None and isinstance(a, tuple) and a in path.doms:
        d = path.doms[a]
    if d is None and t.facts:
        d = t.facts
    if d:
        return {x[2] for x in d if isinstance(x, tuple) and x[0] == "enum"}
    return None


def K(kind, pred=None, what=""):
    def f(t, m):
        if t.kind != kind:
            return f"expected {what or kind}"
        if pred is None:
            return None
        r = pred(t, m)
        if r is True or r is None:
            return None
        return r or f"{what or kind} does not hold: {t!r}"
    return ("tok", f)


def S(*ps):
    return ("seq", ps)


def STAR(p):
    return ("star", p)


def OPT(p):
    return ("alt", (p, ("seq", ())))


def ALT(*ps):
    return ("alt", ps)


def match(p, items, i, m):
    """Yield the positions after a match of p at items[i:]."""
    k = p[0]
    if k == "tok":
        if i < len(items):
            t = items[i]
            if isinstance(t, Loop):
                m.fail(i, t.items[0], "unexpected repetition")
                return
            save = m.env
            m.env = dict(save)
            why = p[1](t, m)
            if why is None:
                yield i + 1
                m.env = save
            else:
                m.env = save
                m.fail(i, t, why)
        else:
            m.fail(i, items[-1] if items else None, "data ends early: " + (p[1](_End, m) or ""))
    elif k == "mark":
        save = m.env
        m.env = dict(save)
        p[1](m)
        yield i
        m.env = save
    elif k == "seq":
        yield from match_seq(p[1], 0, items, i, m)
    elif k == "alt":
        for q in p[1]:
            yield from match(q, items, i, m)
    elif k == "star":
        yield from match_star(p, items, i, m)


def match_star(p, items, i, m):
    yield i
    save = m.env
    if i < len(items) and isinstance(items[i], Loop):
        for e in match(p, items[i].items, 0, m):
            if e == len(items[i].items):
                yield from match_star(p, items, i + 1, m)
                break
    else:
        for e in match(p[1], items, i, m):
            if e > i:
                yield from match_star(p, items, e, m)
    m.env = save


class _EndTok:
    kind = "END"
    a = b = facts = None

    def __repr__(self):
        return "end"


_End = _EndTok()


def match_seq(ps, n, items, i, m):
    if n == len(ps):
        yield i
        return
    for j in match(ps[n], items, i, m):
        yield from match_seq(ps, n + 1, items, j, m)


def full(p, items, path):
    """None if items match p completely, else (token, reason)."""
    return full_env(p, items, path)[0]


def full_env(p, items, path, **attrs):
    """(None or (token, reason), bindings of the match)."""
    m = M(path)
    for k, v in attrs.items():
        setattr(m, k, v)
    for e in match(p, items, 0, m):
        if e == len(items):
            return None, m.env
        m.fail(e, items[e] if not isinstance(items[e], Loop) else items[e].items[0], "unexpected further data")
    return (m.at, m.why or "does not match"), m.env


def items_of(path, keep):
    return tree(seq(path), keep)
