"""Interpreting a single function or method of the package with symbolic arguments."""

from __future__ import annotations

from .interp import Config, Frame, Interp, _module_func
from .terms import C


class FnConfig(Config):
    max_paths = 5000
    recursion = 5

    def __init__(self, exc=None, assert_mode="assume", may=None, call=None):
        self.exc_mode = exc or "handlers"
        self.assert_mode = assert_mode
        self._may, self._call = may, call

    def may_raise(self, ip, f):
        return self._may(ip, f) if self._may else False

    def on_call(self, ip, f, args, kwargs, node, frame):
        return self._call(ip, f, args, kwargs, node, frame) if self._call else NotImplemented


def frame_of(ip, func):
    return Frame(-1, _module_func(func.module))


def fn_paths(p, func, mk, cfg=None):
    """Paths of func; mk(ip) -> (args, kwargs)."""
    ip = Interp(p, cfg or FnConfig())

    def setup(ip):
        args, kw = mk(ip)
        ip.roots = list(args) + list(kw.values())
        ip.ctx = {"args": args, "kw": kw}
        del ip.events[:]
        return ip.call_func(func, args, kw, None, frame_of(ip, func))

    return ip.explore(setup), ip


def script(p, src, params, cfg=None, module="v8serialize.encode", extra=None):
    """Paths of a scenario written in Python, interpreted in a module of the package.

    params: {name: term or function of the interpreter}; extra: names bound besides the module's own.
    """
    import ast
    import textwrap

    from .project import Func
    m = p.modules[module]
    tree = ast.parse(f"def scenario({', '.join(params)}):\n" + textwrap.indent(textwrap.dedent(src).strip("\n"), "    ") + "\n")
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            c._parent = n
        if hasattr(n, "lineno"):
            n.lineno += 1_000_000  # never mistaken for a node of the package
    func = Func(f"{module}.<scenario {abs(hash(src)) % 10**8}>", tree.body[0], m)
    return fn_paths(p, func, lambda ip: ([v(ip) if callable(v) else v for v in params.values()], {}), cfg)


def iterated(p, cn, expr, cfg, extra=None):
    """Paths of iterating `expr`, where o is an arbitrary object of class cn; sunk(q) gives what each iteration produced."""
    c = p.cls(cn)

    def mk(ip):
        o = ip.new_obj(c)
        o.symbolic, o.name = True, "self"
        return o
    return script(p, f"for item in {expr}:\n    sink(item)", {"o": mk, "sink": ("sym", "sink", "obj"), **(extra or {})}, cfg, c.module.name)


def sunk(q):
    return [e.args[0] for e in q.events if e.kind == "call" and e.f == ("sym", "sink", "obj")]


def looped(q):
    """What the loops of this path that ran at all iterate over."""
    return [lp["iter"] for lp in q.loops.values() if lp["entered"]]


def _sub(t):
    yield t
    if isinstance(t, tuple):
        for x in t:
            yield from _sub(x)


def is_empty(q, t):
    """Whether the string or sequence t is known (not) to be empty on this path."""
    if q.doms.get(t) in (frozenset([C("")]), {""}):
        return True
    if C("") in q.excl.get(t, ()) or "" in q.excl.get(t, ()):
        return False
    for a, v in q.atoms.items():
        if a[0] in ("eq", "is") and t in a[1:] and C("") in a[1:]:
            return v
        if a[0] == "truthy" and a[1] == t:
            return not v
        if a[0] == "eq0" and any(s == ("len", t) for s in _sub(a)):
            return v
    return None
