"""Collects what a check examined and what it found."""

from __future__ import annotations


class Report:
    def __init__(self, pid):
        self.pid = pid
        self.violations = []  # (key, site, message)
        self.counts = {}
        self.functions = set()
        self.samples = {}
        self.rules = []
        self.notes = []
        self._seen = set()
        self.undecided = []

    def ob(self, kind, n=1):
        """n obligations of this kind were decided."""
        self.counts[kind] = self.counts.get(kind, 0) + n

    def fn(self, *quals):
        self.functions.update(quals)

    def use(self, ps, ip=None):
        self.ob("abstract paths", len(ps))
        if ip is not None:
            self.functions.update(ip.analysed)

    def viol(self, key, site, msg):
        k = (key, site, msg)
        if k not in self._seen:
            self._seen.add(k)
            self.violations.append(k)

    def rule(self, text):
        if text not in self.rules:
            self.rules.append(text)

    def require(self, cond, key, site, msg, kind=None):
        if kind:
            self.ob(kind)
        if not cond:
            self.viol(key, site, msg)
        return cond

    def at_least(self, kind, n):
        """The rule must have had something to decide, or it says nothing."""
        have = self.counts.get(kind, 0)
        if have < n:
            self.undecided.append(f"only {have} of at least {n} expected '{kind}' were found in the source")
