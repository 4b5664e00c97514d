"""Shared by the rules: findings about named constructs of the program."""
import ast

from engine.compare import Result
from engine.front import dotted


class Report:
    def __init__(self, name):
        self.r = Result(name)
        self.items = []
        self.counts = {}
        self.functions = set()

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def add(self, key, where, detail):
        self.items.append({'key': '%s:%s' % (self.r.name, key), 'where': where, 'detail': detail})

    def result(self, need=None):
        """need: instances below which the rule has lost what it looks at"""
        r = self.r
        r.stats = {'functions': sorted(self.functions), 'call_sites': self.counts.get('call sites', 0),
                   'counts': {'rule_%s' % k.replace(' ', '_'): v for k, v in self.counts.items()}}
        for what, n in (need or {}).items():
            if self.counts.get(what, 0) < n:
                r.status, r.detail = 'anchor', 'only %d %s found, at least %d expected' % (
                    self.counts.get(what, 0), what, n)
                return self._plain(r)
        if self.items:
            r.status = 'violation'
            r.key, r.where, r.detail = self.items[0]['key'], self.items[0]['where'], self.items[0]['detail']
            r.items = self.items
        else:
            r.status = 'ok'
        return r

    def _plain(self, r):
        r.items = []
        return r


def where(module, node):
    return '%s:%d' % (module.rel, getattr(node, 'lineno', 0))


def keyword(call, name):
    for k in call.keywords:
        if k.arg == name:
            return k.value
    return None


def last(node):
    return (dotted(node) or '').split('.')[-1]
