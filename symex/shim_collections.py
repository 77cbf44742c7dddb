"""collections for instrumented code: mappings that take symbolic keys."""
from collections import *  # noqa: F401,F403
from collections import abc  # noqa: F401

from .values import SymDefaultDict, SymDict


class OrderedDict(SymDict):
    __slots__ = ()


class defaultdict(SymDefaultDict):
    __slots__ = ()


class Counter(SymDict):
    __slots__ = ()

    def __init__(self, items=(), **kw):
        SymDict.__init__(self)
        self.update(items, **kw)

    def __missing__(self, k):
        return 0

    def update(self, items=(), **kw):
        if hasattr(items, "items"):
            for k, n in items.items():
                self[k] = self[k] + n
        else:
            for k in items:
                self[k] = self[k] + 1
        for k, n in kw.items():
            self[k] = self[k] + n

    def most_common(self, n=None):
        out = sorted(self.items(), key=lambda e: -e[1])
        return out if n is None else out[:n]

    def elements(self):
        return iter([k for k, n in self.items() for _ in range(n)])

    def total(self):
        return sum(self.values())
