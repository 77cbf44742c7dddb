"""functools for instrumented code: caches that take symbolic arguments."""
import functools as _f
from collections import namedtuple
from functools import *  # noqa: F401,F403

from .values import SymBool, SymInt, SymStr, SymDict

_Info = namedtuple("CacheInfo", ["hits", "misses", "maxsize", "currsize"])


def _check(x):
    """What functools needs: arguments that can be hashed."""
    if type(x) is tuple:
        for y in x:
            _check(y)
    elif type(x) not in (SymStr, SymInt, SymBool):
        hash(x)


def lru_cache(maxsize=128, typed=False):
    if callable(maxsize):
        return _wrap(maxsize, 128)
    return lambda fn: _wrap(fn, maxsize)


def cache(fn):
    return _wrap(fn, None)


def _wrap(fn, maxsize):
    d = SymDict()
    count = [0, 0]

    def wrapper(*args, **kw):
        key = args + tuple(x for k in sorted(kw) for x in (k, kw[k]))
        _check(key)
        e = d._find(key)
        if e is not None:
            count[0] += 1
            value = e[1]
            del d[e[0]]
            d[key] = value
            return value
        count[1] += 1
        value = fn(*args, **kw)
        d[key] = value
        if maxsize is not None and len(d) > maxsize:
            d.popitem(last=False)
        return value

    def cache_clear():
        d.clear()
        count[:] = [0, 0]

    _f.update_wrapper(wrapper, fn)
    wrapper.cache_clear = cache_clear
    wrapper.cache_info = lambda: _Info(count[0], count[1], maxsize, len(d))
    return wrapper
