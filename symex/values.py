"""Symbolic booleans, integers and strings.

A symbolic string has a concrete length; each element is a 1-character str or a CV (a
character variable).  Operations give exactly what str gives for every assignment that
satisfies the path condition, forking where the result's shape depends on a character.
"""
import pathlib
import re as _re
import string as _string

from .engine import E, Control, Unsupported, f_and, f_not, f_or


class SymBool:
    __slots__ = ("f",)

    def __init__(self, f):
        self.f = f

    def __bool__(self):
        return E.branch(self.f)

    def __and__(self, o):
        return mkbool(f_and([self.f, fof(o)]))

    __rand__ = __and__

    def __or__(self, o):
        return mkbool(f_or([self.f, fof(o)]))

    __ror__ = __or__

    def __invert__(self):
        raise Unsupported("~bool")

    def __int__(self):
        return 1 if self else 0

    __index__ = __int__

    def __add__(self, o):
        return int(self) + o

    __radd__ = __add__

    def __eq__(self, o):
        return bool(self) == o

    def __ne__(self, o):
        return bool(self) != o

    __hash__ = None

    def __repr__(self):
        return "<SymBool>"


def mkbool(f):
    if f is True or f is False:
        return f
    if E.raw:
        return SymBool(f)
    r = E.ev(f)
    if r is not None:
        return r
    return SymBool(f)


def fof(x):
    if x is True or x is False:
        return x
    if isinstance(x, SymBool):
        return x.f
    return bool(x)


class SymInt:
    """v + off for an integer variable v."""

    __slots__ = ("v", "off")

    def __init__(self, v, off=0):
        self.v = v
        self.off = off

    def _cmp(self, o, op):
        if isinstance(o, SymInt):
            if o.v == self.v:
                return op(self.off, o.off)
            o = int(o)
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, (int, float)):
            lo = E.kind[self.v]
            m, full = 0, E.full[self.v]
            for i in range(full.bit_length()):
                if op(lo + i + self.off, o):
                    m |= 1 << i
            if not m:
                return False
            return mkbool(("c", self.v, m))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __hash__(self):
        return hash(int(self))

    def __int__(self):
        lo = E.kind[self.v]
        while True:
            d = E.doms[self.v]
            low = (d & -d).bit_length() - 1
            if not d & (d - 1):
                return lo + low + self.off
            n = bin(d).count("1")
            if n > 3:  # halve first, so that ranges stay balanced
                bits = [i for i in range(d.bit_length()) if d >> i & 1]
                m = 0
                for i in bits[: n // 2]:
                    m |= 1 << i
                E.branch(("c", self.v, m))
            else:
                E.branch(("c", self.v, 1 << low))

    __index__ = __int__
    __trunc__ = __int__

    def __float__(self):
        return float(int(self))

    def __add__(self, o):
        if type(o) is int:
            return SymInt(self.v, self.off + o)
        if isinstance(o, SymInt):
            return int(self) + int(o)
        if isinstance(o, (float, bool)):
            return int(self) + o
        return NotImplemented

    __radd__ = __add__

    def __sub__(self, o):
        if type(o) is int:
            return SymInt(self.v, self.off - o)
        if isinstance(o, SymInt):
            if o.v == self.v:
                return self.off - o.off
            return int(self) - int(o)
        if isinstance(o, (float, bool)):
            return int(self) - o
        return NotImplemented

    def __rsub__(self, o):
        return o - int(self)

    def __neg__(self):
        return -int(self)

    def __abs__(self):
        return abs(int(self))

    def __mul__(self, o):
        return int(self) * (int(o) if isinstance(o, SymInt) else o)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return int(self) // o

    def __rfloordiv__(self, o):
        return o // int(self)

    def __truediv__(self, o):
        return int(self) / o

    def __rtruediv__(self, o):
        return o / int(self)

    def __mod__(self, o):
        return int(self) % o

    def __divmod__(self, o):
        return divmod(int(self), o)

    def __bool__(self):
        return bool(self != 0)

    def __format__(self, spec):
        return format(int(self), spec)

    def __str__(self):
        return str(int(self))

    def __repr__(self):
        return repr(int(self))

    def __round__(self, *a):
        return round(int(self), *a)

    def __floor__(self):
        return int(self)

    __ceil__ = __floor__

    def is_integer(self):
        return True


class CV:
    """A character variable."""

    __slots__ = ("id",)

    def __init__(self, id_):
        self.id = id_

    def __repr__(self):
        return "<CV %d>" % self.id


def ceq(a, b):
    """Formula: characters a and b are equal."""
    if type(a) is str:
        if type(b) is str:
            return a == b
        a, b = b, a
    if type(b) is str:
        i = E.atoms.exact_index(b)
        if i is None:
            if E.atoms.index(b) < 0:
                return False
            if not E.doms[a.id] >> E.atoms.index(b) & 1:
                return False
            raise Unsupported("comparison with %r, which is no atom" % b)
        m = 1 << i
        if E.raw:
            return ("c", a.id, m)
        d = E.doms[a.id]
        if not d & m:
            return False
        if d == m:
            return True
        return ("c", a.id, m)
    if a.id == b.id:
        return True
    return ("e", a.id, b.id)


def cin(c, mask):
    """Does character c belong to mask?  Forks."""
    if type(c) is str:
        i = E.atoms.index(c)
        return bool(mask >> i & 1)
    d = E.doms[c.id]
    x = d & mask
    if not x:
        return False
    if x == d:
        return True
    return E.branch(("c", c.id, mask))


def cinf(c, mask):
    """Formula: character c belongs to mask."""
    if type(c) is str:
        return bool(mask >> E.atoms.index(c) & 1)
    d = E.doms[c.id]
    x = d & mask
    if not x:
        return False
    if x == d:
        return True
    return ("c", c.id, mask)


def mk(cs):
    """A string of the characters cs; a plain str if all are determined."""
    out = None
    sym = False
    for i, c in enumerate(cs):
        if type(c) is not str:
            s = E.single_char(c.id)
            if s is not None:
                if out is None:
                    out = list(cs)
                out[i] = s
            else:
                sym = True
    if out is None:
        out = cs
    if not sym:
        return "".join(out)
    return SymStr(out if type(out) is list else list(out))


def elems(s):
    if type(s) is str:
        return s
    if type(s) is SymStr:
        return s.cs
    if isinstance(s, str):
        return str(s)
    raise TypeError("expected str instance, %s found" % type(s).__name__)


def is_s(x):
    return isinstance(x, (str, SymStr))


def charmask(chars):
    """Mask for a set of characters given as a str; None if not expressible."""
    if type(chars) is SymStr:
        return None
    return E.atoms.chars(chars)


class SymStr:
    __slots__ = ("cs",)

    def __init__(self, cs):
        self.cs = cs

    # -- basics -------------------------------------------------------------------
    def __len__(self):
        return len(self.cs)

    def __iter__(self):
        for c in self.cs:
            yield c if type(c) is str else mk([c])

    def __getitem__(self, i):
        if isinstance(i, slice):
            if any(isinstance(x, SymInt) for x in (i.start, i.stop, i.step)):
                i = slice(*[int(x) if isinstance(x, SymInt) else x
                            for x in (i.start, i.stop, i.step)])
            return mk(self.cs[i])
        return mk([self.cs[i]])

    def __add__(self, o):
        if not is_s(o):
            return NotImplemented
        return mk(list(self.cs) + list(elems(o)))

    def __radd__(self, o):
        if not is_s(o):
            return NotImplemented
        return mk(list(elems(o)) + list(self.cs))

    def __mul__(self, n):
        return mk(list(self.cs) * int(n))

    __rmul__ = __mul__

    def eqf(self, o):
        if not is_s(o):
            return False
        oc = elems(o)
        if len(oc) != len(self.cs):
            return False
        fs = []
        for a, b in zip(self.cs, oc):
            f = ceq(a, b)
            if f is False:
                return False
            if f is not True:
                fs.append(f)
        return f_and(fs)

    def __eq__(self, o):
        return mkbool(self.eqf(o))

    def __ne__(self, o):
        return mkbool(f_not(self.eqf(o)))

    def __hash__(self):
        raise Unsupported("hash of a symbolic string")

    def __lt__(self, o):
        return _lt(self, o, False)

    def __le__(self, o):
        return _lt(self, o, True)

    def __gt__(self, o):
        return _lt(o, self, False)

    def __ge__(self, o):
        return _lt(o, self, True)

    def __contains__(self, o):
        return bool(contains(self, o))

    def __repr__(self):
        return "<SymStr %s>" % "".join(
            c if type(c) is str else "?" for c in self.cs
        )

    def __str__(self):
        raise Unsupported("native str() of a symbolic string")

    def __format__(self, spec):
        raise Unsupported("native format() of a symbolic string")

    def __mod__(self, o):
        return vs_mod(self, o)

    def __rmod__(self, o):
        return vs_mod(o, self)

    def isascii(self):
        return mkbool(f_and([cinf(c, (1 << 128) - 1) for c in self.cs]))

    # -- stripping ------------------------------------------------------------------
    def _inset(self, chars):
        if chars is None:
            m = E.atoms.SPACE
            return lambda c: cin(c, m)
        m = charmask(chars)
        if m is not None:
            return lambda c: cin(c, m)
        es = list(elems(chars))
        return lambda c: bool(mkbool(f_or([ceq(c, x) for x in es])))

    def lstrip(self, chars=None):
        t = self._inset(chars)
        i, n = 0, len(self.cs)
        while i < n and t(self.cs[i]):
            i += 1
        return mk(self.cs[i:])

    def rstrip(self, chars=None):
        t = self._inset(chars)
        n = len(self.cs)
        while n > 0 and t(self.cs[n - 1]):
            n -= 1
        return mk(self.cs[:n])

    def strip(self, chars=None):
        t = self._inset(chars)
        i, n = 0, len(self.cs)
        while i < n and t(self.cs[i]):
            i += 1
        while n > i and t(self.cs[n - 1]):
            n -= 1
        return mk(self.cs[i:n])

    # -- tests -----------------------------------------------------------------------
    def _at(self, sub, i):
        """Formula: sub occurs at i."""
        sc = elems(sub)
        if i < 0 or i + len(sc) > len(self.cs):
            return False
        fs = []
        for a, b in zip(self.cs[i : i + len(sc)], sc):
            f = ceq(a, b)
            if f is False:
                return False
            if f is not True:
                fs.append(f)
        return f_and(fs)

    def _bounds(self, start, end):
        n = len(self.cs)
        start, end, _ = slice(start, end).indices(n)
        return start, end

    def startswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(f_or([fof(self.startswith(q, start, end)) for q in p]))
        if not is_s(p):
            raise TypeError("startswith first arg must be str")
        if start is not None or end is not None:
            x = self[slice(start, end)]
            return lift(x).startswith(p)
        return mkbool(self._at(p, 0))

    def endswith(self, p, start=None, end=None):
        if isinstance(p, tuple):
            return mkbool(f_or([fof(self.endswith(q, start, end)) for q in p]))
        if not is_s(p):
            raise TypeError("endswith first arg must be str")
        if start is not None or end is not None:
            x = self[slice(start, end)]
            return lift(x).endswith(p)
        return mkbool(self._at(p, len(self.cs) - len(p)))

    def _all(self, key, fn):
        if not self.cs:
            return False
        m = E.atoms.pred(key, fn)
        return mkbool(f_and([cinf(c, m) for c in self.cs]))

    def isspace(self):
        return self._all("isspace", str.isspace)

    def isdigit(self):
        return self._all("isdigit", str.isdigit)

    def isdecimal(self):
        return self._all("isdecimal", str.isdecimal)

    def isnumeric(self):
        return self._all("isnumeric", str.isnumeric)

    def isalpha(self):
        return self._all("isalpha", str.isalpha)

    def isalnum(self):
        return self._all("isalnum", str.isalnum)

    def isprintable(self):
        return self._all("isprintable", str.isprintable)

    def isupper(self):
        raise Unsupported("isupper")

    def islower(self):
        raise Unsupported("islower")

    # -- searching ------------------------------------------------------------------
    def find(self, sub, start=None, end=None):
        start, end = self._bounds(start, end)
        k = len(sub)
        for i in range(start, end - k + 1):
            if mkbool(self._at(sub, i)):
                return i
        return -1

    def rfind(self, sub, start=None, end=None):
        start, end = self._bounds(start, end)
        k = len(sub)
        for i in range(end - k, start - 1, -1):
            if mkbool(self._at(sub, i)):
                return i
        return -1

    def index(self, *a):
        i = self.find(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def rindex(self, *a):
        i = self.rfind(*a)
        if i < 0:
            raise ValueError("substring not found")
        return i

    def count(self, sub, start=None, end=None):
        start, end = self._bounds(start, end)
        k = len(sub)
        if k == 0:
            return end - start + 1
        n, i = 0, start
        while i + k <= end:
            if mkbool(self._at(sub, i)):
                n += 1
                i += k
            else:
                i += 1
        return n

    # -- splitting and joining ------------------------------------------------------
    def split(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        cs, n = self.cs, len(self.cs)
        out = []
        if sep is None:
            sp = E.atoms.SPACE
            i = 0
            while True:
                while i < n and cin(cs[i], sp):
                    i += 1
                if i == n:
                    break
                if maxsplit >= 0 and len(out) >= maxsplit:
                    j = n
                    while j > i and cin(cs[j - 1], sp):
                        j -= 1
                    out.append(mk(cs[i:j]))
                    break
                j = i
                while j < n and not cin(cs[j], sp):
                    j += 1
                out.append(mk(cs[i:j]))
                i = j
            return out
        k = len(sep)
        if k == 0:
            raise ValueError("empty separator")
        i = start = 0
        while i + k <= n and (maxsplit < 0 or len(out) < maxsplit):
            if mkbool(self._at(sep, i)):
                out.append(mk(cs[start:i]))
                i += k
                start = i
            else:
                i += 1
        out.append(mk(cs[start:]))
        return out

    def rsplit(self, sep=None, maxsplit=-1):
        maxsplit = int(maxsplit)
        if maxsplit < 0:
            return self.split(sep)
        cs, n = self.cs, len(self.cs)
        out = []
        if sep is None:
            sp = E.atoms.SPACE
            j = n
            while True:
                while j > 0 and cin(cs[j - 1], sp):
                    j -= 1
                if j == 0:
                    break
                if len(out) >= maxsplit:
                    i = 0
                    while i < j and cin(cs[i], sp):
                        i += 1
                    out.append(mk(cs[i:j]))
                    break
                i = j
                while i > 0 and not cin(cs[i - 1], sp):
                    i -= 1
                out.append(mk(cs[i:j]))
                j = i
            return out[::-1]
        k = len(sep)
        j = n
        i = n - k
        while i >= 0 and len(out) < maxsplit:
            if mkbool(self._at(sep, i)):
                out.append(mk(cs[i + k : j]))
                j = i
                i -= k
            else:
                i -= 1
        out.append(mk(cs[:j]))
        return out[::-1]

    def splitlines(self, keepends=False):
        lb = E.atoms.LINEBREAK
        cs, n = self.cs, len(self.cs)
        out, i, start = [], 0, 0
        while i < n:
            if cin(cs[i], lb):
                j = i + 1
                if j < n:
                    f = f_and([ceq(cs[i], "\r"), ceq(cs[j], "\n")])
                    if mkbool(f):
                        j += 1
                out.append(mk(cs[start:j] if keepends else cs[start:i]))
                i = start = j
            else:
                i += 1
        if start < n:
            out.append(mk(cs[start:]))
        return out

    def join(self, items):
        out = []
        first = True
        for x in items:
            if not first:
                out.extend(self.cs)
            first = False
            out.extend(elems(x))
        return mk(out)

    def partition(self, sep):
        i = self.find(sep)
        if i < 0:
            return self[:], "", ""
        return self[:i], sep, self[i + len(sep) :]

    def rpartition(self, sep):
        i = self.rfind(sep)
        if i < 0:
            return "", "", self[:]
        return self[:i], sep, self[i + len(sep) :]

    def removeprefix(self, p):
        if self.startswith(p):
            return self[len(p) :]
        return self[:]

    def removesuffix(self, p):
        if len(p) and self.endswith(p):
            return self[: -len(p)]
        return self[:]

    def replace(self, old, new, count=-1):
        k = len(old)
        nc = elems(new)
        out = []
        if k == 0:
            m = 0
            for i, c in enumerate(self.cs):
                if count < 0 or m < count:
                    out.extend(nc)
                    m += 1
                out.append(c)
            if count < 0 or m < count:
                out.extend(nc)
            return mk(out)
        i, n, m = 0, len(self.cs), 0
        while i < n:
            if i + k <= n and (count < 0 or m < count) and mkbool(self._at(old, i)):
                out.extend(nc)
                i += k
                m += 1
            else:
                out.append(self.cs[i])
                i += 1
        return mk(out)

    def expandtabs(self, tabsize=8):
        out, col = [], 0
        nl = E.atoms.chars("\n\r")
        for c in self.cs:
            if mkbool(ceq(c, "\t")):
                if tabsize > 0:
                    k = tabsize - col % tabsize
                    out.extend(" " * k)
                    col += k
            else:
                out.append(c)
                col = 0 if cin(c, nl) else col + 1
        return mk(out)

    def ljust(self, w, fill=" "):
        return mk(list(self.cs) + list(fill) * max(0, int(w) - len(self.cs)))

    def rjust(self, w, fill=" "):
        return mk(list(fill) * max(0, int(w) - len(self.cs)) + list(self.cs))

    def center(self, w, fill=" "):
        w = int(w)
        pad = w - len(self.cs)
        if pad <= 0:
            return self[:]
        left = pad // 2 + (pad & w & 1)
        return mk(list(fill) * left + list(self.cs) + list(fill) * (pad - left))

    def zfill(self, w):
        raise Unsupported("zfill")

    def _case(self, key, fn):
        """Identity on characters that fn leaves alone; ASCII otherwise."""
        same = E.atoms.pred(key, lambda c: fn(c) == c)
        out = []
        for c in self.cs:
            if type(c) is str:
                out.append(fn(c))
            elif cin(c, same):
                out.append(c)
            else:
                out.append(fn(concretise(c)))
        return mk([x for y in out for x in (y if type(y) is str else [y])])

    def lower(self):
        return self._case("lower", str.lower)

    def casefold(self):
        return self._case("casefold", str.casefold)

    def upper(self):
        return self._case("upper", str.upper)

    def translate(self, table):
        out = []
        for c in self.cs:
            if type(c) is not str:
                keys = [k for k in table if type(k) is int]
                for k in keys:
                    if mkbool(ceq(c, chr(k))):
                        c = chr(k)
                        break
                else:
                    out.append(c)
                    continue
            out.extend(c.translate(table))
        return mk(out)

    def encode(self, *a):
        raise Unsupported("encode")

    def format(self, *a, **k):
        return vs_format(self, a, k)


def concretise(c):
    """Fork until character c is determined."""
    if type(c) is str:
        return c
    while True:
        s = E.single_char(c.id)
        if s is not None:
            return s
        d = E.doms[c.id]
        bits = [i for i in range(d.bit_length()) if d >> i & 1]
        if len(bits) > 40 or any(not E.atoms.is_single[i] for i in bits):
            raise Unsupported("concretisation of an open character")
        E.branch(("c", c.id, 1 << bits[0]))


def concretise_str(s):
    return "".join(concretise(c) for c in elems(s))


def lift(s):
    return s if type(s) is SymStr else SymStr(list(s))


def _lt(a, b, or_equal):
    if not is_s(a) or not is_s(b):
        return NotImplemented
    a, b = elems(a), elems(b)
    for x, y in zip(a, b):
        if mkbool(ceq(x, y)):
            continue
        return concretise(x) < concretise(y)
    return len(a) < len(b) or (or_equal and len(a) == len(b))


def contains(hay, needle):
    """needle in hay, for strings."""
    if not is_s(needle):
        raise TypeError("'in <string>' requires string as left operand")
    hay = lift(hay)
    k = len(needle)
    if k == 0:
        return True
    return mkbool(
        f_or([hay._at(needle, i) for i in range(len(hay.cs) - k + 1)])
    )


# -- sets with symbolic elements ---------------------------------------------------


def _among(x, ys):
    """Formula: x is one of ys."""
    fs = []
    for y in ys:
        f = _keyformula(x, y)
        if f is True:
            return True
        if f is not False:
            fs.append(f)
    return f_or(fs) if fs else False


def _all(fs):
    out = []
    for f in fs:
        if f is False:
            return False
        if f is not True:
            out.append(f)
    return f_and(out) if out else True


def _decide(fs):
    """Do all formulas hold?  Forks on each in turn while they are about one
    character, as a loop would, which is cheaper than one formula for all."""
    rest = []
    for f in fs:
        if f is False:
            return False
        if f is True:
            continue
        if f[0] == "c":
            if not E.branch(f):
                return False
        else:
            rest.append(f)
    return mkbool(f_and(rest)) if rest else True


def _members(o):
    return o.raw if isinstance(o, SymSet) else list(o)


class SymSet:
    """A set of symbolic strings, numbers and so on.

    raw may hold equal elements: they are told apart when that matters."""

    __slots__ = ("raw", "clean", "__weakref__")

    def __init__(self, items=()):
        self.raw = []
        self.clean = True  # no two elements of raw are equal
        for x in items:
            self.add(x)

    @property
    def items(self):
        if not self.clean:
            out = []
            for x in self.raw:
                if not any(bool(mkbool(_keyformula(x, y))) for y in out):
                    out.append(x)
            self.raw = out
            self.clean = True
        return self.raw

    @items.setter
    def items(self, items):
        self.raw = list(items)
        self.clean = False

    def add(self, x):
        if type(x) is list or isinstance(x, (dict, set, bytearray)) or type(x) is SymSet:
            raise TypeError("unhashable type: %r" % vs_type(x).__name__)
        f = _among(x, self.raw)
        if f is not True and mkbool(f) is not True:
            self.clean = self.clean and f is False
            self.raw.append(x)

    def update(self, *its):
        for it in its:
            for x in it:
                self.add(x)

    def discard(self, x):
        self.raw = [y for y in self.raw if not bool(mkbool(_keyformula(x, y)))]

    def remove(self, x):
        n = len(self.raw)
        self.discard(x)
        if len(self.raw) == n:
            raise KeyError("<symbolic>")

    def clear(self):
        self.raw = []
        self.clean = True

    def symmetric_difference(self, o):
        return (self - o) | (SymSet(o) - self)

    __xor__ = symmetric_difference
    __rxor__ = symmetric_difference

    def __ior__(self, o):
        self.update(o)
        return self

    def difference_update(self, *its):
        for it in its:
            for x in _members(it):
                self.discard(x)

    def __isub__(self, o):
        self.difference_update(o)
        return self

    def intersection_update(self, o):
        o = _members(o)
        self.raw = [x for x in self.raw if bool(mkbool(_among(x, o)))]

    def __iand__(self, o):
        self.intersection_update(o)
        return self

    def __len__(self):
        return len(self.items)

    def __bool__(self):
        return bool(self.raw)

    def __iter__(self):
        return iter(list(self.items))

    def has(self, x):
        return mkbool(_among(x, self.raw))

    def __contains__(self, x):
        return bool(self.has(x))

    def issubset(self, o):
        o = _members(o)
        return _decide(_among(x, o) for x in self.raw)

    __le__ = issubset

    def issuperset(self, o):
        return _decide(_among(x, self.raw) for x in _members(o))

    __ge__ = issuperset

    def __eq__(self, o):
        if not isinstance(o, (SymSet, set, frozenset)):
            return False
        o = _members(o)
        if not self.raw or not o:
            return not self.raw and not o
        fs = [_among(x, o) for x in self.raw]
        if len(o) > 1:
            fs += [_among(x, self.raw) for x in o]
        return False if any(f is False for f in fs) else _decide(fs)

    def __ne__(self, o):
        r = self == o
        return (not r) if type(r) is bool else mkbool(f_not(fof(r)))

    __hash__ = None

    def __lt__(self, o):
        return bool(self <= o) and not bool(self == o)

    def __gt__(self, o):
        return bool(self >= o) and not bool(self == o)

    def isdisjoint(self, o):
        f = f_or([g for g in (_among(x, self.raw) for x in _members(o)) if g is not False] or [False])
        return (not f) if f is True or f is False else mkbool(f_not(f))

    def union(self, *o):
        r = SymSet(self.raw)
        r.update(*[_members(x) for x in o])
        return r

    def __or__(self, o):
        return self.union(o)

    __ror__ = __or__

    def intersection(self, *os):
        r = SymSet(self.raw)
        for o in os:
            r.intersection_update(o)
        return r

    def __and__(self, o):
        return self.intersection(o)

    __rand__ = __and__

    def difference(self, *os):
        r = SymSet(self.raw)
        r.difference_update(*os)
        return r

    def __sub__(self, o):
        return self.difference(o)

    def __rsub__(self, o):
        return SymSet([x for x in _members(o) if not bool(self.has(x))])

    def pop(self):
        if not self.raw:
            raise KeyError("pop from an empty set")
        x = self.items[0]
        self.raw = self.raw[1:]
        return x

    def copy(self):
        r = SymSet()
        r.raw, r.clean = list(self.raw), self.clean
        return r

    __copy__ = copy


class SetLen:
    """The length of a SymSet, decided as far as it is compared with."""

    __slots__ = ("s",)

    def __init__(self, s):
        self.s = s.copy()

    def _least(self, n):
        """Formula: at least n different elements."""
        raw = self.s.raw
        if n <= 0:
            return True
        if n > len(raw):
            return False
        if n == 1:
            return True
        if n == 2:
            f = _all(_keyformula(raw[0], x) for x in raw[1:])
            return (not f) if f is True or f is False else f_not(f)
        return len(self.s) >= n

    def _cmp(self, o, f):
        if type(o) is int or type(o) is bool:
            return mkbool(f(o))
        return None

    def __ge__(self, o):
        r = self._cmp(o, self._least)
        return int(self) >= o if r is None else r

    def __gt__(self, o):
        r = self._cmp(o, lambda n: self._least(n + 1))
        return int(self) > o if r is None else r

    def __lt__(self, o):
        r = self >= o
        return mkbool(f_not(r.f)) if type(r) is SymBool else not r

    def __le__(self, o):
        r = self > o
        return mkbool(f_not(r.f)) if type(r) is SymBool else not r

    def __eq__(self, o):
        if type(o) in (int, bool):
            r, t = self._least(o), self._least(o + 1)
            if r is False or t is True:
                return False
            fs = ([] if r is True else [r]) + ([] if t is False else [f_not(t)])
            return mkbool(f_and(fs)) if fs else True
        return int(self) == o

    def __ne__(self, o):
        r = self == o
        return mkbool(f_not(r.f)) if type(r) is SymBool else not r

    def __hash__(self):
        return hash(int(self))

    def __bool__(self):
        return bool(self.s.raw)

    def __index__(self):
        return len(self.s)

    __int__ = __index__

    def __add__(self, o):
        return int(self) + o

    def __radd__(self, o):
        return o + int(self)

    def __sub__(self, o):
        return int(self) - o

    def __rsub__(self, o):
        return o - int(self)

    def __mul__(self, o):
        return int(self) * o

    __rmul__ = __mul__

    def __floordiv__(self, o):
        return int(self) // o

    def __mod__(self, o):
        return int(self) % o

    def __repr__(self):
        return repr(int(self))

    def __str__(self):
        return str(int(self))

    def __format__(self, spec):
        return format(int(self), spec)


def vs_len(x):
    if type(x) is SymSet and not x.clean:
        return SetLen(x)
    return len(x)


def has_sym(items):
    return any(type(x) is SymStr or _symtuple(x) for x in items)


def _symtuple(x):
    return type(x) is tuple and has_sym(x)


def vs_set(items=()):
    items = list(items)
    if not items or has_sym(items):
        return SymSet(items)
    return set(items)


def vs_frozenset(items=()):
    items = list(items)
    if has_sym(items):
        return SymSet(items)
    return frozenset(items)


# -- helpers called by instrumented code ----------------------------------------------

_DICTS = (dict,)


def vs_in(a, b):
    tb = type(b)
    if tb is SymDict or tb is SymDefaultDict:
        return b.__contains__(a)
    if tb is SymSet:
        return b.has(a)
    if type(a) is SymStr or _symtuple(a):
        if tb is str or tb is SymStr:
            return contains(b, a)
        if isinstance(b, (dict, set, frozenset)) or tb in (
            type({}.keys()),
        ):
            return any(bool(a == k) for k in list(b))
        if tb in (list, tuple) and type(a) is SymStr:
            return mkbool(f_or([fof(a == x) for x in b]))
        return a in b
    if tb is SymStr:
        return contains(b, a)
    if tb in (list, tuple) and type(a) is str and has_sym(b):
        return mkbool(f_or([fof(a == x) for x in b]))
    return a in b


def vs_getitem(b, k):
    if isinstance(b, SymDict):
        return b[k]
    if isinstance(b, dict) and (type(k) is SymStr or _symtuple(k)):
        for key in list(b):
            if k == key:
                return b[key]
        if hasattr(type(b), "__missing__"):
            raise Unsupported("missing symbolic key")
        raise KeyError("<symbolic>")
    return b[k]


def _any_sym(args):
    for a in args:
        t = type(a)
        if t is SymStr or t is SymInt:
            return True
        if t is tuple and _any_sym(a):
            return True
    return False


def vs_mcall(o, name, *args, **kw):
    t = type(o)
    if t is str:
        if name == "join":
            items = args[0]
            if type(items) not in (list, tuple):
                items = list(items)
            for x in items:
                if type(x) is SymStr:
                    return lift(o).join(items)
            return o.join(items)
        if _any_sym(args) or (kw and _any_sym(tuple(kw.values()))):
            if name == "format":
                return vs_format(o, args, kw)
            return getattr(lift(o), name)(*args, **kw)
        return getattr(o, name)(*args, **kw)
    if t is dict and args and _symkey(args[0]):
        if name in ("get", "pop", "setdefault"):
            for key in list(o):
                if args[0] == key:
                    return getattr(o, name)(key, *args[1:])
            if name == "get":
                return args[1] if len(args) > 1 else kw.get("default")
            if name == "pop" and len(args) > 1:
                return args[1]
            raise Unsupported("dict.%s with a symbolic key" % name)
    if name in ("open", "read_text", "write_text") and isinstance(o, pathlib.Path):
        from . import vfs

        return vfs.method(o, name, args, kw)
    return getattr(o, name)(*args, **kw)


def vs_attr(o, name):
    """A method that is not called at once."""
    if type(o) is str:
        return lambda *a, **k: vs_mcall(o, name, *a, **k)
    return getattr(o, name)


_STRMETHODS = {
    n for n in dir(str) if not n.startswith("_") and n not in ("maketrans",)
}


def vs_str(x="", *a):
    if type(x) is SymStr:
        return x
    if a:
        return str(x, *a)
    if isinstance(x, SymInt):
        return str(int(x))
    if isinstance(x, (str, int, float)):
        return str(x)
    m = type(x).__str__
    if isinstance(x, BaseException):
        if len(x.args) == 1:
            return vs_str(x.args[0])
        return vs_repr(x.args) if x.args else ""
    if m is object.__str__:
        return vs_repr(x)
    return m(x)


def vs_repr(x):
    """repr; of a symbolic string, without escapes (only diagnostics use it)."""
    t = type(x)
    if t is SymStr:
        return mk(["'"] + list(x.cs) + ["'"])
    if t in (list, tuple):
        inner = vs_mcall(", ", "join", [vs_repr(y) for y in x])
        if t is list:
            return "[" + inner + "]"
        return "(" + inner + ("," if len(x) == 1 else "") + ")"
    m = getattr(t, "__repr__")
    if getattr(m, "__module__", "") and hasattr(m, "__code__"):
        return m(x)
    return repr(x)


def vs_format1(x, conv, spec):
    if conv == "r":
        x = vs_repr(x)
    elif conv == "s":
        x = vs_str(x)
    elif conv == "a":
        x = ascii(x)
    if type(x) is SymStr:
        if not spec:
            return x
        m = _re.fullmatch(r"(?:(.)?([<>^]))?(\d+)?(?:\.(\d+))?s?", spec)
        if not m:
            raise Unsupported("format spec %r" % spec)
        if m.group(4) is not None:
            x = x[: int(m.group(4))]
        if m.group(3):
            w = int(m.group(3))
            fill = m.group(1) or " "
            x = lift(x)
            pad = max(0, w - len(x))
            al = m.group(2) or "<"
            if al == "<":
                return x.ljust(w, fill)
            if al == ">":
                return x.rjust(w, fill)
            left = pad // 2
            return mk(list(fill) * left + list(x.cs) + list(fill) * (pad - left))
        return x
    if isinstance(x, SymInt):
        x = int(x)
    if not spec:
        return vs_str(x)
    return format(x, spec)


def vs_fstr(*parts):
    out = []
    for p in parts:
        if type(p) is tuple:
            x, conv, spec = p
            if type(spec) is SymStr:
                spec = concretise_str(spec)
            p = vs_format1(x, conv, spec)
        out.extend(elems(p))
    return mk(out)


def vs_format(fmt, args, kw):
    if type(fmt) is SymStr:
        fmt = concretise_str(fmt)
    out = []
    auto = 0
    for lit, field, spec, conv in _string.Formatter().parse(fmt):
        out.extend(lit)
        if field is None:
            continue
        if field == "":
            obj = args[auto]
            auto += 1
        else:
            first, rest = _string._string.formatter_field_name_split(field)
            if type(first) is int:
                obj = args[first]
            else:
                obj = kw[first]
            for is_attr, n in rest:
                obj = getattr(obj, n) if is_attr else obj[n]
        if spec and "{" in spec:
            spec = vs_format(spec, args[auto:], kw)
        out.extend(elems(vs_format1(obj, conv, spec)))
    return mk(out)


_PCT = _re.compile(r"%(?:\((\w+)\))?([-#0 +]*)(\d+)?(?:\.(\d+))?([sdrxi%])")


def vs_mod(a, b):
    if type(a) is not str and type(a) is not SymStr:
        return a % b
    if type(a) is str and not (
        _any_sym((b,)) or (type(b) is dict and _any_sym(tuple(b.values())))
    ):
        return a % b
    if type(a) is SymStr:
        a = concretise_str(a)
    out, pos, n = [], 0, 0
    args = b if type(b) is tuple else (b,)
    for m in _PCT.finditer(a):
        lit = a[pos : m.start()]
        if "%" in lit:
            raise Unsupported("percent format")
        out.extend(lit)
        pos = m.end()
        if m.group(5) == "%":
            out.append("%")
            continue
        if m.group(1):
            x = b[m.group(1)]
        else:
            x = args[n]
            n += 1
        if m.group(2) or m.group(3) or m.group(4):
            raise Unsupported("percent format flags")
        if m.group(5) == "r":
            x = vs_repr(x)
        elif m.group(5) in "di":
            x = str(int(x))
        else:
            x = vs_str(x)
        out.extend(elems(x))
    if "%" in a[pos:]:
        raise Unsupported("percent format")
    out.extend(a[pos:])
    return mk(out)


def vs_int(x=0, *a):
    if type(x) is SymStr:
        s = lift(x).strip()
        if type(s) is SymStr:
            dec = E.atoms.pred("isdecimal", str.isdecimal)
            ok = E.atoms.chars("+-_0123456789")
            for c in s.cs:
                if type(c) is not str and not cin(c, dec | ok):
                    raise ValueError("invalid literal for int(): <symbolic>")
            s = concretise_str(s)
        return int(s, *a)
    if isinstance(x, SymInt):
        return x
    return int(x, *a)


def vs_ord(x):
    if type(x) is SymStr:
        return ord(concretise(x.cs[0]))
    return ord(x)


class _ShimMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, cls.__dict__["_real"]) or isinstance(
            x, cls.__dict__["_sym"]
        )

    def __subclasscheck__(cls, c):
        return issubclass(c, cls.__dict__["_real"]) or issubclass(
            c, cls.__dict__["_sym"]
        )

    def __call__(cls, *a, **k):
        return cls.__dict__["_conv"](*a, **k)

    def __getattr__(cls, name):
        real = cls.__dict__["_real"]
        if real is str and name in _STRMETHODS:
            def meth(self, *a, **k):
                return vs_mcall(self, name, *a, **k)

            return meth
        return getattr(real, name)

    def __eq__(cls, o):
        return o is cls or o is cls.__dict__["_real"] or o is cls.__dict__["_sym"]

    def __hash__(cls):
        return hash(cls.__dict__["_real"])

    def __or__(cls, o):
        return cls.__dict__["_real"] | o

    def __ror__(cls, o):
        return o | cls.__dict__["_real"]


class StrShim(metaclass=_ShimMeta):
    _real = str
    _sym = SymStr
    _conv = staticmethod(vs_str)


class IntShim(metaclass=_ShimMeta):
    _real = int
    _sym = SymInt
    _conv = staticmethod(vs_int)


class SetShim(metaclass=_ShimMeta):
    _real = set
    _sym = SymSet
    _conv = staticmethod(vs_set)


class FrozenSetShim(metaclass=_ShimMeta):
    _real = frozenset
    _sym = SymSet
    _conv = staticmethod(vs_frozenset)


def vs_type(x, *a):
    if a:
        return type(x, *a)
    t = type(x)
    if t is SymStr:
        return StrShim
    if t is SymInt:
        return IntShim
    if t is SymBool:
        return bool
    if t is SymDict:
        return dict
    if t is SymSet:
        return set
    if t is SetLen:
        return int
    return t


def vs_print(*a, **k):
    from . import vfs

    return vfs.vprint(*a, **k)


def vs_open(*a, **k):
    from . import vfs

    return vfs.vopen(*a, **k)


def _symkey(k):
    """A key that dict cannot hash: a symbolic string, or a tuple with one."""
    t = type(k)
    return t is SymStr or (t is tuple and any(_symkey(x) for x in k))


def _plainkey(k):
    """k with symbolic flags and numbers decided."""
    t = type(k)
    if t is SymBool:
        return bool(k)
    if t is SymInt:
        return int(k)
    if t is tuple:
        return tuple(_plainkey(x) for x in k)
    return k


def _samekey(a, b):
    if a is b:
        return True
    if type(a) is tuple or type(b) is tuple:
        return (
            type(a) is tuple and type(b) is tuple and len(a) == len(b)
            and all(_samekey(x, y) for x, y in zip(a, b))
        )
    if type(a) is SymStr or type(b) is SymStr:
        return is_s(a) and is_s(b) and bool(a == b)
    return bool(a == b)


def _keyformula(a, b):
    """Formula: the keys a and b are equal, without forking."""
    if a is b:
        return True
    if type(a) is tuple or type(b) is tuple:
        if type(a) is not tuple or type(b) is not tuple or len(a) != len(b):
            return False
        fs = []
        for x, y in zip(a, b):
            f = _keyformula(x, y)
            if f is False:
                return False
            if f is not True:
                fs.append(f)
        return f_and(fs) if fs else True
    if type(a) is SymStr or type(b) is SymStr:
        return is_s(a) and is_s(b) and fof(a == b)
    return fof(a == b)


def _spelled(k):
    """How the key k is spelled, as something that dict can hash."""
    if type(k) is SymStr:
        return ("sym",) + tuple(c if type(c) is str else c.id for c in k.cs)
    if type(k) is tuple:
        return tuple(map(_spelled, k))
    return k


class SymDict(dict):
    """A dict display of instrumented code: keys may be symbolic strings.

    A dict that outlives the path (one made while modules are loaded, as the
    table of a cache) forks on the equality of a key with one stored during
    the path at most CACHE_FORKS times per path: past that, keys that only may
    be equal count as different, which a cache of a pure function cannot tell.
    """

    __slots__ = ("_k", "_late", "_forks", "_ix", "__weakref__")

    CACHE_FORKS = 1

    def __init__(self, items=(), **kw):
        dict.__init__(self)
        self._late = None if E.active else []  # keys stored during the path
        self._forks = 0
        self._ix = {}  # how keys stored during the path are spelled
        self._k = None  # all keys in order once there is a symbolic one
        if hasattr(items, "keys"):
            items = [(k, items[k]) for k in items.keys()]
        for k, v in items:
            self[k] = v
        for k, v in kw.items():
            self[k] = v

    def _pairs(self):
        if self._k is None:
            return list(dict.items(self))
        return list(self._k)

    def _find(self, k):
        """The entry for key k as [key, value], or None."""
        k = _plainkey(k)
        if self._k is None:
            if not _symkey(k):
                return [k, dict.__getitem__(self, k)] if dict.__contains__(self, k) else None
            if self._late:
                return self._find_late([[q, x] for q, x in dict.items(self)], k)
            for q in list(dict.keys(self)):
                if _samekey(q, k):
                    return [q, dict.__getitem__(self, q)]
            return None
        if not _symkey(k):
            hash(k)
        if self._late:
            return self._find_late(self._k, k)
        for e in self._k:
            if _samekey(e[0], k):
                return e
        return None

    def _stored(self, k):
        self._late.append(k)
        self._ix[_spelled(k)] = k

    def _find_late(self, entries, k):
        late = set(map(id, self._late))
        if self._forks >= self.CACHE_FORKS:
            q = self._ix.get(_spelled(k), self)
            for e in entries:
                if e[0] is q or (id(e[0]) not in late and _samekey(e[0], k)):
                    return e
            return None
        maybe = []
        for e in entries:
            if id(e[0]) not in late:
                if _samekey(e[0], k):
                    return e
                continue
            f = _keyformula(e[0], k)
            if f is True:
                return e
            if f is not False:
                maybe.append((f, e))
        for f, e in reversed(maybe):
            if self._forks >= self.CACHE_FORKS:
                break
            self._forks += 1
            if E.branch(f):
                self._ix[_spelled(k)] = e[0]
                return e
        return None

    def __setitem__(self, k, v):
        k = _plainkey(k)
        if self._k is None and not _symkey(k):
            if self._late is not None and E.active and not dict.__contains__(self, k):
                self._stored(k)
            dict.__setitem__(self, k, v)
            return
        e = self._find(k)
        if e is None and self._late is not None and E.active:
            self._stored(k)
        if self._k is None:
            if e is not None:
                dict.__setitem__(self, e[0], v)
                return
            self._k = [[q, x] for q, x in dict.items(self)]
            dict.clear(self)
        if e is not None:
            e[1] = v
        else:
            self._k.append([k, v])

    def __getitem__(self, k):
        e = self._find(k)
        if e is None:
            if hasattr(type(self), "__missing__"):
                return self.__missing__(k)
            raise KeyError(k if not _symkey(k) else "<symbolic>")
        return e[1]

    def __delitem__(self, k):
        k = _plainkey(k)
        if self._k is None and not _symkey(k):
            dict.__delitem__(self, k)
            return
        e = self._find(k)
        if e is None:
            raise KeyError("<symbolic>")
        if self._k is None:
            dict.__delitem__(self, e[0])
        else:
            self._k = [x for x in self._k if x is not e]

    def __contains__(self, k):
        return self._find(k) is not None

    def __len__(self):
        return dict.__len__(self) if self._k is None else len(self._k)

    def __bool__(self):
        return len(self) > 0

    def __iter__(self):
        return iter([e[0] for e in self._pairs()])

    def get(self, k, default=None):
        e = self._find(k)
        return default if e is None else e[1]

    def setdefault(self, k, default=None):
        e = self._find(k)
        if e is not None:
            return e[1]
        self[k] = default
        return default

    def pop(self, k, *default):
        e = self._find(k)
        if e is None:
            if default:
                return default[0]
            raise KeyError("<symbolic>")
        del self[e[0]]
        return e[1]

    def popitem(self, last=True):
        if not len(self):
            raise KeyError("dictionary is empty")
        k, v = self._pairs()[-1 if last else 0]
        del self[k]
        return k, v

    def move_to_end(self, k, last=True):
        v = self[k]
        rest = [(q, x) for q, x in self.items() if not _samekey(q, _plainkey(k))]
        self.clear()
        for q, x in rest + [(k, v)] if last else [(k, v)] + rest:
            self[q] = x

    def __or__(self, o):
        r = self.copy()
        r.update(o)
        return r

    def __ror__(self, o):
        r = SymDict(o)
        r.update(self)
        return r

    def __ior__(self, o):
        self.update(o)
        return self

    def __reversed__(self):
        return reversed(list(self))

    def keys(self):
        return list(self)

    def values(self):
        return [e[1] for e in self._pairs()]

    def items(self):
        return [(e[0], e[1]) for e in self._pairs()]

    def update(self, *others, **kw):
        for o in others:
            for k, v in o.items() if hasattr(o, "items") else o:
                self[k] = v
        for k, v in kw.items():
            self[k] = v

    def clear(self):
        dict.clear(self)
        self._k = None
        if self._late is not None:
            self._late, self._forks, self._ix = [], 0, {}

    def copy(self):
        return SymDict(self.items())

    __copy__ = copy

    @classmethod
    def fromkeys(cls, keys, value=None):
        return SymDict([(k, value) for k in keys])

    def __eq__(self, o):
        if self._k is None:
            return dict.__eq__(self, o)
        if len(self) != len(o):
            return False
        return all(k in o and o[k] == v for k, v in self.items())

    def __ne__(self, o):
        return not self == o

    __hash__ = None

    def __repr__(self):
        return "SymDict(%r)" % (self.items(),)


class SymDefaultDict(SymDict):
    """collections.defaultdict"""

    __slots__ = ("default_factory",)

    def __init__(self, factory=None, items=(), **kw):
        self.default_factory = factory
        SymDict.__init__(self, items, **kw)

    def __missing__(self, k):
        if self.default_factory is None:
            raise KeyError(k if not _symkey(k) else "<symbolic>")
        v = self.default_factory()
        self[k] = v
        return v

    def copy(self):
        return SymDefaultDict(self.default_factory, self.items())

    __copy__ = copy


class DictShim(metaclass=_ShimMeta):
    _real = dict
    _sym = SymDict
    _conv = SymDict
