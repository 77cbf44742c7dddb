"""Drop-in replacement of `re` for instrumented modules.

Plain strings go to the real `re`.  Symbolic strings are matched by a backtracking
matcher built from CPython's own parse of the pattern (re._parser), with the same
priorities as the sre engine; every character test on a symbolic character forks.
"""
import re as _re
from re import _constants as C
from re import _parser

from .engine import E, Unsupported
from .values import SymStr, ceq, cin, concretise_str, elems, lift, mk, mkbool

for _n in dir(_re):
    if _n.isupper():
        globals()[_n] = getattr(_re, _n)
error = _re.error
escape = _re.escape
purge = _re.purge
RegexFlag = _re.RegexFlag


def _category_mask(cat, flags):
    A = E.atoms
    asc = flags & _re.ASCII
    if cat in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
        m = A.pred("re_d", lambda c: bool(_re.match(r"\d", c)))
    elif cat in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
        m = A.pred("re_s", lambda c: bool(_re.match(r"\s", c)))
    elif cat in (C.CATEGORY_WORD, C.CATEGORY_NOT_WORD):
        m = A.pred("re_w", lambda c: bool(_re.match(r"\w", c)))
    else:
        raise Unsupported("regex category %s" % cat)
    if asc:
        if cat in (C.CATEGORY_DIGIT, C.CATEGORY_NOT_DIGIT):
            m = A.pred("re_ad", lambda c: bool(_re.match(r"\d", c, _re.A)))
        elif cat in (C.CATEGORY_SPACE, C.CATEGORY_NOT_SPACE):
            m = A.pred("re_as", lambda c: bool(_re.match(r"\s", c, _re.A)))
        else:
            m = A.pred("re_aw", lambda c: bool(_re.match(r"\w", c, _re.A)))
    if cat in (C.CATEGORY_NOT_DIGIT, C.CATEGORY_NOT_SPACE, C.CATEGORY_NOT_WORD):
        m = A.ALL & ~m
    return m


def _lit_mask(cp, flags):
    A = E.atoms
    if flags & _re.IGNORECASE:
        ch = chr(cp)
        m = 0
        for c in {ch, ch.lower(), ch.upper()}:
            if len(c) == 1:
                i = A.exact_index(c)
                if i is None:
                    raise Unsupported("literal %r is no atom" % c)
                m |= 1 << i
        if ch.lower() in "ks" and not flags & _re.ASCII:
            pass  # K (Kelvin sign) and long s fold too; listed as outside the encoding
        return m
    i = A.exact_index(chr(cp))
    if i is None:
        raise Unsupported("literal %r is no atom" % chr(cp))
    return 1 << i


def _in_mask(items, flags):
    A = E.atoms
    neg = False
    m = 0
    for op, av in items:
        if op is C.NEGATE:
            neg = True
        elif op is C.LITERAL:
            m |= _lit_mask(av, flags)
        elif op is C.RANGE:
            lo, hi = av
            r = A.interval(lo, hi)
            if r is None:
                raise Unsupported("range cuts an atom")
            m |= r
            if flags & _re.IGNORECASE:
                for cp in range(lo, min(hi, 127) + 1):
                    m |= _lit_mask(cp, flags)
        elif op is C.CATEGORY:
            m |= _category_mask(av, flags)
        else:
            raise Unsupported("set item %s" % op)
    return A.ALL & ~m if neg else m


def _single_mask(op, av, flags):
    """Mask if the node matches exactly one character by class, else None."""
    A = E.atoms
    if op is C.LITERAL:
        return _lit_mask(av, flags)
    if op is C.NOT_LITERAL:
        return A.ALL & ~_lit_mask(av, flags)
    if op is C.ANY:
        if flags & _re.DOTALL:
            return A.ALL
        return A.ALL & ~(1 << A.exact_index("\n"))
    if op is C.IN:
        return _in_mask(av, flags)
    return None


class _St:
    __slots__ = ("cs", "n", "g")


def _seq(nodes, flags, k):
    """Matcher of the node list followed by continuation k."""
    for op, av in reversed(list(nodes)):
        k = _node(op, av, flags, k)
    return k


def _node(op, av, flags, k):
    m = _single_mask(op, av, flags)
    if m is not None:

        def single(st, i):
            if i < st.n and cin(st.cs[i], m):
                return k(st, i + 1)
            return None

        return single
    if op is C.SUBPATTERN:
        group, add, delf, p = av
        fl = (flags | add) & ~delf
        if group is None:
            return _seq(p, fl, k)

        def close(st, i):
            old = st.g.get(group)
            st.g[group] = (st.g[("s", group)], i)
            r = k(st, i)
            if r is None:
                st.g[group] = old
            return r

        body = _seq(p, fl, close)

        def open_(st, i):
            old = st.g.get(("s", group))
            st.g[("s", group)] = i
            r = body(st, i)
            if r is None:
                st.g[("s", group)] = old
            return r

        return open_
    if op in (C.MAX_REPEAT, C.MIN_REPEAT, C.POSSESSIVE_REPEAT):
        lo, hi, p = av
        p = list(p)
        if hi is C.MAXREPEAT:
            hi = 1 << 30
        sm = _single_mask(p[0][0], p[0][1], flags) if len(p) == 1 else None
        if sm is not None and op is C.MAX_REPEAT:

            def greedy(st, i):
                cs, n = st.cs, st.n
                j = i
                end = min(n, i + hi)
                while j < end and cin(cs[j], sm):
                    j += 1
                low = i + lo
                while j >= low:
                    r = k(st, j)
                    if r is not None:
                        return r
                    j -= 1
                return None

            return greedy
        if sm is not None and op is C.POSSESSIVE_REPEAT:

            def poss(st, i):
                cs, n = st.cs, st.n
                j = i
                end = min(n, i + hi)
                while j < end and cin(cs[j], sm):
                    j += 1
                return k(st, j) if j - i >= lo else None

            return poss
        if sm is not None:

            def lazy(st, i):
                cs, n = st.cs, st.n
                j = i
                while j - i < lo:
                    if j < n and cin(cs[j], sm):
                        j += 1
                    else:
                        return None
                while True:
                    r = k(st, j)
                    if r is not None:
                        return r
                    if j - i < hi and j < n and cin(cs[j], sm):
                        j += 1
                    else:
                        return None

            return lazy
        if op is C.POSSESSIVE_REPEAT:
            raise Unsupported("possessive repeat")

        def rep(st, i, count, last):
            E.tick()

            def again(st, j):
                return rep(st, j, count + 1, i)

            if count < lo:
                return _seq(p, flags, again)(st, i)
            if op is C.MAX_REPEAT:
                if count < hi and i != last:
                    saved = dict(st.g)
                    r = _seq(p, flags, again)(st, i)
                    if r is not None:
                        return r
                    st.g = saved
                return k(st, i)
            saved = dict(st.g)
            r = k(st, i)
            if r is not None:
                return r
            st.g = saved
            if count < hi and i != last:
                return _seq(p, flags, again)(st, i)
            return None

        return lambda st, i: rep(st, i, 0, -1)
    if op is C.BRANCH:
        alts = [_seq(b, flags, k) for b in av[1]]

        def branch(st, i):
            for a in alts:
                saved = dict(st.g)
                r = a(st, i)
                if r is not None:
                    return r
                st.g = saved
            return None

        return branch
    if op is C.AT:
        return _at(av, flags, k)
    if op in (C.ASSERT, C.ASSERT_NOT):
        direction, p = av
        inner = _seq(p, flags, lambda st, j: j)
        if direction < 0:
            lo, hi = p.getwidth()
            if lo != hi:
                raise Unsupported("variable lookbehind")
        pos = op is C.ASSERT

        def look(st, i):
            j = i
            if direction < 0:
                j = i - lo
            r = None
            saved = dict(st.g)
            if j >= 0:
                r = inner(st, j)
            if not pos:
                st.g = saved
            if (r is not None) == pos:
                return k(st, i)
            st.g = saved
            return None

        return look
    if op is C.GROUPREF:

        def ref(st, i):
            sp = st.g.get(av)
            if sp is None:
                return None
            sub = st.cs[sp[0] : sp[1]]
            if i + len(sub) > st.n:
                return None
            for a, b in zip(sub, st.cs[i : i + len(sub)]):
                if not mkbool(ceq(a, b)):
                    return None
            return k(st, i + len(sub))

        return ref
    if op is C.ATOMIC_GROUP:
        inner = _seq(av, flags, lambda st, j: j)

        def atomic(st, i):
            r = inner(st, i)
            return None if r is None else k(st, r)

        return atomic
    raise Unsupported("regex op %s" % op)


def _at(av, flags, k):
    nl = 1 << E.atoms.exact_index("\n")
    multi = flags & _re.MULTILINE
    if av is C.AT_BEGINNING_STRING or (av is C.AT_BEGINNING and not multi):
        return lambda st, i: k(st, i) if i == 0 else None
    if av is C.AT_BEGINNING:
        return lambda st, i: (
            k(st, i) if i == 0 or cin(st.cs[i - 1], nl) else None
        )
    if av is C.AT_END_STRING:
        return lambda st, i: k(st, i) if i == st.n else None
    if av is C.AT_END and not multi:
        return lambda st, i: (
            k(st, i)
            if i == st.n or (i == st.n - 1 and cin(st.cs[i], nl))
            else None
        )
    if av is C.AT_END:
        return lambda st, i: k(st, i) if i == st.n or cin(st.cs[i], nl) else None
    if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
        w = _category_mask(C.CATEGORY_WORD, flags)
        want = av is C.AT_BOUNDARY

        def bound(st, i):
            a = i > 0 and cin(st.cs[i - 1], w)
            b = i < st.n and cin(st.cs[i], w)
            return k(st, i) if (bool(a) != bool(b)) == want else None

        return bound
    raise Unsupported("regex anchor %s" % av)


def _first(nodes, flags):
    """Mask of possible first characters, or None if it may match empty / unknown."""
    for op, av in nodes:
        m = _single_mask(op, av, flags)
        if m is not None:
            return m
        if op is C.SUBPATTERN:
            fl = (flags | av[1]) & ~av[2]
            r = _first(av[3], fl)
            if r is not None:
                return r
            if av[3].getwidth()[0] == 0:
                return None
            return None
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            if av[0] == 0:
                return None
            return _first(av[2], flags)
        if op is C.BRANCH:
            m = 0
            for b in av[1]:
                r = _first(b, flags)
                if r is None:
                    return None
                m |= r
            return m
        if op in (C.ASSERT, C.ASSERT_NOT):
            continue
        return None
    return None


class Match:
    def __init__(self, pat, string, g, start, end, pos, endpos):
        self.re = pat
        self.string = string
        self._g = g
        self._span = (start, end)
        self.pos = pos
        self.endpos = endpos

    def _idx(self, x):
        if isinstance(x, str):
            if x not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[x]
        if x > self.re.groups:
            raise IndexError("no such group")
        return x

    def span(self, x=0):
        x = self._idx(x)
        if x == 0:
            return self._span
        return self._g.get(x) or (-1, -1)

    def start(self, x=0):
        return self.span(x)[0]

    def end(self, x=0):
        return self.span(x)[1]

    def _one(self, x, default=None):
        a, b = self.span(x)
        if a < 0:
            return default
        return self.string[a:b]

    def group(self, *xs):
        if not xs:
            xs = (0,)
        if len(xs) == 1:
            return self._one(xs[0])
        return tuple(self._one(x) for x in xs)

    def __getitem__(self, x):
        return self._one(x)

    def groups(self, default=None):
        return tuple(self._one(i, default) for i in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {n: self._one(i, default) for n, i in self.re.groupindex.items()}

    @property
    def lastindex(self):
        c = [(sp[1], -i, i) for i, sp in self._g.items() if isinstance(i, int) and sp]
        return max(c)[2] if c else None

    def expand(self, t):
        return _expand(self, t)

    def __bool__(self):
        return True


def _expand(m, repl):
    if type(repl) is SymStr:
        repl = concretise_str(repl)
    if "\\" not in repl:
        return repl
    parts = _parser.parse_template(repl, m.re.real)
    out = []
    for p in parts:
        if isinstance(p, int):
            out.extend(elems(m._one(p) or ""))
        else:
            out.extend(p)
    return mk(out)


class Pattern:
    def __init__(self, real):
        self.real = real
        self.pattern = real.pattern
        self.flags = real.flags
        self.groups = real.groups
        self.groupindex = dict(real.groupindex)
        self._prog = None
        self._full = None

    def _compile(self):
        if self._prog is None:
            tree = _parser.parse(
                self.real.pattern, self.real.flags & ~_re.UNICODE
            )
            fl = self.real.flags
            self._prog = _seq(tree, fl, lambda st, i: i)
            self._full = _seq(tree, fl, lambda st, i: i if i == st.n else None)
            self._firstmask = _first(tree, fl)
        return self._prog

    def _run(self, prog, cs, n, i):
        st = _St()
        st.cs, st.n, st.g = cs, n, {}
        r = prog(st, i)
        if r is None:
            return None
        g = {x: sp for x, sp in st.g.items() if isinstance(x, int)}
        return r, g

    def _at(self, s, i, endpos=None, prog=None):
        self._compile()
        cs = elems(s)
        n = len(cs) if endpos is None else min(endpos, len(cs))
        r = self._run(prog or self._prog, cs, n, i)
        if r is None:
            return None
        return Match(self, s, r[1], i, r[0], 0, n)

    def _concrete(self, s):
        return type(s) is str

    def match(self, s, pos=0, endpos=None):
        if type(s) is not SymStr:
            return (
                self.real.match(s, pos)
                if endpos is None
                else self.real.match(s, pos, endpos)
            )
        return self._at(s, pos, endpos)

    def fullmatch(self, s, pos=0, endpos=None):
        if type(s) is not SymStr:
            return (
                self.real.fullmatch(s, pos)
                if endpos is None
                else self.real.fullmatch(s, pos, endpos)
            )
        self._compile()
        return self._at(s, pos, endpos, self._full)

    def search(self, s, pos=0, endpos=None):
        if type(s) is not SymStr:
            return (
                self.real.search(s, pos)
                if endpos is None
                else self.real.search(s, pos, endpos)
            )
        return self._search(s, pos, endpos)

    def _search(self, s, pos, endpos=None, nonempty_at=None):
        self._compile()
        cs = elems(s)
        n = len(cs) if endpos is None else min(endpos, len(cs))
        fm = self._firstmask
        for i in range(max(pos, 0), n + 1):
            if fm is not None:
                if i >= n:
                    break
                c = cs[i]
                if type(c) is str:
                    if not fm >> E.atoms.index(c) & 1:
                        continue
                elif not E.doms[c.id] & fm:
                    continue
            prog = self._prog
            if i == nonempty_at:
                prog = self._nonempty(i)
            r = self._run(prog, cs, n, i)
            if r is not None:
                return Match(self, s, r[1], i, r[0], 0, n)
        return None

    def _nonempty(self, start):
        tree = _parser.parse(self.real.pattern, self.real.flags & ~_re.UNICODE)
        return _seq(
            tree, self.real.flags, lambda st, i: i if i != start else None
        )

    def finditer(self, s, pos=0, endpos=None):
        if type(s) is not SymStr:
            if endpos is None:
                yield from self.real.finditer(s, pos)
            else:
                yield from self.real.finditer(s, pos, endpos)
            return
        nonempty_at = None
        while True:
            m = self._search(s, pos, endpos, nonempty_at)
            if m is None:
                return
            yield m
            pos = m.end()
            # like sre: after any match, an empty match may not start where it ended
            nonempty_at = pos if m.start() == m.end() else None

    def findall(self, s, pos=0, endpos=None):
        if type(s) is not SymStr:
            return (
                self.real.findall(s, pos)
                if endpos is None
                else self.real.findall(s, pos, endpos)
            )
        out = []
        for m in self.finditer(s, pos, endpos):
            if self.groups == 0:
                out.append(m.group())
            elif self.groups == 1:
                x = m.group(1)
                out.append("" if x is None else x)
            else:
                out.append(m.groups(""))
        return out

    def split(self, s, maxsplit=0):
        if type(s) is not SymStr:
            return self.real.split(s, maxsplit)
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if maxsplit and n >= maxsplit:
                break
            out.append(s[last : m.start()])
            out.extend(m.groups())
            last = m.end()
            n += 1
        out.append(s[last:])
        return out

    def subn(self, repl, s, count=0):
        if type(s) is not SymStr and type(repl) is not SymStr:
            if callable(repl):
                # the callback may return symbolic text
                pass
            else:
                return self.real.subn(repl, s, count)
        s = lift(s)
        out, last, n = [], 0, 0
        for m in self.finditer(s):
            if count and n >= count:
                break
            out.extend(s.cs[last : m.start()])
            r = repl(m) if callable(repl) else _expand(m, repl)
            out.extend(elems(r))
            last = m.end()
            n += 1
        out.extend(s.cs[last:])
        return mk(out), n

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]

    def __eq__(self, o):
        return isinstance(o, Pattern) and o.real == self.real

    def __hash__(self):
        return hash(self.real)

    def __repr__(self):
        return repr(self.real)


_cache = {}


def compile(pattern, flags=0):  # noqa: A001
    if isinstance(pattern, Pattern):
        return pattern
    if type(pattern) is SymStr:
        pattern = concretise_str(pattern)
    key = (pattern, int(flags))
    p = _cache.get(key)
    if p is None:
        p = _cache[key] = Pattern(_re.compile(pattern, flags))
    return p


def match(p, s, flags=0):
    return compile(p, flags).match(s)


def fullmatch(p, s, flags=0):
    return compile(p, flags).fullmatch(s)


def search(p, s, flags=0):
    return compile(p, flags).search(s)


def finditer(p, s, flags=0):
    return compile(p, flags).finditer(s)


def findall(p, s, flags=0):
    return compile(p, flags).findall(s)


def split(p, s, maxsplit=0, flags=0):
    return compile(p, flags).split(s, maxsplit)


def sub(p, repl, s, count=0, flags=0):
    return compile(p, flags).sub(repl, s, count)


def subn(p, repl, s, count=0, flags=0):
    return compile(p, flags).subn(repl, s, count)


_real_escape = _re.escape


def escape(p):  # noqa: F811
    if type(p) is SymStr:
        p = concretise_str(p)
    return _real_escape(p)
