"""Character atoms.

The universe of a symbolic character is every Unicode code point except surrogates.  It
is partitioned into *atoms*: every ASCII code point on its own, every non-ASCII code
point named by a literal of the code under test on its own, and the remaining code
points grouped by a signature of all the character predicates that Python's str and re
implementations use.  A set of characters is a bit mask over atoms; a mask converts
exactly to a list of code point intervals for the solver.
"""
import re as _re
import unicodedata

MAXCP = 0x10FFFF
_W = _re.compile(r"\w")
_LINEBREAKS = {0x85, 0x2028, 0x2029}


def _sig(cp, c):
    return (
        c.isspace(), cp in _LINEBREAKS, c.isalpha(), c.isdigit(), c.isdecimal(),
        c.isnumeric(), c.isupper(), c.islower(), c.istitle(), c.isprintable(),
        c.isidentifier(), c == "_" or c.isalnum(),
        unicodedata.category(c)[0] in "PS", c.lower() == c, c.upper() == c,
        c.casefold() == c,
    )


class Atoms:
    def __init__(self, singles=()):
        singles = sorted({ord(c) for c in singles if ord(c) >= 128})
        self.atoms = []  # list of list of (lo, hi)
        self.rep = []  # a representative character
        for cp in range(128):
            self.atoms.append([(cp, cp)])
            self.rep.append(chr(cp))
        self._single = {}
        for cp in singles:
            self._single[cp] = len(self.atoms)
            self.atoms.append([(cp, cp)])
            self.rep.append(chr(cp))
        groups = {}
        sset = set(singles)
        last_sig, start = None, None
        prev = None
        for cp in range(128, MAXCP + 2):
            if cp > MAXCP or 0xD800 <= cp <= 0xDFFF or cp in sset:
                sig = None
            else:
                sig = _sig(cp, chr(cp))
            if sig != last_sig:
                if last_sig is not None:
                    groups.setdefault(last_sig, []).append((start, cp - 1))
                last_sig, start = sig, cp
        for sig, ivs in sorted(groups.items(), key=lambda kv: kv[1][0]):
            self.atoms.append(ivs)
            self.rep.append(chr(ivs[0][0]))
        self.n = len(self.atoms)
        self.ALL = (1 << self.n) - 1
        self.is_single = [len(a) == 1 and a[0][0] == a[0][1] for a in self.atoms]
        self.singles_mask = 0
        for i, s in enumerate(self.is_single):
            if s:
                self.singles_mask |= 1 << i
        self._pred_cache = {}
        self._ivs_cache = {}
        self._char_index = {}
        self.SPACE = self.pred("isspace", str.isspace)
        lb = set("\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029")
        self.LINEBREAK = self.pred("linebreak", lambda c: c in lb)

    def index(self, ch):
        i = self._char_index.get(ch)
        if i is None:
            cp = ord(ch)
            if cp < 128:
                i = cp
            elif cp in self._single:
                i = self._single[cp]
            else:
                for j in range(128, self.n):
                    if any(lo <= cp <= hi for lo, hi in self.atoms[j]):
                        i = j
                        break
                else:
                    i = -1
            self._char_index[ch] = i
        return i

    def exact_index(self, ch):
        """Index of the atom that is exactly {ch}, or None."""
        i = self.index(ch)
        if i >= 0 and self.is_single[i]:
            return i
        return None

    def chars(self, s):
        """Mask of the characters of s; None if one is not an atom of its own."""
        m = 0
        for ch in s:
            i = self.exact_index(ch)
            if i is None:
                return None
            m |= 1 << i
        return m

    def pred(self, key, fn):
        m = self._pred_cache.get(key)
        if m is None:
            m = 0
            for i, r in enumerate(self.rep):
                if fn(r):
                    m |= 1 << i
            self._pred_cache[key] = m
        return m

    def interval(self, lo, hi):
        """Mask of the code points lo..hi, or None if it cuts through an atom."""
        m = 0
        for i, ivs in enumerate(self.atoms):
            inside = sum(
                1 for a, b in ivs if lo <= a and b <= hi
            )
            overlap = sum(1 for a, b in ivs if not (b < lo or a > hi))
            if inside == len(ivs):
                m |= 1 << i
            elif overlap:
                return None
        return m

    def ivs(self, mask):
        r = self._ivs_cache.get(mask)
        if r is None:
            allv = []
            i, m = 0, mask
            while m:
                if m & 1:
                    allv += self.atoms[i]
                m >>= 1
                i += 1
            allv.sort()
            r = []
            for lo, hi in allv:
                if r and r[-1][1] + 1 >= lo:
                    r[-1] = (r[-1][0], max(hi, r[-1][1]))
                else:
                    r.append((lo, hi))
            # bridging the surrogate gap keeps the solver terms small; the gap itself
            # is excluded by the domain of the variable
            self._ivs_cache[mask] = r
        return r

    def count(self, mask):
        return sum(hi - lo + 1 for lo, hi in self.ivs(mask))
