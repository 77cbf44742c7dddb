"""Blocks of regular documents: how they may be written, and how they have to come out.

Each block knows its source lines and its reference layout, which is written down from
the README and independent of the code under test.  Texts are symbolic strings, layout
choices and line lengths symbolic integers; the harnesses compare for all of them.
"""

# Characters that mean something to Markdown, inline or at the start of a line.
SPECIAL = "`[]()<>*_#+-.!\\|~=:'\"&0123456789\x00"
# Characters that mean something inline.
INLINE = "`[]()<>*_!\\&|\x00"


class G:
    """Hands out symbolic texts and choices with distinct names."""

    def __init__(self, ctx, tag="g"):
        self.ctx = ctx
        self.tag = tag
        self.n = 0

    def name(self, kind):
        # One name stands for one domain, whatever was chosen before.
        self.n += 1
        return "%s%d_%s" % (self.tag, self.n, kind)

    def chars(self, n, spec, kind):
        return self.ctx.chars(self.name(kind), n, spec)

    def word(self, n=3):
        """n characters, none of which means anything to Markdown."""
        return self.chars(n, ("nospace", SPECIAL), "w")

    def mid(self, n=1):
        """Characters that mean nothing inside of a word."""
        return self.chars(n, ("nospace", INLINE), "m")

    def mixed(self, n=1):
        """A word with any punctuation inside of it."""
        return self.word(1) + self.mid(n) + self.word(1)

    def first(self):
        """A word starting with a character that only means something if alone."""
        return self.chars(1, ("nospace", "#>|`~[]<\\&*_!()\x00"), "f") + self.word(1)

    def ink(self, no=""):
        """Any character that is no white space, except for those of no."""
        return self.chars(1, ("nospace", "\x00" + no), "i" + no)

    def anyline(self, n, no=""):
        """Any n characters of a line, first and last no white space."""
        if n == 0:
            return ""
        a = self.ink(no)
        if n == 1:
            return a
        m = self.chars(n - 2, ("not", "noline", "\x00"), "a")
        return a + m + self.ink()

    def of(self, chars):
        return self.chars(1, ("in", chars), "o" + chars)

    def choose(self, options):
        options = list(options)
        return self.ctx.choose(self.name("c%d" % len(options)), options)

    def int(self, lo, hi):
        return self.ctx.int(self.name("n%d_%d" % (lo, hi)), lo, hi)

    def flag(self):
        return self.choose([False, True])

    def pad(self, hi=3):
        return " " * self.choose(list(range(hi + 1)))


# -- inline text ----------------------------------------------------------------------
# A token is a list of segments that have no white space between them; lines may break
# between tokens, and between the segments of a token.


def link(text, url, pre="", post=""):
    words = text if isinstance(text, list) else [text]
    words = [pre + "[" + words[0]] + words[1:]
    return [[w] for w in words[:-1]] + [[words[-1] + "](", url + ")" + post]]


def reflink(text, label, pre="", post=""):
    words = text if isinstance(text, list) else [text]
    words = [pre + "[" + words[0]] + words[1:]
    return [[w] for w in words[:-1]] + [[words[-1] + "][", label + "]" + post]]


def code(text, ticks=1, pre="", post=""):
    return [[pre + "`" * ticks + text + "`" * ticks + post]]


BR = "<br>"


def run_of(s, chars):
    """How many of the first characters of s are the same one of chars?"""
    n = 0
    if len(s) and s[0] in chars:
        while n < len(s) and s[n] == s[0]:
            n += 1
    return n


def opens(s):
    """Would s be something else than text if it started a line?"""
    if s[:1] in ("#", ">", "|") or s[:2] in ("<!", "<?"):
        return True
    n = run_of(s, "~`")
    if n >= 3:
        return s[0] == "~" or "`" not in s[n:]
    n = run_of(s, "*-_=")
    if not n and s[:1] == "+":
        n = 1
    if not n:
        while n < len(s) and s[n] in "0123456789":
            n += 1
        n = n + 1 if n and s[n:n + 1] in (".", ")") else 0
    return n > 0 and (n == len(s) or s[n] == " ")


def is_rule(s):
    """Is all of s the same one of "*", "-", "_" and "="?"""
    return s[:1] in ("*", "-", "_", "=") and all([c in (s[0], " ") for c in s])


def fill(tokens, width):
    """Greedy filling of lines."""
    # [what stays together, is there a space in front, does the line end behind it]
    pieces = []
    for token in tokens:
        for i, seg in enumerate(token):
            ends = seg.endswith(("<br>", "<br/>", "<br />"))
            if pieces and (opens(seg) or is_rule(pieces[-1][0])):
                pieces[-1][0] = pieces[-1][0] + ("" if i else " ") + seg
                pieces[-1][2] = ends
            else:
                pieces.append([seg, not i, ends])
    lines = []
    cur = ""
    for piece, space, ends in pieces:
        if not len(cur):
            cur = piece
        else:
            cand = cur + (" " if space else "") + piece
            if width <= 0 or len(cand) <= width:
                cur = cand
            else:
                lines.append(cur)
                cur = piece
        if ends:
            lines.append(cur)
            cur = ""
    if len(cur):
        lines.append(cur)
    return lines


def toks(words):
    """Tokens of a list of words and token lists."""
    out = []
    for w in words:
        if isinstance(w, list):
            out += w
        else:
            out.append([w])
    return out


class Para:
    def __init__(self, words, breaks=(), indents=(), hard=False, gap=" "):
        self.tokens = toks(words)
        self.breaks = breaks  # indices of tokens in front of which a line breaks
        self.indents = indents
        self.hard = hard
        self.gap = gap

    def src(self):
        lines = []
        cur = ""
        for i, t in enumerate(self.tokens):
            if i in self.breaks:
                lines.append(cur)
                cur = ""
            if len(cur):
                cur = cur + self.gap
            for seg in t:
                cur = cur + seg
        lines.append(cur + ("  " if self.hard else ""))
        return [
            (self.indents[i] if i < len(self.indents) else "") + x
            for i, x in enumerate(lines)
        ]

    def ref(self, width):
        lines = fill(self.tokens, width)
        if self.hard:
            lines[-1] = lines[-1] + "  "
        return lines


class Atx:
    def __init__(self, level, text, pre="", gap=" ", post=""):
        self.level = level
        self.text = text
        self.pre = pre
        self.gap = gap
        self.post = post

    def src(self):
        return [self.pre + "#" * self.level + self.gap + self.text + self.post]

    def ref(self, width):
        return ["#" * self.level + (" " + self.text if len(self.text) else "")]


class Setext:
    def __init__(self, words, char, count, breaks=(), pre="", post="", indents=(),
                 gap=" "):
        self.para = Para(words, breaks, indents, gap=gap)
        self.char = char
        self.count = count
        self.pre = pre
        self.post = post

    def src(self):
        return self.para.src() + [self.pre + self.char * self.count + self.post]

    def ref(self, width):
        lines = self.para.ref(width)
        return lines + [self.char * max([len(x) for x in lines])]


class Fence:
    def __init__(self, char, count, lines, info="", gap="", more=0, closed=True,
                 post=""):
        self.char = char
        self.count = count
        self.lines = lines
        self.info = info
        self.gap = gap
        self.more = more
        self.closed = closed
        self.post = post

    def src(self):
        out = [self.char * self.count + self.gap + self.info + self.post]
        out += self.lines
        if self.closed:
            out.append(self.char * (self.count + self.more) + self.post)
        return out

    def ref(self, width):
        info = self.info
        if len(info) and self.char == "~" and info[0] == "~":
            info = " " + info
        fence = self.char * self.count
        return [fence + info] + [x.rstrip() for x in self.lines] + [fence]


class Icode:
    def __init__(self, lines, blank_end=False):
        self.lines = lines

    def src(self):
        return list(self.lines)

    def ref(self, width):
        return [x.rstrip() for x in self.lines]


class Thematic:
    def __init__(self, char, count=3, gap="", pre="", post=""):
        self.char = char
        self.count = count
        self.gap = gap
        self.pre = pre
        self.post = post

    def src(self):
        return [self.pre + self.gap.join([self.char] * self.count) + self.post]

    def ref(self, width):
        if width == float("inf") or width <= 3:
            return [self.char * 3]
        return [self.char * width]


class Blank:
    def __init__(self, n=1, pad=""):
        self.n = n
        self.pad = pad

    def src(self):
        return [self.pad] * self.n

    def ref(self, width):
        return [""] * self.n


class Lrd:
    """layout: where the title is: 'same' or 'next' line; link on its own line or not."""

    def __init__(self, label, dest, title=None, quote='"', newline=False, layout="same",
                 gap=" ", breaks=(), pre="", pre2=""):
        self.label = label
        self.dest = dest
        self.title = title  # list of words
        self.quote = quote
        self.newline = newline
        self.layout = layout
        self.gap = gap
        self.breaks = breaks
        self.pre = pre
        self.pre2 = pre2  # of the lines behind the first

    def words(self):
        w = list(self.title)
        w[0] = self.quote + w[0]
        w[-1] = w[-1] + self.quote
        return w

    def src(self):
        first = self.pre + "[" + self.label + "]:"
        if self.newline:
            lines = [first, self.dest]
        else:
            lines = [first + self.gap + self.dest]
        if self.title:
            t = Para(self.words(), self.breaks).src()
            if self.layout == "same":
                lines[-1] = lines[-1] + self.gap + t[0]
                lines += t[1:]
            else:
                lines += t
        return lines[:1] + [self.pre2 + x for x in lines[1:]]

    def ref(self, width):
        first = "[" + self.label + "]:"
        if self.newline:
            lines = [first, self.dest]
        else:
            lines = [first + " " + self.dest]
        if not self.title:
            return lines
        words = self.words()
        fits = len(lines[-1]) + len(words[0])
        if self.layout == "same" and fits <= width:
            return lines[:-1] + fill(toks(lines[-1].split(" ") + words), width)
        return lines + fill(toks(words), width)


class Table:
    def __init__(self, rows, aligns, gap=" ", trail=True, pre=""):
        self.rows = rows
        self.aligns = aligns
        self.gap = gap
        self.trail = trail
        self.pre = pre

    def _row(self, cells):
        s = self.pre + "|"
        s = s + "|".join([self.gap + c + self.gap for c in cells])
        return s + "|" if self.trail else s

    def src(self):
        d = {"n": "---", "l": ":--", "r": "--:", "c": ":-:"}
        return (
            [self._row(self.rows[0]), self._row([d[a] for a in self.aligns])]
            + [self._row(r) for r in self.rows[1:]]
        )

    def ref(self, width):
        n = len(self.aligns)
        w = [max([len(r[i]) for r in self.rows]) for i in range(n)]
        out = []
        for k, row in enumerate(self.rows):
            cells = []
            for i, c in enumerate(row):
                pad = w[i] - len(c)
                a = self.aligns[i]
                if a == "n":
                    a = "c" if k == 0 else "l"
                if a == "l":
                    c = c + " " * pad
                elif a == "r":
                    c = " " * pad + c
                else:
                    left = pad // 2
                    c = " " * left + c + " " * (pad - left)
                cells.append(" " + c + " ")
            out.append("|" + "|".join(cells) + "|")
        d = []
        for i, a in enumerate(self.aligns):
            left = ":" if a in "lc" else "-"
            right = ":" if a in "rc" else "-"
            d.append(left + "-" * w[i] + right)
        return out[:1] + ["|" + "|".join(d) + "|"] + out[1:]


class Bullet:
    """entries: lists of blocks.  deep: columns by which further lines are indented."""

    def __init__(self, entries, marker="*", markers=None, pre="", pres=None, gap=" ",
                 deep=None):
        self.entries = entries
        self.marker = marker
        self.markers = markers
        self.pre = pre
        self.pres = pres
        self.gap = gap
        self.deep = deep

    def _marker(self, i):
        return self.markers[i] if self.markers else self.marker

    def src(self):
        out = []
        for i, blocks in enumerate(self.entries):
            pre = self.pres[i] if self.pres else self.pre
            m = self._marker(i)
            lines = []
            for b in blocks:
                lines += b.src()
            ind = pre + (self.deep if self.deep is not None else " " * (len(m) + 1))
            if not lines:
                out.append(pre + m)
            for j, x in enumerate(lines):
                if j == 0:
                    out.append(pre + m + self.gap + x)
                else:
                    out.append(ind + x)
        return out

    def _out(self, i):
        return self.markers[0] if self.markers else self.marker

    def _sub(self):
        return 2

    def ref(self, width):
        out = []
        for i, blocks in enumerate(self.entries):
            m = self._out(i)
            lines = []
            for b in blocks:
                lines += b.ref(width - self._sub())
            if not lines:
                out.append(m)
            for j, x in enumerate(lines):
                if j == 0:
                    out.append(m + " " + x)
                else:
                    out.append(" " * (len(m) + 1) + x if len(x) else "")
        return out


class Ordered(Bullet):
    """numbers: the numbers in the source, of which only the first one counts."""

    def __init__(self, entries, first=1, numbers=None, **kw):
        Bullet.__init__(self, entries, **kw)
        self.first = first
        self.numbers = numbers

    def _marker(self, i):
        if self.numbers:
            return "%d." % self.numbers[i]
        return "%d." % (self.first + i)

    def _out(self, i):
        return "%d." % ((self.numbers[0] if self.numbers else self.first) + i)

    def _sub(self):
        return len(self._out(len(self.entries) - 1)) + 1


class Quote:
    """lazy: indices of source lines that lack the quote marker."""

    def __init__(self, blocks, space=True, pre="", lazy=()):
        self.blocks = blocks
        self.space = space
        self.pre = pre
        self.lazy = lazy

    def src(self):
        lines = []
        for b in self.blocks:
            lines += b.src()
        out = []
        for i, x in enumerate(lines):
            if i in self.lazy:
                out.append(x)
            elif self.space and len(x):
                out.append(self.pre + "> " + x)
            else:
                out.append(self.pre + ">" + x)
        return out

    def ref(self, width):
        lines = blocks_ref(self.blocks, width - (2 if self.space else 1))
        p = "> " if self.space else ">"
        return [p + x if len(x) else ">" for x in lines]


def blocks_ref(blocks, width):
    out = []
    last = None
    for b in blocks:
        if isinstance(last, Quote) and isinstance(b, Setext):
            out.append("")
        out += b.ref(width)
        last = b
    return out


def doc_src(blocks):
    out = []
    for b in blocks:
        out += b.src()
    return "\n".join(out) + "\n"


def doc_ref(blocks, width):
    out = blocks_ref(blocks, width)
    while out and not len(out[-1]):
        out.pop()
    text = "\n".join(out)
    if text[-2:] == "  " and isinstance(blocks[-1], Para):
        text = text[:-2]
    return text + "\n"
