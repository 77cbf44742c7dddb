"""C22: blocks are formatted one by one and stay separate."""
from . import shapes
from .ref import Blank, G, Quote, Setext, doc_src


def alone(ctx, R, block, width):
    """What the formatter makes of a block that is a document of its own."""
    text = doc_src([block])
    st, r = ctx.run(R, text, width)
    if st == "exc":
        ctx.fail("raised %s on one block" % ctx.excname(r))
    return r[:-1]


def shape(ctx, name, lo=1, hi=8):
    """A document comes out as its blocks do, with the blank lines between them."""
    g = G(ctx)
    blocks = getattr(shapes, name)(g)
    text = doc_src(blocks)
    width = ctx.width("w", lo, hi)
    ctx.note(text=text, width=width)
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    st, r = ctx.run(R, text, width)
    if st == "exc":
        ctx.observe(ctx.excname(r))
        ctx.fail("raised %s" % ctx.excname(r))
    ctx.observe(r)
    out = []
    last = None
    for b in blocks:
        if isinstance(b, Blank):
            out += [""] * b.n
        else:
            if isinstance(last, Quote) and isinstance(b, Setext):
                out.append("")
            out.append(alone(ctx, R, b, width))
        last = b
    while out and not len(out[-1]):
        out.pop()
    ctx.check(ctx.eq(r, "\n".join(out) + "\n"), "blocks are not kept separate and in order")


class GL(G):
    """Texts of lower case letters only."""

    def _letters(self, n):
        return self.chars(n, ("in", "bcdefghijklmnopq"), "l")

    def word(self, n=3):
        return self._letters(n)

    def mid(self, n=1):
        return self._letters(n)

    def first(self):
        return self._letters(2)

    def ink(self, no=""):
        return self._letters(1)

    def anyline(self, n, no=""):
        return self._letters(n)


def letters(s):
    return [c for c in s if c in "abcdefghijklmnopqrstuvwxyz"]


def content(ctx, name, lo=1, hi=8):
    """Every letter of the document comes out once and in order."""
    g = GL(ctx)
    text = doc_src(getattr(shapes, name)(g))
    width = ctx.width("w", lo, hi)
    ctx.note(text=text, width=width)
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    st, r = ctx.run(R, text, width)
    if st == "exc":
        ctx.observe(ctx.excname(r))
        ctx.fail("raised %s" % ctx.excname(r))
    ctx.observe(r)
    a, b = letters(text), letters(r)
    ctx.check(len(a) == len(b) and ctx.eq(a, b), "text lost, repeated or reordered")
