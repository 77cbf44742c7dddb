"""C21: formatting leaves nothing behind."""
import math

from symex import procstate

from . import shapes
from .ref import G, doc_src


def first_doc(g):
    """A document that succeeds or fails, nested or not."""
    k = g.choose(list(range(11)))
    w = g.word(1)
    return [
        lambda: "*" + g.of("*a_") + "\n" + g.of("*a_") + "\n",  # finding rule-words
        lambda: "> * " + w + "\n",
        lambda: "|" + w + "\n",  # not a table
        lambda: "> |" + w + "\n> " + w + "\n",
        lambda: "* 1. |" + w + "\n",
        lambda: "> > |" + w + "\n",
        lambda: "```\n" + w + "\n",
        lambda: "1. ~~~~\n   " + w + "\n",
        lambda: w + " " + g.of("-+#>=1") + g.of(" .-=") + " " + w + "\n",
        lambda: "#" + w + "\n\n> " + w + "\n" + w + "\n",
        lambda: "[" + w + "]:\n",
    ][k]()


def second_doc(g):
    k = g.choose(list(range(7)))
    w = g.word(2)
    return [
        lambda: w + "\n```\n" + w + "\n```\n",
        lambda: "> " + w + "\n" + w + "\n",
        lambda: "* " + w + "\n  1. " + w + "\n",
        lambda: "9. " + w + "\n1. " + w + "\n",
        lambda: "|" + w + "|\n|-|\n|" + w + "|\n",
        lambda: "~~~~\n" + w + "\n",
        lambda: "# " + w + "\n\n***\n\n[" + w + "]: " + w + "\n",
    ][k]()


def check_state(ctx, before, what):
    ctx.check(not procstate.diff(before, procstate.observe()),
              "%s changes %s" % (what, procstate.diff(before, procstate.observe())))


def run(ctx, R, text, width):
    st, r = ctx.run(R, text, width)
    return (st, ctx.excname(r) if st == "exc" else r)


def pair(ctx, lo=1, hi=6):
    """B, then A, then B again: same answer, and nothing left behind."""
    g = G(ctx)
    a, b = first_doc(g), second_doc(g)
    wa = g.choose([1, 3, 88])
    wb = ctx.width("w", lo, hi)
    ctx.note(first=a, second=b, widths=[wa, wb])
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    before = procstate.observe()
    r1 = run(ctx, R, b, wb)
    check_state(ctx, before, "formatting")
    ctx.fresh()
    ra = run(ctx, R, a, wa)
    check_state(ctx, before, "formatting")
    r2 = run(ctx, R, b, wb)
    ctx.observe([r1, ra, r2])
    check_state(ctx, before, "formatting")
    ctx.check(r1[0] == r2[0] and ctx.eq(r1[1], r2[1]), "the answer depends on history")


def fenced(w, f):
    return f + w + "\nb\n" + f + "\nc d\n"


#: one document of each kind, the word and the characters that there is a choice of
KINDS = [
    lambda g, w: w + "  \n" + w + " `a  b` [a](b)<br>c\n",
    lambda g, w: "##" + g.choose([" ", ""]) + w + "\n",
    lambda g, w: w + "\nb\n" + g.choose("=-") + "\n",
    lambda g, w: fenced(w, g.choose(["```", "~~~~", "`" * 9])),
    lambda g, w: "    " + w + "\n\n    b\n",
    lambda g, w: g.choose("*+-") + " " + w + "\n  b\n" + g.choose("*+-") + " c\n",
    lambda g, w: g.choose(["0", "7", "99"]) + ". " + w + "\nb\n1. c\n",
    lambda g, w: g.choose([">", "> "]) + w + "\nb c\n> > d\n",
    lambda g, w: "|a|\n|" + g.choose([":-", "-:", ":-:", "-"]) + "|\n|bb" + w + "|\n",
    lambda g, w: g.choose(["***", "- - -", "____"]) + "\n\n" + w + "\n",
    lambda g, w: "[" + w + "]: b 'c" + g.choose(["", "'"]) + "\n",
    lambda g, w: "\n\n" + w,
    lambda g, w: "**\n" + w + "\n",
    lambda g, w: "> |" + w + "\n",
]


def kinds(ctx):
    """One kind of document and then another, at the same or other line lengths."""
    g = G(ctx)
    a = KINDS[g.choose(list(range(len(KINDS))))](g, g.word(1))
    b = KINDS[g.choose(list(range(len(KINDS))))](g, g.word(1))
    wa = g.choose([5, math.inf])
    wb = g.choose([5, math.inf])
    ctx.note(first=a, second=b, widths=[wa, wb])
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    before = procstate.observe()
    r1 = run(ctx, R, b, wb)
    ctx.fresh()
    run(ctx, R, a, wa)
    r2 = run(ctx, R, b, wb)
    ctx.observe([r1, r2])
    check_state(ctx, before, "formatting")
    ctx.check(r1[0] == r2[0] and ctx.eq(r1[1], r2[1]), "the answer depends on history")


def levels(ctx):
    """Any logging levels: same answer, and the levels stay."""
    g = G(ctx)
    text = first_doc(g)
    LV = [0, 10, 20, 30, 40, 50]
    root = g.choose([10, 20, 30, 40, 50])
    package = g.choose(LV)
    module = g.choose(LV)
    ctx.note(text=text, levels=[root, package, module])
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    r0 = run(ctx, R, text, 5)
    with procstate.Levels(ctx.prefix, root, package, module):
        before = procstate.observe()
        r1 = run(ctx, R, text, 5)
        after = procstate.observe()
    ctx.observe([r0, r1])
    d = procstate.diff(before, after)
    ctx.check(not d, "formatting changes %s" % d)
    ctx.check(r0[0] == r1[0] and ctx.eq(r0[1], r1[1]), "the answer depends on logging")


def renumbered(ctx):
    """A program that gave its logging levels other numbers finds them unchanged."""
    import logging

    g = G(ctx)
    text = first_doc(g)
    name = g.choose(["INFO", "DEBUG", "WARNING", "ERROR"])
    value = g.choose([5, 15, 25])
    ctx.note(text=text, level=name, value=value)
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    r0 = run(ctx, R, text, 5)
    old = getattr(logging, name)
    try:
        setattr(logging, name, value)
        r1 = run(ctx, R, text, 5)
        now = getattr(logging, name)
    finally:
        logging.INFO, logging.DEBUG = 20, 10
        logging.WARNING, logging.ERROR = 30, 40
        setattr(logging, name, old)
    ctx.observe([r0, r1, now])
    ctx.check(now == value, "formatting changes logging." + name)
    ctx.check(r0[0] == r1[0] and ctx.eq(r0[1], r1[1]), "the answer depends on logging")


def shape_twice(ctx, name, lo=1, hi=8):
    """Formatting a document before, at another line length, does not matter."""
    g = G(ctx)
    text = doc_src(getattr(shapes, name)(g))
    w = ctx.width("w", lo, hi)
    v = g.choose([1, 4, 100] if hi > 3 else [4, 100])
    ctx.note(text=text, width=w, first_width=v)
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    before = procstate.observe()
    r1 = run(ctx, R, text, w)
    ctx.fresh()
    run(ctx, R, text, v)
    r2 = run(ctx, R, text, w)
    ctx.observe([r1, r2])
    check_state(ctx, before, "formatting")
    ctx.check(r1[0] == r2[0] and ctx.eq(r1[1], r2[1]), "the answer depends on history")
