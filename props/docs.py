"""Harnesses over whole documents: C01 - C05."""
from . import render
from .ref import G

ALLOWED = ("ReformatInconsistentException", "MarkdownFormatException")


def free(ctx, n, alphabet="any", widths=(1, 20), prop="C01"):
    text = ctx.chars("t", n, alphabet)
    width = ctx.int("w", *widths)
    ctx.note(text=text, width=width)
    general(ctx, prop, text, width)


def soup(ctx, n, widths=(1, 3), prop="C01"):
    """Characters that mean something."""
    free(ctx, n, ("in", "a1 \n#>*-+.=|`~[]():\\<_"), widths, prop)


ODD = ["-", "+", "*", "1.", "2.", "#", ">", "=", "--", "==", "---", "|", "```", "~~~", ":", "1)", "a"]


def odd_words(ctx, n, prop="C01"):
    """Words that start blocks wherever a line starts with them."""
    g = G(ctx)
    text = g.word(1)
    for i in range(n):
        text = text + g.choose([" ", "\n"] if i == 0 else [" "]) + g.choose(ODD)
    text = text + g.choose(["\n", " " + g.word(1) + "\n"])
    width = ctx.width("w", 1, 4)
    ctx.note(text=text, width=width)
    general(ctx, prop, text, width)


def nested(ctx, depths, prop="C02"):
    """Quotes and lists in each other, many levels deep."""
    n = ctx.choose("n", depths)
    m = ctx.choose("m", [">", "> ", "* ", "1. ", "> * ", ">1. "])
    text = m * n + ctx.chars("t", 2, "any") + ctx.choose("e", ["\n", "\nb\n"])
    width = ctx.width("w", 1, 2)
    ctx.note(text=text, width=width)
    general(ctx, prop, text, width)


def general(ctx, prop, text, width, regular=False):
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    st, r = ctx.run(R, text, width)
    if st == "exc":
        n = ctx.excname(r)
        ctx.observe(n)
        if prop == "C02":
            if n not in ALLOWED:
                ctx.fail("raised %s in %s" % (n, ctx.excwhere(r)))
            if regular:
                ctx.fail("raised %s on a regular document" % n)
        elif regular:
            ctx.fail("raised %s on a regular document" % n)
        return
    ctx.observe(r)
    if prop == "C02":
        ctx.check(isinstance(r, str), "does not return a text")
    if prop == "C01":
        st, r2 = ctx.run(R, r, width)
        if st == "exc":
            ctx.fail("formatting the result raised " + ctx.excname(r2))
        ctx.check(ctx.eq(r2, r), "formatting the result changes it")
    elif prop == "C03":
        ctx.check(ctx.eq(r[-1:], "\n"), "does not end with a newline")
        body = r[:-1]
        ctx.check(ctx.Not(ctx.eq(body[-1:], "\n")), "ends with more than one newline")
        lines = body.split("\n")
        ctx.check("\r" not in r, "line endings other than newlines")
        for line in lines:
            hard = line[-2:] == "  " and line[-3:] != "   " and len(line) > 2
            if not hard:
                ctx.check(ctx.eq(line.rstrip(), line), "trailing white space")
    elif prop == "C05":
        a = render.says(ctx, text)
        b = render.says(ctx, r)
        ctx.check(
            len(a) == len(b) and ctx.And(*[
                x[0] == y[0] and ctx.eq(x[1:], y[1:]) for x, y in zip(a, b)
            ]),
            "renders differently",
        )


def around(ctx, parts, prop, widths=(1, 4)):
    """Free characters within a document that is given otherwise."""
    text = ""
    for i, p in enumerate(parts):
        if isinstance(p, str):
            text = text + p
        else:
            n, alphabet = p
            spec = alphabet if alphabet in ("any", "noline") else ("in", alphabet)
            text = text + ctx.chars("t%d" % i, n, spec)
    if prop == "C04":
        from .parse import partition, split_lines

        ctx.note(text=text)
        return partition(ctx, split_lines(text))
    width = ctx.width("w", *widths)
    ctx.note(text=text, width=width)
    general(ctx, prop, text, width)


#: every construct with free characters at the ends of its lines
TAILS = [
    ("para", ["a", 2, "\nb", 1, "\n"]),
    ("hard", ["a", 3, "\n\nb\n"]),
    ("atx", ["# a", 2, "\nb\n"]),
    ("setext", ["a", 1, "\n==", 2, "\nb\n"]),
    ("icode", ["    a", 2, "\n    b", 1, "\n"]),
    ("fence", ["```", 1, "\na", 2, "\n```", 1, "\n"]),
    ("info", ["~~~a", 2, "\nb\n~~~\n"]),
    ("quote", ["> a", 2, "\n> b", 1, "\nc\n"]),
    ("quoted", [">", 2, "\n>     a", 1, "\n"]),
    ("bullet", ["* a", 2, "\n  b", 1, "\n* c\n"]),
    ("empty", ["*", 2, "\n*", 1, "\n"]),
    ("ordered", ["1. a", 2, "\n2. b", 1, "\n"]),
    ("nested", ["* a\n  * b", 2, "\n", 1, "c\n"]),
    ("table", ["|a|", 1, "\n|-|", 1, "\n|b|", 1, "\n"]),
    ("cell", ["|a", 2, "|\n|-|\n|b|\n"]),
    ("break", ["---", 2, "\na\n"]),
    ("lrd", ["[a]: b", 3, "\nc\n"]),
    ("title", ['[a]: b "c', 1, '"', 2, "\nd\n"]),
    ("label", ["[", 2, "]: b\n", 1, "c\n"]),
    ("link", ["a [b]", 2, "(c)", 1, "\n"]),
    ("code", ["a `b", 2, "` c", 1, "\n"]),
    ("blank", ["a\n", 3, "\nb\n"]),
    ("end", ["a\n", 3]),
    ("start", [3, "\na\n"]),
]


def arounds(prop, sets, alphabet, more, widths, group):
    from symex.runner import Harness

    out = []
    for name, parts in sets:
        ps = [p if isinstance(p, str) else (p + more, alphabet) for p in parts]
        out.append(Harness(
            "docs", "around", name="%s_%s" % (group, name), parts=ps, prop=prop,
            widths=widths,
            bounds="%s; line length %d..%d or infinite" % (
                "".join(repr(p)[1:-1] if isinstance(p, str) else "<%d of %s>" % (
                    p[0], p[1] if p[1] in ("any", "noline") else repr(p[1]))
                    for p in ps), *widths)))
    return out
