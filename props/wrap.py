"""C07: wrapping changes white space and nothing else."""
from . import known, shapes
from .ref import G, doc_src


def ink(s):
    return [c for c in s if not c.isspace()]


def gaps(s):
    """The white space between each pair of neighbouring inked characters."""
    out = []
    seen = False
    gap = ""
    for c in s:
        if c.isspace():
            gap = gap + c
        else:
            if seen:
                out.append(gap)
            seen, gap = True, ""
    return out


def solid(gap):
    """White space that is text: no-break spaces, for example"""
    return len(gap) > 0 and not any([c in " \t\n\r\x0b\x0c" for c in gap])


def free(ctx, n, alphabet, widths=(1, 9), lead="", tail=""):
    """Any n characters of an alphabet, as (part of) a paragraph."""
    text = lead + ctx.chars("t", n, ("in", alphabet)) + tail
    width = ctx.width("w", *widths)
    ctx.note(text=text, width=width)
    kept(ctx, text, width)


def around(ctx, parts, widths=(1, 6)):
    """Free characters around given ones."""
    text = ""
    for i, p in enumerate(parts):
        if isinstance(p, str):
            text = text + p
        else:
            spec = p[1] if p[1] in ("space", "noline") else ("in", p[1])
            text = text + ctx.chars("t%d" % i, p[0], spec)
    width = ctx.width("w", *widths)
    text = text + "\n"
    ctx.note(text=text, width=width)
    kept(ctx, text, width)


def neighbours(deep):
    """Inline markup and what may stand next to it."""
    any_ = "a ()[].,`*!"
    n = 3 if deep else 2
    return [
        ("link", [(n, any_), "[a](b)", (n, any_)]),
        ("linked", [(n, "a ()["), "[a b](c)", (n, "a ()["), "d"]),
        ("ref", [(n, any_), "[a][b]", (n, any_)]),
        ("short", [(n, any_), "[a]", (n, any_)]),
        ("code", [(n, any_), "`a  b`", (n, any_)]),
        ("br", [(n, any_), "<br>", (n, any_)]),
        ("links", ["[a](b)", (n + 1, "a ()[]."), "[c](d)"]),
        ("refs", ["[a][b]", (n + 1, "a ()[]."), "[c][d]"]),
        ("codes", ["`a`", (n + 1, "a ()."), "`b c`"]),
        ("text", ["[", (n + 1, "a ."), "](b)", (n, "a ")]),
        ("texts", [(n, "a ("), "[", (n, "a `"), "][b]", (n, "a ")]),
        ("target", ["[a](", (n + 1, "a .\""), ")", (n, "a ")]),
        ("mixed", ["[a](b)", (n, any_), "`c`", (n, any_), "<br/>"]),
        ("image", [(n, "a !["), "![a b](c)", (n, "a )].!")]),
        ("words", ["aa", (n + 2, "a  .`["), "b"]),
        ("space", ["a", (n, "space"), "b", (1, "space"), "cc"]),
        ("spaces", ["a b", (1, "space"), "[c", (1, "space"), "d](e)", (1, "space"), "`f g`"]),
        ("kept", ["a", (n + 1, "noline"), "b"]),
        ("tag", [(1, "a "), "<b", (n + 1, "ra /"), ">", (n, "a ")]),
    ]


def glued(before, after):
    """Known finding adjacent-links: a link, a space, text and a reference behind that"""
    if not ("](" in before or "][" in before) or after[:1] == "[":
        return False
    n = 0
    while n < len(after) and not after[n].isspace() and after[n] != "[":
        n += 1
    return after[n:n + 1] == "[" and "][" in after[n:]


BRS = ("<br>", "<br >", "<br/>", "<br />")


def kept(ctx, text, width):
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    st, r = ctx.run(R, text, width)
    if st == "exc":
        ctx.observe(ctx.excname(r))
        return
    ctx.observe(r)
    a, b = ink(text), ink(r)
    ctx.check(len(a) == len(b) and ctx.eq(a, b), "text changed")
    ga, gb = gaps(text), gaps(r)
    at = [j for j, c in enumerate(text) if not c.isspace()]
    plain = not any([c in "`[<" for c in a])
    for i in range(len(ga)):
        if plain and solid(ga[i]):
            # white space of other kinds next to this one counts as such, as it does
            # next to code, links and HTML line breaks: finding nbsp
            ctx.check(len(ga[i]) == len(gb[i]) and ctx.eq(ga[i], gb[i]),
                      "text between words changed")
        elif ga[i] and not gb[i]:
            # words that were separated
            if glued(text[:at[i] + 1], text[at[i + 1]:]):
                ctx.check(known.listed("adjacent-links"), "links are joined")
            elif not (a[i] in "([" and i and a[i - 1] == "]"):
                ctx.check(False, "words that were separated are joined")
        elif gb[i] and not ga[i]:
            ctx.check(
                (a[i] in "([" and i > 0 and a[i - 1] == "]")
                or text[:at[i] + 1].endswith(BRS),
                "a line is broken inside of a word",
            )


def shape(ctx, name, lo=1, hi=12):
    g = G(ctx)
    text = doc_src(getattr(shapes, name)(g))
    width = ctx.width("w", lo, hi)
    ctx.note(text=text, width=width)
    kept(ctx, text, width)


def sets(deep):
    """Alphabets, what stands around them, and how many characters."""
    return [
        ("link", "[]()a. ", "a", "a", (3, 4, 5) if deep else (2, 3, 4)),
        ("inlink", "[]()`! a", "[a](", "b) c", (2, 3, 4) if deep else (2, 3)),
        ("code", "`a []", "a", "a", (4, 5, 6) if deep else (3, 4)),
        ("html", "<br/> a", "a<", "a", (4, 5) if deep else (3, 4)),
        ("dots", "a.,! \\", "", "a", (3, 4) if deep else (3,)),
    ]
