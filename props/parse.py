"""C04: parsing partitions the lines."""
from . import shapes
from .ref import G, doc_src


def partition(ctx, lines):
    P = ctx.mod("parser")
    given = list(lines)
    st, r = ctx.run(P.parse_markdown, lines)
    if st == "exc":
        ctx.observe(ctx.excname(r))
        ctx.fail("parsing raised " + ctx.excname(r))
    ctx.observe([[t.value, list(c)] for t, c in r])
    ctx.check(len(lines) == len(given) and ctx.eq(list(lines), given),
              "the given lines were changed")
    out = []
    for t, c in r:
        ctx.check(len(c) > 0, "empty section")
        ctx.check(t.value != "Invalid", "invalid section")
        out += list(c)
    ctx.check(len(out) == len(given), "lines lost or repeated")
    ctx.check(ctx.eq(out, given), "lines changed or reordered")


def split_lines(text):
    lines = text.replace("\r\n", "\n").replace("\r", "\n").split("\n")
    return lines if lines[-1] else lines[:-1]


def free(ctx, n, alphabet="any"):
    text = ctx.chars("t", n, alphabet)
    ctx.note(text=text)
    partition(ctx, split_lines(text))


def free_lines(ctx, lens, alphabet):
    """Lines of given lengths over an alphabet."""
    lines = [ctx.chars("l%d" % i, n, ("in", alphabet)) for i, n in enumerate(lens)]
    ctx.note(text="\n".join(lines))
    partition(ctx, lines)


def shape(ctx, name):
    g = G(ctx)
    text = doc_src(getattr(shapes, name)(g))
    ctx.note(text=text)
    partition(ctx, text.split("\n")[:-1])


def line_sets(deep):
    """Line lengths and alphabets: what starts, continues and ends sections."""
    out = [
        ("para", "a=- #", [2, 2, 2]),
        ("list", "*1. a", [3, 2, 2]),
        ("quote", "> a`-", [2, 2, 2]),
        ("code", "`~ a", [4, 3, 4]),
        ("icode", " \ta", [4, 1, 4]),
        ("table", "|-a ", [2, 3, 2]),
        ("lrd", "[]:a\" ", [5, 2]),
    ]
    if deep:
        out += [
            ("para3", "a=-*_ #>", [3, 3, 3]),
            ("list4", "*1. a\t", [4, 3, 3]),
            ("quote4", "> a`-*", [3, 3, 3]),
            ("code4", "`~ a>", [5, 4, 4]),
            ("icode4", " \ta*", [5, 2, 5]),
            ("table4", "|-:a ", [3, 3, 3, 2]),
            ("lrd4", "[]:a\"'( ", [6, 3]),
        ]
    return out
