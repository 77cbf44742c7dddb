"""C15: rows that do not fit their table, and divider variants."""
from symex.runner import Harness

from .docs import general
from .ref import G


def harnesses(deep, prop="C15"):
    n = 4 if deep else 3
    kw = {"prop": prop}
    hs = [
        Harness("tables", "late", **kw,
                bounds="a table of 1, 2 or 20 columns and 5, 20 or 150 rows, one of which "
                "has a cell too many or too few; line length 10 or 88"),
        Harness("tables", "counts", cols=n, rows=2, **kw,
                bounds="1..%d columns, two rows of 0..%d cells each; any line length" % (
                    n, n + 1)),
        Harness("tables", "divider", n=5 if deep else 4,
                bounds="any divider cell of up to %d characters of ':- a'" % (
                    5 if deep else 4)),
    ]
    return hs if prop == "C15" else hs[:2]


def counts(ctx, cols, rows, prop="C15"):
    """Rows with other numbers of cells than the header are reported."""
    g = G(ctx)
    n = 1 + int(g.int(0, cols - 1))
    trail = g.flag()
    lines = []
    ok = True
    cells = []

    def row(k):
        cs = [g.word(1) for _ in range(k)]
        cells.append(cs)
        return "|" + "|".join(cs) + ("|" if trail else "")

    lines.append(row(n))
    lines.append("|" + "|".join(["---"] * n) + ("|" if trail else ""))
    for i in range(rows):
        k = 1 + int(g.int(0, cols))
        ok = ok and k == n
        lines.append(row(k))
    text = "\n".join(lines) + "\n"
    width = g.choose([1, 10, 88])
    ctx.note(text=text, width=width)
    if prop == "C02":
        return general(ctx, prop, text, width, ok)
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    st, r = ctx.run(R, text, width)
    ctx.observe([st, r if st == "ok" else ctx.excname(r)])
    if ok:
        ctx.check(st == "ok", "a proper table is refused")
    else:
        ctx.check(st == "exc" and ctx.excname(r) == "MarkdownFormatException",
                  "a row with another number of cells is not reported")


def late(ctx, prop="C15"):
    """A row with another number of cells, anywhere in a large table."""
    g = G(ctx)
    n = g.choose([1, 2, 20])
    rows = g.choose([5, 20, 150])
    k = g.choose([n - 1, n + 1]) if n > 1 else n + 1
    at = int(g.int(0, 3))
    at = [0, 1, rows // 2, rows - 1][at]
    w = g.word(2)
    lines = ["|" + "|".join(["a"] * n) + "|", "|" + "|".join(["-"] * n) + "|"]
    for i in range(rows):
        m = k if i == at else n
        lines.append("|" + "|".join([w] + ["b"] * (m - 1)) + "|")
    text = "\n".join(lines) + "\n"
    width = g.choose([10, 88])
    ctx.note(text=text, width=width)
    if prop == "C02":
        return general(ctx, prop, text, width)
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    st, r = ctx.run(R, text, width)
    ctx.observe([st, r if st == "ok" else ctx.excname(r)])
    ctx.check(st == "exc" and ctx.excname(r) == "MarkdownFormatException",
              "a row with another number of cells is not reported")


def divider(ctx, n):
    """Whatever the divider is: cells are kept, or the table is reported or no table."""
    g = G(ctx)
    k = 1 + int(g.int(0, n - 1))
    d = g.chars(k, ("in", ":- a"), "d")
    a, b = g.word(1), g.word(3)
    text = "|" + a + "|\n|" + d + "|\n|" + b + "|\n"
    ctx.note(text=text)
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    st, r = ctx.run(R, text, 88)
    ctx.observe([st, r if st == "ok" else ctx.excname(r)])
    body = d.strip()
    core = body
    if core[:1] == ":":
        core = core[1:]
    if core[-1:] == ":":
        core = core[:-1]
    dashes = len(core) > 0 and all(c == "-" for c in core)
    if st == "exc":
        ctx.check(ctx.excname(r) == "MarkdownFormatException", "raised " + ctx.excname(r))
        ctx.check(not dashes, "a proper table is refused")
        return
    if dashes:
        left, right = body[:1] == ":", body[-1:] == ":"
        w = max(1, 3)
        if right and not left:
            ca = " " * (w - 1) + a
        elif left and not right:
            ca = a + " " * (w - 1)
        else:
            ca = " " + a + " "
        want = ("| " + ca + " |\n|" + (":" if left else "-") + "-" * w
                + (":" if right else "-") + "|\n| " + b + " |\n")
        ctx.check(ctx.eq(r, want), "not laid out as documented")
    else:
        kept = [c for c in text if not c.isspace()]
        out = [c for c in r if not c.isspace()]
        ctx.check(len(kept) == len(out) and ctx.eq(kept, out), "text lost")
