"""C22: line endings do not matter."""
from . import shapes
from .ref import G, doc_src


def endings(ctx, name, lo=1, hi=6):
    """Any line ending in place of each newline, and none at the end."""
    g = G(ctx)
    text = doc_src(getattr(shapes, name)(g))
    lines = text.split("\n")[:-1]
    style = g.choose(["\r\n", "\r", "mixed", "mixed2"])
    cycle = {"mixed": ["\r\n", "\n"], "mixed2": ["\r\n", "\r"]}.get(style, [style])
    other = ""
    for i, x in enumerate(lines):
        other = other + x
        if i < len(lines) - 1:
            other = other + cycle[i % len(cycle)]
    # a CR in front of an LF would be one line ending with it
    other = other + g.choose(["", "\r\n", "\r"])
    width = ctx.width("w", lo, hi)
    ctx.note(text=other, width=width)
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    a = ctx.run(R, text, width)
    b = ctx.run(R, other, width)
    ctx.observe([b[0], b[1] if b[0] == "ok" else ctx.excname(b[1])])
    ctx.check(a[0] == b[0], "line endings decide about success")
    if a[0] == "ok":
        ctx.check(ctx.eq(a[1], b[1]), "line endings make a difference")
