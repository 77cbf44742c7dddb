"""Harness: a regular document of some shape, checked against one property."""
from . import docs, shapes
from .ref import Bullet, G, Quote, Table, doc_ref, doc_src


def has_table(b):
    if isinstance(b, Quote):
        return any(has_table(x) for x in b.blocks)
    if isinstance(b, Bullet):
        return any(has_table(x) for e in b.entries for x in e)
    return isinstance(b, Table)


def shape(ctx, name, prop, lo=1, hi=12):
    g = G(ctx)
    blocks = getattr(shapes, name)(g)
    if prop == "C05":
        # Tables are an extension that the reference renderer does not know
        ctx.assume(not any(has_table(b) for b in blocks))
    text = doc_src(blocks)
    width = ctx.width("w", lo, hi)
    ctx.note(text=text, width=width)
    if prop in ("C01", "C02", "C03", "C05"):
        docs.general(ctx, prop, text, width, regular=True)
        return
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    st, r = ctx.run(R, text, width)
    if st == "exc":
        ctx.observe(ctx.excname(r))
        ctx.fail("raised %s" % ctx.excname(r))
    ctx.observe(r)
    want = doc_ref(blocks, width)
    ctx.check(ctx.eq(r, want), "not laid out as documented")
