"""What a CommonMark document says: its rendering without collapsible white space.

The renderer is the commonmark package, executed symbolically like the code under test.
Three of its functions are replaced on both sides of every comparison: URLs are not
percent-encoded, labels are matched by case, and only ASCII punctuation decides whether
asterisks are emphasis.
"""
import re

PUNCTUATION = re.compile(r"[!\"#$%&'()*+,\-./:;<=>?@\[\]\\^_`{|}~]")
SPACES = re.compile(r"[ \t\r\n]+")


def same(uri):
    return uri


def label(string):
    return SPACES.sub(" ", string[1:-1].strip())


def parser(ctx):
    inlines = ctx.lib("commonmark.inlines")
    inlines.normalize_uri = same
    inlines.normalize_reference = label
    inlines.rePunctuation = PUNCTUATION
    return ctx.lib("commonmark").Parser()


def squeeze(s):
    """Text with white space collapsed, as a list of words."""
    return [w for w in s.split() if len(w)]


def says(ctx, text):
    """The document tree as a flat list of events."""
    ast = parser(ctx).parse(text)
    out = []
    for node, entering in ast.walker():
        t = node.t
        if t in ("text", "softbreak"):
            if not entering:
                continue
            lit = node.literal if t == "text" else " "
            if out and out[-1][0] == "text":
                out[-1] = ("text", out[-1][1] + lit)
            else:
                out.append(("text", lit))
        elif t in ("code", "html_inline"):
            out.append((t, " ".join(squeeze(node.literal)) if t == "html_inline"
                        else node.literal))
        elif t in ("code_block", "html_block"):
            lines = [x.rstrip() for x in node.literal.split("\n")]
            while lines and not len(lines[-1]):
                lines.pop()
            out.append((t, node.info or "", "\n".join(lines)))
        elif t == "list":
            data = node.list_data
            out.append((t, entering, data["type"],
                        data["start"] if data["type"] == "ordered" else None))
        elif t in ("link", "image"):
            out.append((t, entering, node.destination or "",
                        " ".join(squeeze(node.title or ""))))
        elif t == "heading":
            out.append((t, entering, node.level))
        else:
            out.append((t, entering))
    res = []
    for e in out:
        if e[0] == "text":
            # Brackets of reference links without a definition
            e = ("text", " ".join(squeeze(e[1])).replace("][ ", "][").replace("]( ", "]("))
        res.append(e)
    return res
