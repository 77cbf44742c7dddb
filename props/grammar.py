"""A reference formatter for documents of few lines over small alphabets.

It is written from the README and from CommonMark, line by line, and shares no code with the
code under test.  Where neither says what should come out it gives up (Unspecified), and the
harness leaves that input out.  Unlike the shapes, which know what they consist of, this
decides what every line *is*: which lines start, continue, interrupt and end which blocks.
"""
from symex.runner import Harness

from .ref import fill


class Unspecified(Exception):
    pass


class TableError(Exception):
    pass


def blank(x):
    return len(x.strip()) == 0


def cols(x):
    x = x.expandtabs(4)
    return len(x) - len(x.lstrip(" "))


def atx(x):
    return cols(x) < 4 and x.lstrip()[:1] == "#"


def thematic(x):
    if cols(x) >= 4:
        return False
    s = [c for c in x if c not in " \t"]
    return len(s) >= 3 and s[0] in "*-_" and all(c == s[0] for c in s)


def underline(x):
    s = x.strip()
    if cols(x) >= 4 or not len(s):
        return False
    return s[0] in "=-" and all(c == s[0] for c in s)


def run(s, ch):
    n = 0
    while n < len(s) and s[n] == ch:
        n += 1
    return n


def fence(x):
    """(character, length, info string) of an opening fence"""
    s = x.strip()
    if cols(x) >= 4 or not len(s) or s[0] not in "`~":
        return None
    ch = "`" if s[0] == "`" else "~"
    n = run(s, ch)
    if n < 3:
        return None
    info = s[n:].strip()
    if ch == "`" and "`" in info:
        return None
    return ch, n, info


def closes(x, ch, n):
    s = x.strip()
    return len(s) >= n and all(c == ch for c in s)


def quote(x):
    return cols(x) < 4 and x.lstrip()[:1] == ">"


def table(x):
    return cols(x) < 4 and x.lstrip()[:1] == "|"


def marker(x):
    """(kind, number, position after the marker) of a list entry"""
    if cols(x) >= 4 or blank(x) or thematic(x):
        return None
    i = len(x) - len(x.lstrip())
    s = x[i:]
    if s[0] in "*-+":
        kind, number, n = "bullet", s[0], 1
    else:
        n = 0
        while n < len(s) and s[n] in "0123456789":
            n += 1
        if n == 0 or n >= len(s) or s[n] not in ".)":
            return None
        if s[n] == ")":
            rest = s[n + 1:]
            if not len(rest) or rest[0] in " \t":
                raise Unspecified("1)")
            return None
        kind, number = "ordered", int(s[:n])
        n += 1
    if n < len(s):
        if s[n] == "\t":
            raise Unspecified("tabs in lists")
        if s[n] != " ":
            return None
    return kind, number, i + n


def starts(x):
    """Does a line start a block of its own within a paragraph?"""
    if atx(x) or thematic(x) or fence(x) or quote(x) or table(x):
        return True
    m = marker(x)
    if m is None:
        return False
    if blank(x[m[2]:]):
        return False
    if m[0] == "ordered" and m[1] != 1:
        raise Unspecified("an ordered list that does not start with 1 and follows text")
    return True


def words(lines):
    """The words of paragraph text without anything inline."""
    out = []
    if sum([x.count("`") for x in lines]) > 1:
        raise Unspecified("code spans")
    for x in lines:
        if "\t" in x.strip():
            raise Unspecified("tabs between words")
        if "](" in x or "][" in x or "<" in x:
            raise Unspecified("links and tags")
        out += [[w] for w in x.split()]
    return out


def para(lines, width):
    out = fill(words(lines), width)
    if thematic(out[0]):
        raise Unspecified("a paragraph that is a thematic break if it is on one line")
    return out


def continues(x):
    return not (blank(x) or underline(x) or starts(x))


def indented(lines, i):
    """End of the indented code that starts at line i"""
    end = i + 1
    for j in range(i + 1, len(lines)):
        if blank(lines[j]):
            continue
        if cols(lines[j]) < 4:
            break
        end = j + 1
    return end


def blocks(lines, width, seen):
    """[(kind, output lines, ends with an open paragraph)]"""
    out = []
    i = 0
    while i < len(lines):
        x = lines[i]
        if blank(x):
            out.append(("blank", [""], False))
            i += 1
        elif cols(x) >= 4:
            j = indented(lines, i)
            out.append(("icode", [y.rstrip() for y in lines[i:j]], False))
            i = j
        elif atx(x):
            s = x.strip()
            n = run(s, "#")
            text = s[n:].strip()
            out.append(("atx", ["#" * n + (" " + text if len(text) else "")], False))
            i += 1
        elif thematic(x):
            s = x.strip()
            ch = [c for c in "*-_" if s[0] == c][0]
            n = 3 if width == float("inf") else max(3, width)
            if ch == "-" and out and out[-1][2]:
                # known finding thematic-underline
                raise Unspecified("dashes that are an underline without their spaces")
            out.append(("thematic", [ch * n], False))
            i += 1
        elif fence(x):
            ch, n, info = fence(x)
            if cols(x):
                raise Unspecified("indented fences")
            j = i + 1
            body = []
            while j < len(lines) and not closes(lines[j], ch, n):
                body.append(lines[j].rstrip())
                j += 1
            if j < len(lines) and cols(lines[j]) >= 4:
                raise Unspecified("closing fence indented too far")
            if ch == "~" and info[:1] == "~":
                info = " " + info
            out.append(("fence", [ch * n + info] + body + [ch * n], False))
            i = j + 1
        elif table(x):
            j = i + 1
            while j < len(lines) and lines[j].lstrip()[:1] == "|":
                j += 1
            out.append(("table", rows(lines[i:j]), False))
            i = j
        elif quote(x):
            i = quoted(lines, i, width, seen, out)
        elif marker(x):
            i = listed(lines, i, width, seen, out)
        else:
            if x.lstrip()[:1] == "[":
                got = definition(lines, i, width)
                if got:
                    out.append(("lrd", got[0], False))
                    i = got[1]
                    continue
            j = i + 1
            hard = x.endswith("  ")
            while j < len(lines) and not hard and continues(lines[j]):
                hard = lines[j].endswith("  ")
                j += 1
            text = lines[i:j]
            if j < len(lines) and underline(lines[j]):
                if hard:
                    raise Unspecified("a hard line break in a heading")
                u = "=" if lines[j].strip()[0] == "=" else "-"
                head = para(text, width)
                if out and out[-1][0] == "quote":
                    raise Unspecified("heading below a quote")
                out.append(("setext", head + [u * max([len(y) for y in head])], False))
                j += 1
            else:
                body = para(text, width)
                if x.lstrip()[:1] == "[" and (hard or definition(body, 0, width)):
                    raise Unspecified("wrapping makes a definition")
                if hard:
                    body[-1] = body[-1] + "  "
                    rest = lines[j] if j < len(lines) else ""
                    if underline(rest) or (not blank(rest) and cols(rest) >= 4):
                        raise Unspecified("after a hard line break")
                out.append(("para", body, True))
            i = j
    for k in out:
        seen.add(k[0])
    return out


def closing(s, c):
    """Position of the first character c that is not escaped, or -1"""
    j = 0
    while j < len(s):
        if s[j] == "\\":
            j += 1
        elif s[j] == c:
            return j
        j += 1
    return -1


def plain(x):
    if blank(x) or starts(x) or underline(x):
        raise Unspecified("a definition is interrupted")
    return x


def definition(lines, i, width):
    """(output lines, where it ends) of a link reference definition"""
    s = lines[i].strip()
    n = closing(s[1:], "]") + 1
    if n == 0:
        if i + 1 < len(lines) and not blank(lines[i + 1]):
            raise Unspecified("a label on two lines")
        return None
    if n == 1 or n + 1 >= len(s) or s[n + 1] != ":":
        return None
    label = s[1:n]
    if len(label) > 999:
        if "\\" in label:
            raise Unspecified("escapes in labels that are too long")
        return None
    if blank(label) or " " in label or "[" in label or "\t" in label:
        raise Unspecified("white space and brackets in labels")
    rest = s[n + 2:].strip()
    out = ["[" + label + "]:"]
    k = i
    if not len(rest):
        k = i + 1
        if k >= len(lines) or blank(lines[k]) or lines[k].lstrip()[:1] == "[":
            raise Unspecified("a definition without a destination")
        rest = plain(lines[k]).strip()
        out.append("")
    dest = rest.split()[0]
    if dest[0] == "<" or "(" in dest or ")" in dest:
        raise Unspecified("brackets around destinations, parentheses in them")
    out[-1] = dest if len(out) == 2 else out[0] + " " + dest
    tail = rest[len(dest):].strip()
    same = len(tail) > 0
    k += 1
    if not same:
        if k >= len(lines) or blank(lines[k]) or lines[k].strip()[0] not in "'\"(":
            return out, k
        tail = plain(lines[k]).strip()
        k += 1
    if tail[0] not in "'\"(":
        return None
    c = ")" if tail[0] == "(" else ("'" if tail[0] == "'" else '"')
    title = [tail]
    text = tail[1:]
    after = k
    while True:
        if c == ")" and closing(text, "(") >= 0:
            raise Unspecified("parentheses in parentheses")
        n = closing(text, c)
        if n >= 0:
            ok = n == len(text) - 1
            break
        if after >= len(lines) or blank(lines[after]):
            ok = False
            break
        text = plain(lines[after]).strip()
        title.append(text)
        after += 1
    if not ok:
        return None if same else (out, k - 1)
    ws = words(title)
    if same and len(out[-1]) + len(ws[0][0]) <= width:
        out = out[:-1] + fill(words([out[-1]]) + ws, width)
    else:
        out = out + fill(ws, width)
    for x in out[1:]:
        plain(x)
    return out, after


def quoted(lines, i, width, seen, out):
    inner = []
    while i < len(lines) and quote(lines[i]):
        inner.append(lines[i].lstrip()[1:])
        i += 1
    ink = [x for x in inner if not blank(x)]
    space = bool(ink) and ink[0][:1] == " "
    for x in ink:
        if (x[:1] == " ") != space or x[:1] == "\t":
            raise Unspecified("quote markers with and without spaces")
    if space:
        inner = [x[1:] for x in inner]
    sub = width - (2 if space else 1)
    got = blocks(inner, sub, set())
    while i < len(lines) and got and got[-1][2]:
        x = lines[i]
        if blank(x) or quote(x):
            break
        if underline(x):
            if thematic(x):
                break
            raise Unspecified("a lazy underline")
        if starts(x):
            break
        if marker(x):
            raise Unspecified("a list entry that cannot interrupt a paragraph")
        if i + 1 < len(lines) and underline(lines[i + 1]):
            raise Unspecified("a heading directly below a quote")
        if x.endswith("  "):
            raise Unspecified("a lazy line with a hard line break")
        inner.append(x)
        seen.add("lazy")
        got = blocks(inner, sub, set())
        i += 1
    if i < len(lines) and quote(lines[i]):
        raise Unspecified("a quote that goes on after a lazy line")
    body = []
    for b in blocks(inner, sub, seen):
        body += b[1]
    while body and not len(body[-1]):
        # blank lines at the end of a quote stay
        break
    p = "> " if space else ">"
    out.append(("quote", [(p + y if len(y) else ">") for y in body],
                bool(got) and got[-1][2]))
    return i


def listed(lines, i, width, seen, out):
    kind, first, end = marker(lines[i])
    base = cols(lines[i])
    entries = []
    while i < len(lines) and not blank(lines[i]):
        x = lines[i]
        m = None if cols(x) != base else marker(x)
        if m:
            if m[0] != kind:
                raise Unspecified("lists of different kinds")
            if "\t" in x[:m[2]]:
                raise Unspecified("tabs in lists")
            end = m[2]
            rest = x[end:]
            if rest[:2] == "  " and not blank(rest):
                # the text starts further to the right
                entries.append([rest[1:]])
                wide = True
            else:
                entries.append([rest[1:]])
                wide = False
            i += 1
            continue
        if "\t" in x:
            raise Unspecified("tabs in lists")
        if cols(x) <= end:
            if table(x) or thematic(x):
                break
            if starts(x) or underline(x):
                raise Unspecified("a block that follows a list without a blank line")
            got = blocks(entries[-1], width, set())
            if not got or not got[-1][2] or wide or cols(x) != 0:
                raise Unspecified("lazy lines in lists")
            entries[-1].append(x)
        else:
            if wide:
                raise Unspecified("text starts further to the right")
            entries[-1].append(x[end + 1:])
        i += 1
    body = []
    for k, e in enumerate(entries):
        if kind == "bullet":
            m = [c for c in "*-+" if first == c][0]
            indent = 2
        else:
            m = "%d." % (first + k)
            indent = len("%d." % (first + len(entries) - 1)) + 1
        got = blocks(e, width - indent, seen) if any(not blank(x) for x in e) else []
        ys = []
        for b in got:
            ys += b[1]
            if b[0] == "blank":
                raise Unspecified("an entry that starts with an empty line")
        if not ys:
            body.append(m)
        for n, y in enumerate(ys):
            if n == 0:
                if thematic(m + " " + y):
                    raise Unspecified("the marker and its text are a thematic break")
                body.append(m + " " + y)
            else:
                body.append(" " * (len(m) + 1) + y if len(y) else "")
    out.append((kind, body, False))
    return i


def cells(x):
    x = x.strip()[1:]
    out = []
    cur = ""
    for i, c in enumerate(x):
        if c == "|" and (i == 0 or x[i - 1] != "\\"):
            out.append(cur.strip())
            cur = ""
        else:
            if c == "|" and i > 1 and x[i - 2] == "\\":
                raise Unspecified("two backslashes in front of a pipe")
            cur = cur + c
    if len(cur.strip()) or not out:
        out.append(cur.strip())
    return out


def rows(lines):
    if len(lines) < 2:
        raise TableError()
    head = cells(lines[0])
    div = cells(lines[1])
    if len(div) != len(head):
        raise TableError()
    al = []
    for d in div:
        core = d
        left = core[:1] == ":"
        if left:
            core = core[1:]
        right = core[-1:] == ":"
        if right:
            core = core[:-1]
        if not len(core) or not all(c == "-" for c in core):
            raise TableError()
        al.append((bool(left), bool(right)))
    body = [cells(x) for x in lines[2:]]
    for r in body:
        if len(r) != len(head):
            raise TableError()
    ws = [max(len(r[k]) for r in [head] + body) for k in range(len(head))]

    def put(c, k, header):
        pad = ws[k] - len(c)
        left, right = al[k]
        if (left and right) or (header and not left and not right):
            return " " * (pad // 2) + c + " " * (pad - pad // 2)
        if right:
            return " " * pad + c
        return c + " " * pad

    def row(r, header):
        return "|" + "|".join(" " + put(c, k, header) + " " for k, c in enumerate(r)) + "|"

    d = "|" + "|".join((":" if a[0] else "-") + "-" * ws[k] + (":" if a[1] else "-")
                       for k, a in enumerate(al)) + "|"
    return [row(head, True), d] + [row(r, False) for r in body]


def lines_of(ctx, parts):
    """Lines from literals and (length, alphabet) pairs."""
    out = []
    for i, line in enumerate(parts):
        if not isinstance(line, list):
            line = [line]
        s = ""
        for j, p in enumerate(line):
            if isinstance(p, str):
                s = s + p
            else:
                n, alphabet = p
                name = "l%d.%d" % (i, j)
                if isinstance(n, list):
                    s = s + alphabet * ctx.choose(name, n)
                    continue
                spec = alphabet if alphabet == "noline" else ("in", alphabet)
                s = s + ctx.chars(name, n, spec)
        out += s.split("\n")
    return out


def doc(ctx, parts, kinds, lo=1, hi=6):
    lines = lines_of(ctx, parts)
    width = ctx.width("w", lo, hi)
    text = "\n".join(lines) + "\n"
    ctx.note(text=text, width=width)
    seen = set()
    want = None
    try:
        out = []
        for b in blocks(lines, width, seen):
            out += b[1]
        while out and not len(out[-1]):
            out.pop()
        if out:
            want = "\n".join(out).rstrip() + "\n"
        else:
            want = "\n"
        ctx.assume(not kinds or any(k in seen for k in kinds))
    except Unspecified:
        ctx.assume(False)
    except TableError:
        ctx.assume("table" in kinds)
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    st, r = ctx.run(R, text, width)
    if st == "exc":
        ctx.observe(ctx.excname(r))
        ctx.check(want is None, "raised " + ctx.excname(r))
        ctx.check(ctx.excname(r) == "MarkdownFormatException", "raised " + ctx.excname(r))
        return
    ctx.observe(r)
    ctx.check(want is not None, "a malformed table is not reported")
    ctx.check(ctx.eq(r, want), "not laid out as documented")


def answers(ctx, parts, prop, lo=1, hi=6):
    """The same documents, for C01 to C03."""
    from .docs import general

    lines = lines_of(ctx, parts)
    width = ctx.width("w", lo, hi)
    text = "\n".join(lines) + "\n"
    ctx.note(text=text, width=width)
    try:
        blocks(lines, width, set())
    except (Unspecified, TableError):
        ctx.assume(False)
    general(ctx, prop, text, width, True)


def renders(ctx, parts, lo=1, hi=6):
    """The same documents, as a CommonMark renderer sees them."""
    from .docs import general

    lines = lines_of(ctx, parts)
    width = ctx.width("w", lo, hi)
    text = "\n".join(lines) + "\n"
    ctx.note(text=text, width=width)
    seen = set()
    try:
        blocks(lines, width, seen)
    except (Unspecified, TableError):
        ctx.assume(False)
    ctx.assume("table" not in seen)
    for x in lines:
        # A heading without a space behind its octothorpes is none to CommonMark.
        s = x.lstrip(" \t>*-+1.~`")
        n = run(s, "#")
        ctx.assume(n == 0 or (n < 7 and (n == len(s) or s[n] in " \t")))
        # Tabs behind closing fences are new in CommonMark 0.30.
        ctx.assume(not ("fence" in seen and x.rstrip(" ")[-1:] == "\t"))
        # known finding backslash-break
        ctx.assume("\\ " not in x and "\\\t" not in x and x[-1:] != "\\")
        if "[" in lines[0]:
            # Quirks of the renderer: tabs behind titles, escaped closing quotation marks,
            # and empty titles that something follows.
            ctx.assume("\t" not in x)
            ctx.assume(not any(q in x for q in ("\\'", '\\"', "\\)", "''", '""', "()")))
    markers = []
    if "bullet" in seen or "ordered" in seen:
        for i, x in enumerate(lines):
            # known findings list-blank and list-tabs
            ctx.assume(not (blank(x) and i + 1 < len(lines) and cols(lines[i + 1])))
            ctx.assume("\t" not in x)
            s = x.lstrip(" >")
            if len(s) and s[0] in "*-+":
                markers.append(s[0])
        # MarkFlow takes entries with different markers for one list.
        ctx.assume(all(m == markers[0] for m in markers))
    general(ctx, "C05", text, width, True)


def specs(prop, deep):
    """(name, parts, kinds)"""
    d = 1 if deep else 0
    some = (list(range(13)) if deep else [0, 3, 4, 8], " ")
    return {
        "C08": [
            ("line", [[(4 + d, "# \ta1")]], ["atx"]),
            ("any", [["#", (2, "noline")]], ["atx"]),
            ("text", [["## ", (3 + d, "# a\\`*")]], ["atx"]),
            ("end", [["# a", (3 + d, "# \ta")]], ["atx"]),
            ("para", ["a", [(3, " #a")], "b"], ["atx"]),
            ("after", [[(3, " #\t")], [(2, " #a")]], ["atx"]),
            ("quote", [["> ", (3, "# a")]], ["atx"]),
            ("entry", [["- ", (3, "# a")], "  a"], ["atx"]),
            ("levels", [[([0, 1, 3], " "), ([1, 2, 5, 6, 7, 9], "#"), (2, "# a"), " b"]],
             ["atx"]),
        ],
        "C09": [
            ("under", ["aa b", [(4 + d, "-= \ta")]], ["setext", "para"]),
            ("two", [[(2, "-=a ")], [(3, "-=a ")], "b"], ["setext"]),
            ("indent", [[(3, " a")], [(5, " =-")]], ["setext"]),
            ("wrap", [[(4, "a ")], [(3, "a ")], "=="], ["setext"]),
            ("after", ["a", [(2, "=-")], [(2, "=-")], "c"], ["setext"]),
            ("blank", ["a", [(2, " =")], [(3, "= -")]], ["setext", "para"]),
            ("quote", ["> a", ["> ", (3, "=- a")]], ["setext"]),
            ("entry", ["* a", ["  ", (3, "= a")]], ["setext"]),
            ("word", [[(2, "a#+1.")], "--"], ["setext"]),
            ("deep", [[some, "a"], [some, (2, "=-b")], "c"], ["setext", "para"]),
            ("long", [["a", ([0, 20], "a"), " ", ([1, 30], "b")], [(1, "=-"), ([0, 2, 50], "=")]],
             ["setext"]),
        ],
        "C10": [
            ("tilde", [["~~~", (3 + d, "~` a\t")], "a  a", "~~~", "b  b"], ["fence"]),
            ("tick", [["```", (3 + d, "`~ a\t")], "a  a", "```", "b  b"], ["fence"]),
            ("close", ["~~~~", "a  a", [(6, "~ a")], "b  b"], ["fence"]),
            ("ticks", ["```", [(5, "` \t~")], "b  b", "```"], ["fence"]),
            ("content", ["```", [(3, " #>-*\t|a")], [(2, " a`")], "```", "c  c"], ["fence"]),
            ("any", ["~~~", ["a", (2, "noline")], "~~~"], ["fence"]),
            ("info", [["~~~", (2, "noline")], "a", "~~~"], ["fence"]),
            ("open", ["~~~", [(3, "~ a\t")], [(2, " a")]], ["fence"]),
            ("para", ["a", [(4, "`~ a")], "a  b"], ["fence"]),
            ("quote", ["> ~~~", [(1, "> "), " ", (3, "~a")], "b"], ["fence"]),
            ("entry", ["* ~~~", ["  ", (3, "~* a")], ["  ", (3, "~* ")], "* b"], ["fence"]),
            ("lengths", [[([0, 3], " "), ([3, 4, 9], "~"), (1, " a")], "a  a",
                         [([0, 3], " "), ([2, 3, 4, 9, 10], "~"), (1, " a")], "b  b"],
             ["fence", "para"]),
            ("deep", ["```", [some, (2, "`a")], [some, "```"], "b  b"], ["fence"]),
        ],
        "C11": [
            ("line", [[(6, " \ta")]], ["icode"]),
            ("lines", [["    a", (1, " \t")], [(5, " \ta")], [(5, " a")]], ["icode"]),
            ("blank", ["    a", [(2, " \t")], [(1, " ")], ["    ", (2, "a \t")]], ["icode"]),
            ("para", [[(2, "a ")], [(5, " a\t")]], ["icode", "para"]),
            ("any", [["    a", (2, "noline"), "a"]], ["icode"]),
            ("looks", [["    ", (3, "#>-*`~|=1.[")], ["    ", (2, "-=#`a")]], ["icode"]),
            ("after", [[(1, "#a"), " a"], [(5, " a")], [(5, " a")]], ["icode"]),
            ("quote", [[">", (6, " \ta")]], ["icode"]),
            ("entry", [["-", (6, " a")]], ["icode"]),
            ("lazy", ["a", [some, (1, "a-#")], [some, "c"]], ["para", "icode"]),
            ("deep", [[some, "a"], [some, (1, "a ")], [some, "c"]], ["icode"]),
        ],
        "C12": [
            ("line", [[(3, "*-+ a")], "* b"], ["bullet"]),
            ("second", ["* a", [(5, " *-a")]], ["bullet"]),
            ("third", ["- a", ["  ", (3, " -a")], [(4, " -a")]], ["bullet"]),
            ("deep", ["* a", "  * b", [(2, " "), (4, " *a")]], ["bullet"]),
            ("empty", [["*", (1, " ")], [(3, " *a")], ["* c"]], ["bullet"]),
            ("para", ["a", [(3, "*-+ a")], "b"], ["bullet"]),
            ("end", ["+ a", [(4, "+-* _|")], "b"], ["bullet"]),
            ("indent", [[(3, " "), "* a"], [(3, " "), (1, "*a "), " b"]], ["bullet"]),
            ("blocks", [["* ", (3, "#>-a ")], ["  ", (3, "#>-a ")]], ["bullet"]),
            ("fence", ["* ~~~", [(2, " "), (3, "~* a")], [(2, " "), (3, "~*a")], "* b"],
             ["bullet"]),
            ("indents", ["* a", [some, (1, "*a"), " b"], [some, (1, "*a"), " c"]],
             ["bullet"]),
            ("column", ["* ~~~", [(list(range(7)), " "), (1, "a~")], [(list(range(7)), " "), "b"],
                        "  ~~~", "* b"], ["bullet"]),
            ("markers", [[(1, "*-+"), " a"], [([0, 2], " "), (1, "*-+"), " b"],
                         [([0, 2], " "), (1, "*-+"), " c"]], ["bullet"]),
        ],
        "C13": [
            ("line", [[(4, "0129. a")], "1. b"], ["ordered"]),
            ("second", ["1. a", [(5, " 12.a")]], ["ordered"]),
            ("numbers", [[(1, "0189"), (1, "09"), ". a"], [(2, "019"), ". b"], "3. c"],
             ["ordered"]),
            ("more", ["9. a", [(1, "17"), ". ", (2, "ab ")], ["   ", (2, "ab ")], "1. c"],
             ["ordered"]),
            ("deep", ["1. a", "   1. b", ["   ", (4, " 1.a")]], ["ordered"]),
            ("empty", [["1.", (1, " ")], [(4, " 1.a")], "1. c"], ["ordered"]),
            ("para", ["a", [(3, "1. a")], "b"], ["ordered"]),
            ("big", [[(3, "019"), ". a"], "1. b"], ["ordered"]),
            ("blocks", [["1. ", (3, "#>-a ")], ["   ", (3, "#>-a ")]], ["ordered"]),
            ("digits", [[([0, 1, 2, 7, 8], "1"), (1, "09"), ". a"], [some, (1, "b1"), ". c"]],
             ["ordered"]),
            ("column", ["9. ~~~", [(list(range(7)), " "), (1, "a~")], "   ~~~", "1. ~~~",
                        [([0, 3, 4, 5], " "), (1, "a~")]], ["ordered"]),
        ],
        "C14": [
            ("line", [[(4, "> a\t")], [(3, "> a")]], ["quote"]),
            ("second", ["> a", [(4, "> a#=")]], ["quote"]),
            ("lazy", [["> ", (3, "> a")], [(3, "a#-> ")]], ["quote"]),
            ("lazy2", [["> ", (3, "#a> ")], "b", [(3, "a#-> ")]], ["quote"]),
            ("text", [["> a ", (2, "> a")], "b"], ["quote"]),
            ("deep", [[">> a"], [(4, "> a")]], ["quote"]),
            ("blank", ["> a", [">", (2, " >")], [">", (3, " a")]], ["quote"]),
            ("code", [[">", (6, " a")], [">", (6, " a")]], ["quote"]),
            ("blocks", [["> ", (2, "-*~a ")], ["> ", (3, "-*~a ")]], ["quote"]),
            ("nospace", [[">", (3, "a> ")], [">", (3, "a ")]], ["quote"]),
            ("indent", [[(3, " >"), "> a"], [(3, " "), "> b"]], ["quote"]),
            ("indents", ["> a", [some, (1, "b#>")], [some, "c"]], ["quote"]),
            ("column", [[">", some, "a"], [">", some, (1, "b>")]], ["quote"]),
            ("nest", [[([1, 2, 4], ">"), (2, " a#")], [([0, 1, 2, 3], ">"), (2, " b#")]],
             ["quote"]),
        ],
        "C15": [
            ("rows", [["|", (3, "|\\ a")], "|-|-|", "|b|c|"], ["table"]),
            ("cells", ["|aaa|b|", "|-|:-:|", ["|", (4, "|\\ a")]], ["table"]),
            ("short", ["|aa|bb|", "|-|-|", [(5, "| a")]], ["table"]),
            ("divider", ["|a|b|", ["|", (4 + d, "|:- ")], "|ccc|dddd|"], ["table"]),
            ("escape", ["|a|", "|-|", ["|", (4, "\\|a")]], ["table"]),
            ("lines", [[(2, " |a"), "a|"], "|-|", [(2, " |a"), "b|"], [(2, " |a"), "c"]],
             ["table"]),
            ("any", ["|a|", "|-|", ["|a", (2, "noline"), "a|"]], ["table"]),
            ("widths", [["|a", (2, "a "), "|"], "|-:|", ["|a", (3, "a "), "|"]], ["table"]),
            ("empty", ["|a|b|", "|-|-|", [(4, "| ")], [(4, "| a")]], ["table"]),
            ("wide", [["|a", ([0, 9], "a"), "|"], ["|", (1, ":-"), ([1, 20], "-"), (1, ":-"), "|"],
                      ["|", ([1, 12], "-:"), (1, "-a"), "|"]], ["table"]),
        ],
        "C16": [
            ("line", [[(5 + d, "*-_ \ta")]], ["thematic", "para", "bullet"]),
            ("stars", [[(6, "* \t_")]], ["thematic", "bullet"]),
            ("para", ["b", [(4, "*-_ ")], "c"], ["thematic"]),
            ("indent", [[(5, " "), "***"]], ["thematic"]),
            ("indented", [[(4, " \t"), "_ __"]], ["thematic", "icode"]),
            ("after", [[(4, "*_-a")], [(3, "*_-a")]], ["thematic"]),
            ("quote", [["> ", (4, "*-_ ")], "> a"], ["thematic"]),
            ("entry", [["+ ", (4, "*-_ ")], "  a"], ["thematic"]),
            ("list", ["* a", [(5, "*-_ ")], "b"], ["thematic"]),
            ("deep", ["a", [some, (1, "*_-"), ([1, 2, 3, 40], " *")]], ["thematic", "para"]),
        ],
        "C17": [
            ("label", [["[", (3, "[]\\a: "), "]: b"], "c  c"], ["lrd", "para"]),
            ("dest", [["[a]:", (4, " a:\\\"'")], "c  c"], ["lrd", "para"]),
            ("next", ["[a]:", [(3, " a'(")], [(3, "\"a '(")], "c  c"], ["lrd"]),
            ("title", [["[a]: b ", (4 + d, "\"\\c '")]], ["lrd", "para"]),
            ("same", [["[a]: bb", (4, "\"\\c ')(")], "d  d"], ["lrd", "para"]),
            ("below", ["[a]: bb", [(4, "\"\\c ')(")], "d  d"], ["lrd", "para"]),
            ("lines", [["[a]: bb \"", (2, "c \"")], [(3, "\"\\c ")], "d  d"],
             ["lrd", "para"]),
            ("end", [["[a]: bb '", (1, "c "), "'", (3, "c '\t")], "d  d"], ["lrd", "para"]),
            ("long", [["[a]: b \"", (2, "a "), " c ", (2, "a "), "\""]], ["lrd"]),
            ("wrap", ["[a]:", "b", ["(", (2, "a "), " c ", (1, "a ")], [(2, "a "), ")"]],
             ["lrd"]),
            ("two", [["[a]: b", (2, "' ")], [(3, "[a]"), "]: c"], "[a]: d  "], ["lrd"]),
            ("after", ["a", [(2, " [a"), "b]: c"]], ["lrd", "para"]),
            ("spaces", [[(4, " \t"), "[a]:", (2, " \t"), "b"]], ["lrd", "icode"]),
            ("quote", [[">", (2, " \t["), "[a]: b"], ["> ", (3, "'(c)")]], ["lrd"]),
            ("entry", ["* [a]: b", ["  ", (3, "'c *")], [(2, " c")]], ["lrd"]),
            ("any", [["[", (2, "noline"), "]: a"], "b  b"], ["lrd"]),
            ("longest", [["[", ([996, 997, 998], "a"), (2, "\\a]"), "]: b"], "c  c"],
             ["lrd", "para"]),
            ("deep", [[some, "[a]:"], [some, (1, "b ")], [some, "'c'"]], ["lrd", "icode"]),
            ("any2", [["[a]: b", (2, "noline")], "b  b"], ["lrd"]),
            ("any3", [["[a]: b \"", (2, "noline"), "\""], "b  b"], ["lrd"]),
            ("any4", ["[a]:", [(2, "noline"), "b"], "'b  b'"], ["lrd"]),
        ],
        "C22": [
            ("lines", [[(2, "#>-*a ")], [(2, "=-~ a")], [(2, "#>*a ")]], []),
            ("blanks", [[(2, " \ta")], [(1, " a")], [(1, " a")], [(2, " a")]], []),
            ("start", [[(1, " ")], [(2, " \t")], [(2, "#a-")], [(2, " ")], [(1, " ")]], []),
            ("hard", [["a", (2, " a")], ["b", (2, " b")], "c"], []),
            ("code", ["    a", [(2, " \ta")], [(2, "#-> a")]], []),
            ("table", ["|a|", "|-|", [(2, " |#-a")], [(2, "|a ")]], []),
            ("quote", ["> a", [(2, " >")], [(2, "->a")], "b"], []),
            ("list", ["* a", [(2, " a")], [(3, "*-> a")]], []),
            ("fence", ["~~~", [(2, "~ a")], [(3, "~ a")], [(2, "#a ")]], []),
            ("atx", [[(2, "# a")], [(2, "# a=")], [(2, "=- a")]], []),
            ("trail", [["a", (1, " ")], ["b", (3, " ")], ["c", (2, " ")], "d"], []),
            ("many", [[([1, 2, 3, 12], "# a\n"), (1, "a "), ([0, 1, 9], "\n"), (1, " b")]], []),
        ],
    }.get(prop, [])


def cm_harnesses(deep):
    return [
        Harness("grammar", "renders", name="cm_%s_%s" % (prop, n), parts=parts,
                lo=1 if deep else 2, hi=8 if deep else 3,
                bounds="the lines of %s: %s" % (prop, n))
        for prop in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C16", "C17", "C22")
        for n, parts, kinds in specs(prop, deep)
        if "noline" not in str(parts)
        and (deep or (prop, n) not in (
            ("C11", "lines"), ("C16", "after"), ("C16", "line"), ("C22", "lines")))
    ]


def answer_harnesses(prop, deep):
    return [
        Harness("grammar", "answers", name="gr_%s_%s" % (p, n), parts=parts, prop=prop,
                lo=1 if deep else 2, hi=8 if deep else 3,
                bounds="the lines of %s: %s" % (p, n))
        for p in ("C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C22")
        for n, parts, kinds in specs(p, deep)
        if deep or (p, n) not in (
            ("C11", "lines"), ("C16", "after"), ("C16", "line"), ("C22", "lines"),
            ("C17", "longest"))
    ]


def harnesses(prop, deep):
    if prop in ("C01", "C02", "C03"):
        return answer_harnesses(prop, deep)
    if prop == "C05":
        return cm_harnesses(deep)
    return [
        Harness("grammar", "doc", name="lines_" + n, parts=parts, kinds=kinds,
                lo=1, hi=12 if deep else (4 if prop != "C16" else 7),
                bounds="lines %s; line length 1..%d or infinite" % (
                    " / ".join("".join(
                        p if isinstance(p, str) else "<%s of %s>" % (
                            p[0], p[1] if p[1] == "noline" else repr(p[1]))
                        for p in (x if isinstance(x, list) else [x])) for x in parts),
                    12 if deep else (4 if prop != "C16" else 7)))
        for n, parts, kinds in specs(prop, deep)
    ]
