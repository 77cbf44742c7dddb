"""Shapes of regular documents, by property.  Each returns a list of blocks."""
from .ref import (
    Atx, Blank, Bullet, Fence, G, Icode, Lrd, Ordered, Para, Quote, Setext, Table,
    Thematic, code, link, reflink,
)

# -- paragraphs -----------------------------------------------------------------------


def p_lens(g):
    """three words of any lengths, any line breaks, any indentation"""
    ws = [g.word(g.choose([1, 2, 4])) for _ in range(3)]
    br = [i for i in (1, 2) if g.flag()]
    ind = ["", " ", "  ", "   "]
    k = g.choose([0, 1, 3])
    return [Para(ws, br, [ind[k]] * 3)]


def p_long(g):
    """ten words"""
    ws = [g.word(n) for n in (3, 1, 4, 1, 5, 2, 6, 5, 3, 5)]
    return [Para(ws, [g.choose([1, 4]), 7])]


def p_punct(g):
    """words with any punctuation inside, and with odd first characters"""
    return [Para([g.word(2), g.mixed(2), g.first(), g.mixed(1)])]


def p_first(g):
    """a paragraph that starts with an odd character"""
    return [Para([g.first(), g.first(), g.word(1)], [g.choose([1, 2])])]


def p_link(g):
    """a link with symbolic text, target and neighbours"""
    t = [g.word(1), g.word(2)] if g.flag() else g.word(3)
    u = g.mixed(1)
    pre = g.choose(["", "(", "!", g.word(1), "**"])
    post = g.choose(["", ".", ",", ")", g.word(1), ".)"])
    make = link if g.flag() else reflink
    return [Para([g.word(2), make(t, u, pre, post), g.word(3)])]


def p_link_edges(g):
    """a link at the start and one at the end of a paragraph"""
    make = g.choose([link, reflink])
    return [Para([make(g.word(2), g.word(3)), g.word(2), g.word(4),
                  make([g.word(1), g.word(1)], g.word(2), "", g.choose(["", "."]))],
                 [g.choose([1, 3])])]


def p_link_title(g):
    """link targets with titles stay in one piece"""
    u = g.word(2) + ' "' + g.word(1) + ' ' + g.word(1) + '"'
    return [Para([g.word(2), link(g.word(1), u), g.word(2)])]


def p_image_link(g):
    """a linked image, as in badges"""
    t = [["[![" + g.word(2) + "](", g.word(2) + ")](" + g.word(3) + ")"]]
    return [Para([g.word(1), t, g.word(2)])]


def p_shortref(g):
    """a shortcut reference link"""
    return [Para([g.word(2), "[" + g.word(2) + "]", g.word(3), g.word(1)])]


def p_auto(g):
    """autolinks and inline HTML are words"""
    return [Para([g.word(2), "<http://" + g.word(3) + ">", g.word(1), "<b>" + g.word(1)
                  + "</b>", g.word(2)])]


def p_code(g):
    """a code span with anything inside, glued to anything"""
    n = g.choose([1, 2])
    c = g.ink("`") + g.choose([" ", "", "  "]) + g.ink("`")
    pre = g.choose(["", "(", g.word(1)])
    post = g.choose(["", ".", ",", ")", g.word(1), "..", ".)"])
    return [Para([g.word(2), code(c, n, pre, post), g.word(3), g.word(1)])]


def p_code_ticks(g):
    """shorter and longer runs of backticks inside of a code span"""
    k = g.choose([0, 1, 2])
    if k == 0:
        t = code(g.word(1) + " ` " + g.word(1), 2)
    elif k == 1:
        t = code(g.word(1) + "``" + g.word(1), 1)
    else:
        t = code(" `` " + g.word(1) + " ` ", 3)
    return [Para([g.word(1), t, g.word(2), code(g.word(2)), g.word(2)])]


def p_code_edges(g):
    """code spans at the start and the end, and next to each other"""
    return [Para([code(g.word(1) + " " + g.word(1)), g.word(2), code(g.word(2)),
                  code(g.word(1)), code(g.word(3), 1, "", g.choose(["", ".", "!"]))],
                 [g.choose([1, 2, 4])])]


def p_code_link(g):
    """what looks like a link inside of code is none"""
    return [Para([g.word(2), code("[" + g.word(1) + "](" + g.word(1) + ")"),
                  link(g.word(1), g.word(2)), g.word(2), code("<br>"), g.word(1)])]


def p_tick(g):
    """a lone run of backticks"""
    return [Para([g.word(2), "`" * g.choose([1, 2]) + g.word(1), g.word(3), g.word(1)])]


def p_br(g):
    """HTML line breaks"""
    b = g.choose(["<br>", "<br/>"])
    k = g.choose([0, 1, 2, 3])
    if k == 0:
        ws = [g.word(2), [[g.word(1) + b, g.word(2)]], g.word(1)]
    elif k == 1:
        ws = [g.word(2), b, g.word(2), g.word(1)]
    elif k == 2:
        ws = [g.word(2), g.word(1) + b, g.word(2), g.word(3)]
    else:
        ws = [g.word(2), [[b, g.word(3)]], g.word(2)]
    return [Para(ws)]


def p_hard(g):
    """hard line breaks"""
    return [
        Para([g.word(2), g.word(1), g.word(2)], [g.choose([1, 2])], hard=True),
        Para([g.word(1), g.word(3)], hard=True), Para([g.word(2), g.word(2)]),
        Blank(), Para([g.word(1)]),
    ]


def p_hard_end(g):
    """hard line breaks at the end of paragraphs"""
    return [Para([g.word(2), g.word(1)], [1], hard=True), Blank(),
            Para([g.word(1), g.word(1)], hard=g.flag())]


def p_emph(g):
    """emphasis"""
    d = g.choose(["*", "**", "_", "***"])
    return [Para([g.word(2), d + g.word(2), g.word(1) + d, g.word(2)])]


def p_escape(g):
    """escaped characters inside of words"""
    c = g.of("\\`*_{}[]()#+-.!|>")
    return [Para([g.word(2), g.word(1) + "\\" + c + g.word(1), g.word(2)])]


def p_gap(g):
    """any white space between words"""
    return [Para([g.word(1), g.word(2), g.word(1), g.word(3)], [2],
                 gap=g.choose([" ", "  ", "   "]))]


# -- headings -------------------------------------------------------------------------


def h_atx(g):
    """any level, indentation and text"""
    t = g.anyline(g.choose([1, 2, 3, 4]), no="#")
    return [Atx(g.choose([1, 2, 3, 6]), t, g.pad(), g.choose([" ", "  "]),
                g.choose(["", " "]))]


def h_atx_lax(g):
    """no space after the octothorpes"""
    return [Atx(g.choose([1, 2, 3]), g.word(2) + " " + g.mixed(1), g.pad(), "",
                g.choose(["", "  "]))]


def h_atx_words(g):
    """several words are never wrapped; closing octothorpes are kept"""
    t = g.word(2) + " " + g.word(3) + g.choose(["", " #", " ##", "#"])
    return [Para([g.word(1)]), Atx(g.choose([1, 4]), t, "", " ", ""), Para([g.word(2)])]


def h_atx_levels(g):
    """all levels"""
    return [Atx(k, g.word(1), gap=g.choose([" ", "\t", "   "])) for k in range(1, 7)]


def h_atx_empty(g):
    """headings without text"""
    return [Atx(g.choose([1, 2, 6]), "", g.pad(), g.choose(["", " ", "  "])),
            Blank(g.choose([1, 2])), Para([g.word(1)])]


def h_atx_inline(g):
    """inline constructs in a heading are left alone"""
    t = "`" + g.word(1) + "  " + g.word(1) + "` [" + g.word(1) + "](" + g.word(2) + ")"
    return [Atx(2, t), Atx(3, "*" + g.word(1) + "* <br> " + g.word(1))]


def h_setext(g):
    """any underline"""
    return [Setext([g.word(g.choose([1, 3, 5]))], g.choose("=-"),
                   g.choose([1, 2, 3, 7]), pre=g.pad(), post=g.choose(["", "  "]))]


def h_setext_wrap(g):
    """several words and lines"""
    ws = [g.word(g.choose([1, 4])), g.mixed(1), g.word(2), g.word(5)]
    return [Setext(ws, g.choose("=-"), g.choose([2, 4]), [g.choose([1, 2, 3])],
                   indents=["", g.choose(["", "  ", "   "])])]


def h_setext_inline(g):
    """code and links in the heading"""
    ws = [g.word(2), code(g.word(1) + " " + g.word(1)), link(g.word(1), g.word(2)),
          g.word(1)]
    return [Setext(ws, g.choose("=-"), 3)]


def h_setext_near(g):
    """headings between other blocks"""
    out = [Setext([g.word(2)], g.choose("=-"), 3)]
    if g.flag():
        out = [Para([g.word(1)]), Blank()] + out
    if g.flag():
        out.append(Blank())
    out += g.choose([
        [Para([g.word(3)])], [Setext([g.word(1), g.word(1)], "-", 3)],
        [Thematic("*")], [Bullet([[Para([g.word(1)])]])],
    ])
    return out


# -- code -----------------------------------------------------------------------------


def f_basic(g):
    """any fence, info string and content"""
    ch = g.choose("`~")
    n = g.choose([3, 4])
    k = g.choose([0, 1, 3])
    no = ch
    lines = [g.anyline(k, no=no)]
    return [Fence(ch, n, lines, g.choose(["", g.word(2), g.word(1) + " " + g.mixed(1)]),
                  g.choose(["", " "]), post=g.choose(["", "  "]))]


def f_lines(g):
    """three lines, blank ones and indented ones among them"""
    no = "`~"
    ls = [g.choose(["", " ", "  " + g.anyline(1, no)]), g.anyline(2, no),
          g.choose(["", "\t" + g.anyline(2, no) + "  ", "    " + g.anyline(1, no)])]
    return [Fence(g.choose("`~"), g.choose([3, 5]), ls, info=g.choose(["", g.word(1)]),
                  more=g.choose([0, 1, 2]))]


def f_fences(g):
    """content that looks like fences"""
    ch = g.choose("`~")
    other = {"`": "~", "~": "`"}[ch]
    ls = [g.choose([ch * 3, other * 3, other * 4, ch * 2, ch * 4 + g.word(1), ch]),
          g.word(2),
          g.choose(["", other * 5, ch * 3 + " ", g.word(1) + ch * 4])]
    return [Fence(ch, 4, ls), Para([g.word(1)])]


def f_markers(g):
    """content that looks like other blocks"""
    c = g.of("#>-*+=|1_[")
    ls = [c + g.choose(["", " ", ".", ". ", "--", "==="]) + g.choose(["", g.word(1)]), g.word(1)
          + " " + g.word(8) + " " + g.word(4)]
    return [Para([g.word(1)]), Fence("`", 3, ls), Atx(1, g.word(1))]


def f_open(g):
    """a block that is never closed"""
    ls = [g.anyline(2, "`~")] + g.choose([[], ["", g.word(1)], ["# " + g.word(1), "``"],
                                          ["    " + g.word(1)]])
    return [Fence(g.choose("`~"), 3, ls, info=g.choose(["", g.word(1)]), closed=False)]


def f_near(g):
    """fences next to other blocks"""
    f = [Fence("`", 3, [g.word(1)], closed=True), ]
    before = g.choose([[Para([g.word(1)])], [Atx(1, g.word(1))], [], [Blank()],
                       [Quote([Para([g.word(1)])])]])
    after = g.choose([[Para([g.word(1)])], [Fence("~", 3, [g.word(1), "", g.word(1)])],
                      [Bullet([[Para([g.word(1)])]])], [Blank(), Para([g.word(1)])],
                      [Thematic("-")]])
    return before + f + after


def f_empty(g):
    """no content"""
    return [Fence(g.choose("`~"), g.choose([3, 4, 7]), [], g.choose(["", g.word(2)]),
                  more=g.choose([0, 1])), Para([g.word(1)])]


def f_tilde_info(g):
    """tildes and backticks in info strings"""
    return [Fence("~", 3, [g.word(1)], g.choose(["~" + g.word(1), "`" + g.word(1),
                                                "a~", "~~~~"]), " ")]


def f_nested(g):
    """code in lists and quotes"""
    f = Fence(g.choose("`~"), 3, [g.choose(["# ", "> ", "* ", "1. ", "", "  "]) + g.word(1),
                                  g.word(4) + " " + g.word(4)],
              g.choose(["", g.word(1)]))
    k = g.choose([0, 1, 2, 3])
    if k == 0:
        return [Bullet([[Para([g.word(1)]), f], [Para([g.word(1)])]], marker="-")]
    if k == 1:
        return [Ordered([[Para([g.word(1)])], [Para([g.word(1)]), f]])]
    if k == 2:
        return [Quote([Para([g.word(1)]), f])]
    return [Quote([f, Blank(), Para([g.word(1)])], space=g.flag())]


def i_basic(g):
    """one or two lines of any text"""
    ls = [" " * g.choose([4, 5, 8]) + g.anyline(g.choose([1, 3])) + g.choose(["", "  "])]
    if g.flag():
        ls.append(g.choose(["    ", "      ", "\t"]) + g.anyline(2))
    return [Icode(ls)]


def i_blank(g):
    """blank lines inside and after"""
    ls = ["    " + g.word(1)] + [g.choose(["", "  ", "      "])] * g.choose([1, 2])
    ls += ["     " + g.word(2) + " " + g.word(3)]
    return [Para([g.word(1)]), Blank(), Icode(ls), Blank(g.choose([1, 2])),
            Para([g.word(1)])]


def i_markers(g):
    """content that looks like other blocks"""
    c = g.of("#>-*+=|1_[`~")
    ls = ["    " + c + g.choose([" ", "", c + c, ". "]) + g.word(1), "     " + g.word(9)]
    return [Icode(ls)] + g.choose([[], [Para([g.word(1)])], [Atx(1, g.word(1))],
                                   [Bullet([[Para([g.word(1)])]])]])


def i_after(g):
    """after other blocks"""
    b = g.choose([[Atx(1, g.word(1))], [Thematic("*")], [Fence("`", 3, [g.word(1)])],
                  [Setext([g.word(1)], "=", 3)]])
    return b + [Icode(["    " + g.anyline(2)])] + g.choose([
        [Para([g.word(1), g.word(1)])], [Blank(), Icode(["    " + g.word(1)])][:1] + [
            Para([g.word(1)])], [Quote([Para([g.word(1)])])]])


def i_lazy(g):
    """an indented line continues an open paragraph"""
    return [Para([g.word(1), g.word(2), g.word(1)], [1, 2],
                 ["", g.choose(["    ", "     ", "\t"]), g.choose(["", "    "])])]


def i_nested(g):
    """in quotes and lists"""
    k = g.choose([0, 1])
    c = Icode(["    " + g.word(1) + "  " + g.word(2), "      " + g.word(1)])
    if k == 0:
        return [Quote([Para([g.word(1)]), Blank(), c])]
    return [Quote([c, Blank(), Para([g.word(1), g.word(2)])])]


# -- lists ----------------------------------------------------------------------------


def l_bullet(g):
    """entries with and without text, any markers, indentation and padding"""
    n = g.choose([1, 2, 3])
    ms = [g.choose("*-+")] * n
    pre = g.pad()
    es = [[Para([g.word(1), g.word(2)])]] + [[Para([g.word(2)])]] * (n - 1)
    return [Bullet(es, markers=ms, pre=pre)]


def l_bullet_wrap(g):
    """several words and lines per entry"""
    m = g.choose("*-+")
    es = [[Para([g.word(3), g.word(1), g.mixed(1), g.word(4)], [g.choose([1, 2])])],
          [Para([g.word(2), g.word(2)])]]
    return [Bullet(es, marker=m, deep=g.choose(["  ", "", " ", "    "]))]


def l_bullet_nested(g):
    """nested lists"""
    m = g.choose("*-+")
    inner = Bullet([[Para([g.word(2), g.word(2)])], [Para([g.word(1)])]],
                   marker=g.choose("*-"))
    es = [[Para([g.word(1), g.word(2)]), inner], [Para([g.word(2)])]]
    return [Bullet(es, marker=m, deep=g.choose(["  ", "   ", "    "]))]


def l_bullet_deep(g):
    """three levels, entries on each after coming back"""
    d2 = Bullet([[Para([g.word(1)])], [Para([g.word(2), g.word(1)])]], marker="+")
    d1 = Bullet([[Para([g.word(1)]), d2], [Para([g.word(1)])]], marker="-")
    return [Bullet([[Para([g.word(1)]), d1], [Para([g.word(1), g.word(1)])]])]


def l_bullet_blocks(g):
    """blocks inside of entries"""
    k = g.choose([0, 1, 2, 3, 4, 5, 6])
    e = [
        [Atx(2, g.word(2))],
        [Para([g.word(1)]), Quote([Para([g.word(1), g.word(2)])])],
        [Quote([Para([g.word(1)])]), ],
        [Para([g.word(2)]), Ordered([[Para([g.word(1)])], [Para([g.word(2)])]])],
        [Setext([g.word(2)], "=", 2)],
        [Thematic("*", 3), Para([g.word(1)])],
        [Para([g.word(1)]), Thematic("_", 3), Para([g.word(1)])],
    ][k]
    return [Bullet([e, [Para([g.word(1)])]], marker="-")]


def l_bullet_empty(g):
    """entries without text"""
    m = g.choose("*-+")
    es = g.choose([
        [[], [Para([g.word(1)])]], [[Para([g.word(1)])], []], [[]], [[], []],
        [[Para([g.word(1)])], [], [Para([g.word(1)])]],
    ])
    return [Bullet(es, marker=m), Blank(), Para([g.word(1)])]


def l_bullet_code(g):
    """links and code in entries"""
    return [Bullet([[Para([g.word(1), link(g.word(2), g.word(3)), g.word(1)])],
                    [Para([code(g.word(1) + " " + g.word(1)), g.word(2)])],
                    [Para([g.first(), g.first()])]], marker=g.choose("*-"))]


def l_bullet_fence(g):
    """fenced code in entries, with content that looks like entries and fences"""
    ch = g.choose("`~")
    n = g.choose([3, 4])
    other = {"`": "~", "~": "`"}[ch]
    c = g.choose(["* " + g.word(1), "1. " + g.word(1), other * 3, ch * (n - 1), ""])
    if c == "":
        f = Fence(ch, n, [])
    else:
        f = Fence(ch, n, [c, "* " + g.word(1)], g.choose(["", g.word(1)]),
                  closed=g.flag())
    b = g.choose([[f], [Para([g.word(1)]), f]])
    if f.closed and g.flag():
        b = b + [Atx(1, g.word(1))]
    k = g.choose([0, 1, 2])
    es = [[Para([g.word(1)])]] if k == 0 else []
    es = es + [b, [Para([g.word(1), g.word(1)])]]
    if k < 2 and g.flag():
        return [Bullet(es)]
    inner = Bullet(es) if k < 1 else Ordered(es, first=1)
    return [Bullet([[Para([g.word(1)]), inner], [Para([g.word(1)])]])]


def l_bullet_near(g):
    """lists next to other blocks"""
    b = g.choose([[], [Para([g.word(1)])], [Atx(1, g.word(1))], [Blank()],
                  [Para([g.word(1)]), Blank()]])
    a = g.choose([[], [Blank(), Para([g.word(1)])], [Blank(2), Atx(1, g.word(1))],
                  [Thematic("_")], [Blank(), Bullet([[Para([g.word(1)])]], marker="-")],
                  [Blank(), Ordered([[Para([g.word(1)])]])]])
    return b + [Bullet([[Para([g.word(1)])], [Para([g.word(2)])]])] + a


def l_bullet_many(g):
    """eleven entries"""
    return [Bullet([[Para([g.word(1), g.word(1)])] for _ in range(11)],
                   marker=g.choose("*+"))]


def l_bullet_hard(g):
    """hard line breaks inside of entries"""
    return [Bullet([[Para([g.word(1), g.word(1)], hard=True), Para([g.word(2)])],
                    [Para([g.word(1)])]])]


def l_ordered(g):
    """any first number, any later numbers"""
    f = g.choose([0, 1, 2, 8, 9, 10, 98, 99, 100, 999])
    n = g.choose([1, 2, 3])
    style = g.choose(["same", "count", "zero"])
    nums = {"same": [f] * n, "count": [f + i for i in range(n)],
            "zero": [f] + [0] * (n - 1)}[style]
    es = [[Para([g.word(1), g.word(2)], [1])] for _ in range(n)]
    return [Ordered(es, numbers=nums, pre=g.choose(["", "  "]))]


def l_ordered_digits(g):
    """the first number is symbolic"""
    f = g.int(0, 12)
    return [Ordered([[Para([g.word(2), g.word(1)])], [Para([g.word(1), g.word(2)])],
                     [Para([g.word(1)])]], first=int(f))]


def l_ordered_wrap(g):
    """continuation lines where markers get wider"""
    f = g.choose([7, 8, 9, 98])
    return [Ordered([[Para([g.word(2), g.word(1), g.word(3)], [2])] for _ in range(3)],
                    first=f)]


def l_ordered_many(g):
    """twelve entries"""
    return [Ordered([[Para([g.word(1), g.word(2)])] for _ in range(12)],
                    first=g.choose([0, 1, 90]))]


def l_ordered_nested(g):
    """nested lists"""
    f = g.choose([1, 9])
    k = g.choose([0, 1, 2])
    inner = [
        Bullet([[Para([g.word(1), g.word(2)])], [Para([g.word(1)])]], marker="-"),
        Ordered([[Para([g.word(1), g.word(2)])], [Para([g.word(1)])]]),
        Bullet([[Para([g.word(1)]), Bullet([[Para([g.word(1)])]])]]),
    ][k]
    return [Ordered([[Para([g.word(1)]), inner], [Para([g.word(2), g.word(1)])]], first=f)]


def l_ordered_blocks(g):
    """blocks inside of entries"""
    k = g.choose([0, 1, 2, 3, 4])
    e = [
        [Atx(2, g.word(2))],
        [Para([g.word(1)]), Quote([Para([g.word(1), g.word(2)])])],
        [Para([g.word(2)]), Fence("`", 3, ["  " + g.word(1), g.word(2)])],
        [Setext([g.word(2)], "=", 2)],
        [Thematic("*", 3), Para([g.word(1)])],
    ][k]
    return [Ordered([[Para([g.word(1)])], e, [Para([g.word(1)])]], first=g.choose([1, 9]))]


def l_ordered_empty(g):
    """entries without text"""
    es = g.choose([
        [[], [Para([g.word(1)])]], [[Para([g.word(1)])], []], [[]],
        [[Para([g.word(1)])], [], [Para([g.word(1)])]],
    ])
    return [Ordered(es, first=g.choose([1, 9])), Blank(), Para([g.word(1)])]


def l_ordered_near(g):
    """lists next to other blocks"""
    b = g.choose([[], [Para([g.word(1)])], [Atx(1, g.word(1))], [Para([g.word(1)]),
                                                               Blank()]])
    a = g.choose([[], [Blank(), Para([g.word(1)])], [Thematic("_")],
                  [Blank(), Bullet([[Para([g.word(1)])]], marker="-")],
                  [Blank(2), Ordered([[Para([g.word(1)])]], first=3)]])
    return b + [Ordered([[Para([g.word(1)])], [Para([g.word(2)])]])] + a


# -- quotes ---------------------------------------------------------------------------


def q_para(g):
    """paragraphs in a quote"""
    return [Quote([Para([g.word(2), g.word(3), g.mixed(1), g.word(1)], [g.choose([1, 2])])],
                  space=g.flag(), pre=g.pad())]


def q_blank(g):
    """blank lines in a quote"""
    return [Quote([Para([g.word(2), g.word(1)]), Blank(g.choose([1, 2])),
                   Para([g.word(3)])], space=g.flag()), Blank(), Para([g.word(1)])]


def q_lazy(g):
    """lines without the marker"""
    p = Para([g.word(1), g.word(2), g.word(1), g.word(2)], [1, 3])
    return [Quote([p], space=g.flag(), lazy=g.choose([(1,), (2,), (1, 2)])),
            Blank(), Para([g.word(1)])]


def q_nested(g):
    """nested quotes"""
    inner = Quote([Para([g.word(2), g.word(1), g.word(2)])], space=g.flag())
    k = g.choose([0, 1, 2])
    if k == 0:
        return [Quote([inner], space=g.flag())]
    if k == 1:
        return [Quote([Para([g.word(1), g.word(1)]), Blank(), inner], space=True)]
    return [Quote([inner, Blank(), Para([g.word(1), g.word(2)])], space=True)]


def q_blocks(g):
    """any blocks in a quote"""
    b = g.choose([
        [Atx(1, g.word(2))], [Setext([g.word(2), g.word(1)], "=", 2)],
        [Bullet([[Para([g.word(1), g.word(2)])], [Para([g.word(1)])]])],
        [Ordered([[Para([g.word(1), g.word(2)])], [Para([g.word(1)])]], first=9)],
        [Fence("`", 3, [g.word(1), "", g.word(5)])], [Thematic("*")],
        [Icode(["    " + g.word(4)])],
        [Table([[g.word(1), g.word(2)], [g.word(3), g.word(1)]], "lr")],
        [Lrd(g.word(1), g.word(3))],
        [Blank(), Para([g.word(1)])],
        [Para([g.word(1)]), Blank()],
    ])
    k = g.choose([0, 1, 2])
    if k == 0:
        q = b
    elif k == 1:
        q = [Para([g.word(1)]), Blank()] + b
    else:
        q = b + [Blank(), Para([g.word(2)])]
    return [Quote(q, space=True)] + g.choose([[], [Blank(), Para([g.word(1)])]])


def q_end(g):
    """what may follow a quote"""
    q = Quote([Para([g.word(1), g.word(1)])])
    a = g.choose([
        [Atx(1, g.word(1))], [Bullet([[Para([g.word(1)])]])],
        [Ordered([[Para([g.word(1)])]])], [Fence("`", 3, [g.word(1)])],
        [Thematic("*")], [Thematic("-")], [Blank(), Para([g.word(1)])],
        [Blank(), Quote([Para([g.word(1)])])], [Blank(), Icode(["    " + g.word(1)])],
        [Table([[g.word(1)], [g.word(1)]], "n")],
    ])
    return [q] + a


def q_end_noPara(g):
    """a quote that does not end in a paragraph takes no lazy lines"""
    q = g.choose([
        [Atx(1, g.word(1))], [Fence("`", 3, [g.word(1)])], [Thematic("*")],
        [Para([g.word(1)]), Blank()], [Icode(["    " + g.word(1)])],
        [Table([[g.word(1)], [g.word(1)]], "n")],
    ])
    return [Quote(q), Para([g.word(1), g.word(2)])]


def q_start(g):
    """a quote interrupts a paragraph"""
    return [g.choose([Para([g.word(1), g.word(2)], [1]), Atx(1, g.word(1)),
                      Fence("`", 3, [g.word(1)]), Thematic("*")]),
            Quote([Para([g.word(1), g.word(1)])], space=g.flag())]


def q_hard(g):
    """hard line breaks in a quote"""
    return [Quote([Para([g.word(1), g.word(1)], hard=True), Para([g.word(2)])])]


def q_first(g):
    """odd words in a quote"""
    return [Quote([Para([g.first(), g.first()])]), Blank(),
            Quote([Para([link(g.word(1), g.word(2)), code(g.word(1) + " " + g.word(1))])])]


def q_list(g):
    """quotes in lists in quotes"""
    return [Quote([Bullet([[Para([g.word(1)]), Quote([Para([g.word(1), g.word(2)])])],
                           [Para([g.word(1), g.word(1)])]], marker=g.choose("*-"))])]


# -- tables ---------------------------------------------------------------------------


def cell_text(g, lens=(0, 1, 2, 3)):
    n = g.choose(list(lens))
    if n == 0:
        return ""
    if n == 1:
        return g.ink("|\\")
    mid = g.chars(n - 2, ("not", "noline", "|\\\x00"), "t")
    return g.ink("|\\") + mid + g.ink("|\\")


def t_align(g):
    """alignments and lengths, two columns"""
    a = g.choose("nlrc")
    rows = [[g.word(g.choose([1, 2, 3])), g.word(1)], [g.word(g.choose([1, 2, 5])), g.word(2)]]
    return [Table(rows, [a, g.choose("nlrc")], gap=g.choose(["", " ", "  "]))]


def t_cells(g):
    """any cell texts"""
    rows = [[cell_text(g, (1, 3))], [cell_text(g)], [cell_text(g, (0, 2))]]
    return [Table(rows, g.choose("nlrc"))]


def t_three(g):
    """three columns and three rows"""
    rows = [[g.word(n) for n in r] for r in ((1, 2, 3), (3, 1, 2), (2, 4, 1))]
    return [Table(rows, [g.choose("nc"), g.choose("lr"), "c"], trail=g.flag(),
                  pre=g.choose(["", " "]))]


def t_head(g):
    """header only"""
    return [Table([[g.word(2), g.word(1)]], [g.choose("nlrc"), "r"], trail=g.flag())]


def t_empty(g):
    """empty cells"""
    e = [g.choose(["", g.word(1), g.word(2)]) for _ in range(4)]
    return [Table([["", g.word(2), g.word(1)], e[:3], [g.word(1), e[3], g.word(2)]],
                  "lnr", gap=g.choose([" ", ""]))]


def t_escape(g):
    """escaped pipes and backslashes"""
    c = g.word(1) + "\\|" + g.word(1)
    rows = [[g.word(1), g.word(1)], [c, g.word(1)], [g.word(1), g.choose([c, "\\|"])]]
    return [Table(rows, [g.choose("nr"), "c"])]


def t_near(g):
    """tables next to other blocks"""
    t = Table([[g.word(1), g.word(2)], [g.word(2), g.word(1)]], "ln")
    b = g.choose([[], [Para([g.word(1)])], [Atx(1, g.word(1))], [Blank()],
                  [Para([g.word(1)]), Blank()]])
    a = g.choose([[], [Para([g.word(1)])], [Atx(1, g.word(1))], [Blank(), Para([g.word(1)])],
                  [Blank(), Table([[g.word(3)], [g.word(1)]], "c")]])
    return b + [t] + a


def t_wide(g):
    """wider than the line length"""
    return [Table([[g.word(3), g.word(2)], [g.word(9) + " " + g.word(8), g.word(2)]], "nr")]


# -- thematic breaks ------------------------------------------------------------------


def b_any(g):
    """any character, count, spacing"""
    c = g.choose("*-_")
    return [Thematic(c, g.choose([3, 4, 6]), g.choose(["", " ", "  "]),
                     g.pad(), g.choose(["", " "]))]


def b_near(g):
    """next to other blocks"""
    c = g.choose("*-_")
    t = Thematic(c, 3, g.choose(["", " "]))
    k = g.choose([0, 1, 2, 3, 4, 5])
    if k == 0 and c != "-":
        return [Para([g.word(1)]), t, Para([g.word(1)])]
    if k == 1:
        return [Atx(1, g.word(1)), t, Blank(), t]
    if k == 2:
        return [Fence("`", 3, [g.word(1)]), t, t]
    if k == 3 and c == "_":
        return [Bullet([[Para([g.word(1)])]]), t]
    if k == 4:
        return [Quote([Atx(1, g.word(1)), t, Para([g.word(1)])])]
    return [Para([g.word(1)]), Blank(), t, Para([g.word(2)])]


def b_nested(g):
    """in quotes and lists"""
    t = Thematic(g.choose("*_"), g.choose([3, 5]))
    k = g.choose([0, 1, 2, 3])
    if k == 0:
        return [Quote([t], space=g.flag())]
    if k == 1:
        return [Bullet([[Para([g.word(1)]), t, Para([g.word(1)])]], marker="-")]
    if k == 2:
        return [Ordered([[Para([g.word(1)]), t], [Para([g.word(1)])]])]
    return [Quote([Quote([Para([g.word(1)]), t])])]


# -- link reference definitions -------------------------------------------------------


def d_basic(g):
    """label, destination, no title"""
    return [Lrd(g.word(g.choose([1, 3])), g.mixed(2), newline=g.flag(),
                gap=g.choose(["", " ", "  "]), pre=g.pad())]


def d_title(g):
    """titles"""
    q = g.choose("'\"")
    t = [g.word(2)] if g.flag() else [g.word(1), g.word(2)]
    return [Lrd(g.word(1), g.word(3), t, q, newline=g.flag(),
                layout=g.choose(["same", "next"]), gap=g.choose([" ", "  "]))]


def d_wrap(g):
    """long titles are wrapped"""
    q = g.choose("'\"")
    t = [g.word(2), g.word(3), g.word(1), g.word(4)]
    return [Lrd(g.word(2), g.word(4), t, q, newline=g.flag(),
                layout=g.choose(["same", "next"]), breaks=g.choose([(), (2,)])),
            Blank(), Para([g.word(1)])]


def d_next(g):
    """several definitions, and what follows"""
    a = g.choose([
        [Lrd(g.word(1), g.word(2), [g.word(1)])], [Para([g.word(1), g.word(2)])],
        [Blank(), Para([g.word(1)])], [Atx(1, g.word(1))], [Bullet([[Para([g.word(1)])]])],
        [Quote([Para([g.word(1)])])], [Lrd(g.word(2), g.word(1), newline=True)],
        [Fence("`", 3, [g.word(1)])],
    ])
    return [Lrd(g.word(1), g.word(2), g.choose([None, [g.word(1)]]),
                g.choose("'\""), layout=g.choose(["same", "next"]))] + a


def d_quotes(g):
    """quotes inside of titles"""
    q = g.choose("'\"")
    o = {"'": '"', '"': "'"}[q]
    t = [g.word(1) + g.choose([o, "\\" + q, o + o]) + g.word(1), g.word(1)]
    return [Lrd(g.word(1), g.word(2), t, q, layout=g.choose(["same", "next"]),
                newline=g.flag()), Para([g.word(1)])]


def d_indented(g):
    """indented lines"""
    t = g.choose([None, [g.word(1)], [g.word(1), g.word(2)]])
    return [Lrd(g.word(1), g.word(2), t, g.choose("'\""), newline=g.flag(),
                layout=g.choose(["same", "next"]), pre=g.pad(), pre2=g.choose([" ", "   "]),
                breaks=g.choose([(), (1,)]) if t and len(t) > 1 else ()), Para([g.word(1)])]


def d_use(g):
    """a definition and its uses"""
    w = g.word(2)
    return [Para([g.word(1), reflink(g.word(2), w), g.word(1)]), Blank(),
            Lrd(w, g.word(3), [g.word(1), g.word(1)])]


def d_same_text(g):
    """label, destination and title of the same text"""
    w = g.word(2)
    return [Lrd(w, w, [w, w], newline=g.flag(), layout=g.choose(["same", "next"]))]


# -- sequences ------------------------------------------------------------------------


def some_block(g):
    """(block, may it follow a paragraph without a blank line?, is it a paragraph?)"""
    k = g.choose(list(range(12)))
    return [
        lambda: (Para([g.word(1), g.word(2)]), False, True),
        lambda: (Atx(1, g.word(2)), True, False),
        lambda: (Setext([g.word(2)], "=", 2), False, False),
        lambda: (Setext([g.word(2)], "-", 2), False, False),
        lambda: (Fence("`", 3, [g.word(1), "", g.word(1)]), True, False),
        lambda: (Icode(["    " + g.word(2)]), False, False),
        lambda: (Bullet([[Para([g.word(1)])], [Para([g.word(2)])]]), True, "list"),
        lambda: (Ordered([[Para([g.word(1)])], [Para([g.word(2)])]]), True, "list"),
        lambda: (Quote([Para([g.word(2)])]), True, "quote"),
        lambda: (Table([[g.word(1), g.word(1)], [g.word(2), g.word(1)]], "nr"), True, "table"),
        lambda: (Thematic("_"), True, False),
        lambda: (Lrd(g.word(1), g.word(2), [g.word(1)]), False, False),
    ][k]()


def joins(a, b):
    """May block b follow block a without a blank line?"""
    if isinstance(a, (Para, Setext, Lrd, Table)) and isinstance(b, Icode):
        return not isinstance(a, Para)
    if isinstance(a, Para):
        return isinstance(b, (Atx, Fence, Bullet, Ordered, Quote, Table, Thematic))
    if isinstance(a, (Bullet, Ordered)):
        return isinstance(b, (Table, Thematic))
    if isinstance(a, Quote):
        return isinstance(b, (Atx, Fence, Bullet, Ordered, Table, Thematic))
    if isinstance(a, Table):
        return not isinstance(b, Table)
    if isinstance(a, Icode):
        return not isinstance(b, Icode)
    return True


def s_pairs(g):
    """any block after any other, with no, one or two blank lines"""
    a = some_block(g)[0]
    b = some_block(g)[0]
    n = g.choose([0, 1, 2])
    if n == 0:
        g.ctx.assume(joins(a, b))
        return [a, b]
    if isinstance(a, Icode) and isinstance(b, Icode):
        g.ctx.assume(False)
    return [a, Blank(n, g.choose(["", "  "])), b]


def s_quoted(g):
    """pairs of blocks in a quote"""
    a = some_block(g)[0]
    b = some_block(g)[0]
    if g.flag():
        g.ctx.assume(joins(a, b))
        q = [a, b]
    else:
        g.ctx.assume(not (isinstance(a, Icode) and isinstance(b, Icode)))
        q = [a, Blank(), b]
    return [Quote(q)]


def s_listed(g):
    """pairs of blocks in a list entry"""
    a = some_block(g)[0]
    b = some_block(g)[0]
    ok = (Para, Atx, Setext, Bullet, Ordered, Quote, Thematic)
    if isinstance(a, Fence):
        a = Fence("`", 3, [g.word(1), "- " + g.word(1)])
    if isinstance(b, Fence):
        b = Fence("~", 3, ["1. " + g.word(1), "```"])
    ok = ok + (Fence, Table)
    g.ctx.assume(isinstance(a, ok) and isinstance(b, ok) and joins(a, b))
    if isinstance(a, (Bullet, Ordered)):
        g.ctx.assume(False)
    return [Bullet([[a, b], [Para([g.word(1)])]], marker="-")]


def s_edges(g):
    """blank lines at the start and at the end"""
    b = some_block(g)[0]
    return [Blank(g.choose([1, 2]), g.choose(["", " "])), b,
            Blank(g.choose([1, 3]), g.choose(["", "   "]))]


def s_many(g):
    """a long document"""
    return [
        Atx(1, g.word(2)), Blank(), Para([g.word(2), g.word(3), g.word(1)], [1]), Blank(),
        Bullet([[Para([g.word(1), g.word(2)])], [Para([g.word(2)])]]), Blank(2),
        Quote([Para([g.word(3), g.word(1)])]), Blank(),
        Fence("`", 3, [g.word(2), "", g.word(1)]), Blank(),
        Ordered([[Para([g.word(1)])], [Para([g.word(1), g.word(1)])]]), Blank(),
        Setext([g.word(2), g.word(1)], "=", 3), Para([g.word(1)]), Blank(),
        Icode(["    " + g.word(2)]), Blank(),
        Table([[g.word(1)], [g.word(2)]], "r"), Blank(), Thematic("*"), Blank(),
        Lrd(g.word(1), g.word(2), [g.word(1)]),
    ]


# -- large documents: given text of many sizes around a few free characters ----------


def given(n, seed=1):
    """n given words of 1 to 12 letters."""
    out = []
    for i in range(n):
        k = (i * 7 + seed * 5) % 12 + 1
        out.append("abcdefghijklmnopqrstuvwxyz"[(i + seed) % 26] * k)
    return out


def p_big(g):
    """a paragraph of 240 given words and two free ones, on one line or many"""
    ws = given(120) + [g.word(2)] + given(120, 2) + [g.word(1)]
    return [Para(ws, g.choose([(), (1, 5, 60), tuple(range(9, 240, 9)),
                                  tuple(range(1, 242))]))]


def h_atx_big(g):
    """a heading of 1500 characters"""
    return [Atx(g.choose([1, 6]), g.word(1) + " " + " ".join(given(200)) + " " + g.word(1)),
            Para([g.word(1)])]


def h_setext_big(g):
    """a setext heading of 1000 characters, long underlines"""
    return [Setext([g.word(1)] + given(g.choose([10, 150])) + [g.word(2)], g.choose("=-"),
                   g.choose([1, 300]), g.choose([(), (3, 9)]))]


def f_big(g):
    """long fences, info strings and lines, and many lines of code"""
    lines = [x * 30 + "  y" for x in given(5)] + ["", "    " + g.word(1)] * 60
    return [Fence(g.choose("`~"), g.choose([3, 40]), lines + [g.word(1)],
                  info=g.word(1) + " " + " ".join(given(40)))]


def i_big(g):
    """long lines, deep indentation, and many lines of code"""
    lines = ["    " + " ".join(given(60)), "", "", "", "", "",
             " " * 50 + g.word(1)] + ["    x  y", ""] * 60
    return [Icode(lines + ["    " + g.word(1)]), Blank(), Para([g.word(1)])]


def l_bullet_big(g):
    """a hundred entries, long words and texts"""
    es = [[Para(given(i % 7 + 1, i))] for i in range(100)]
    es[70] = [Para([g.word(1)] + given(40, 3) + ["z" * 150, g.word(2)])]
    k = g.choose([0, 1, 2, 3])
    n = range(1, 60)
    if k == 1:
        es[50] = [Para(["b"] * 60, n), Bullet([[Para([g.word(1)])]] * 2, marker="+")]
    elif k == 2:
        es[50] = [Fence("`", 3, ["  b" + g.word(1)] * 60)]
    elif k == 3:
        es[50] = [Quote([Para(["b"] * 60, n), Quote([Para([g.word(1)])])])]
    return [Bullet(es, marker=g.choose("*-"))]


def i_next(g):
    """blocks, indented by up to three spaces, that directly follow"""
    pre = g.pad()
    w = g.word(1)
    nxt = g.choose(list(range(9)))
    b = [
        lambda: Para([w, g.word(1)], (), (pre,)),
        lambda: Atx(2, w, pre=pre),
        lambda: Thematic(g.choose("*-_"), pre=pre),
        lambda: Quote([Para([w])], pre=pre),
        lambda: Table([[w], [g.word(1)]], "n", pre=pre),
        lambda: Bullet([[Para([w])]], pre=pre),
        lambda: Ordered([[Para([w])]], pre=pre),
        lambda: Lrd(w, "b", pre=pre),
        lambda: Setext([w], "=", 1, indents=(pre,)),
    ][nxt]()
    return [Icode(["    " + g.word(1), "\t" + g.word(1)][:g.choose([1, 2])]), b]


def p_points(g):
    """punctuation on its own"""
    a, b = (g.choose(["(", ")", ".", ",", "!", "?", ";", ":", "/", "&", "%", "$", "@", "\"",
                      "'", "^", "~", "\u2026", "\u2013", "}", "]"]) for i in (0, 1))
    if g.flag():
        return [Para([a, g.word(1), b, g.word(2)], g.choose([(), (2,)]))]
    return [Para([g.word(1), a, b, g.word(1), g.word(1) + a + b])]


def d_again(g):
    """destinations and titles that repeat the label"""
    w = g.word(1)
    x = "[" + w + "]:"
    nl = g.flag()
    return [Lrd(w, g.choose(["b" + x, "b" + x + "b"] if nl else ["b" + x, x + "b", x]),
                g.choose([None, [x], ["b", x, "c"], ["b" + x]]), newline=nl,
                layout=g.choose(["same", "next"])), Para([g.word(1)])]


def l_bullet_levels(g):
    """ten levels of lists"""
    b = Bullet([[Para([g.word(1)] + given(6) + [g.word(2)])]])
    for i in range(9):
        b = Bullet([[Para([g.word(1) if i == 4 else "b"]), b], [Para(["c"])]])
    return [b]


def l_ordered_big(g):
    """a hundred entries, numbers of up to nine digits"""
    es = [[Para(given(i % 7 + 1, i))] for i in range(102)]
    es[70] = [Para([g.word(1)] + given(40, 3) + [g.word(2)])]
    return [Ordered(es, first=g.choose([0, 1, 9, 950, 99999900]))]


def q_big(g):
    """a quote of many lines and words, ten levels deep or not"""
    q = Quote([Para([g.word(1)] + given(60) + [g.word(1)], tuple(range(4, 60, 3)))])
    for i in range(g.choose([0, 9])):
        q = Quote([Para(["b"]), q], space=True)
    return [q, Blank(), Para([g.word(1)])]


def t_big(g):
    """a table of thirty columns, ones of three hundred rows, one with long cells"""
    k = g.choose([0, 1, 2, 3])
    if k == 0:
        rows = [given(30, i) for i in range(3)]
        rows[1][17] = g.word(2)
        return [Table(rows, "nlrc" * 7 + "nl")]
    if k == 1:
        rows = [given(2, i) for i in range(300)]
        rows[222][1] = g.word(2)
        return [Table(rows, "nc")]
    if k == 3:
        rows = [["b"] * 20 for i in range(300)]
        rows[g.choose([2, 31, 299])][g.choose([0, 11, 19])] = g.word(1) + "z" * 20 + g.word(1)
        return [Table(rows, g.choose(["nlrcn" * 4, "r" * 20]))]
    rows = [[" ".join(given(100)), g.word(1)], [g.word(1), " ".join(given(30, 2))]]
    return [Table(rows, g.choose(["cr", "nn"]))]

# -- usual inline text ----------------------------------------------------------------

#: what people write, that an editor might take for something to change
TOKENS = [
    "%20", "&amp;", "&#42;", "&lt;b&gt;", "\\-", "\\#", "\\*", "\\_", "\\>", "\\+", "1\\.",
    "\\[x\\]", "\\\\", "\\&", "C#", "C++", "a*b", "*b*", "**b**", "_b_", "__b__", "x_y_z",
    "~~s~~", "<b>", "</b>", "<br-x>", "http://a.b/c_d?e=f&g=%20#h", "a@b.c", "...", "a--b",
    "(c)", '"q"', "it's", "$x$", "$$", ":x:", "@u", "a#1", "x^2^", "{#id}", "[x]", "[^1]",
    "a/b", "a\\", "e.g.", "a:", "a;", "100%", "5.", "3)", "=>", "<-", "a|b", "a\\|b", "?", "!",
    "/>", "<a href='b'>", "!!!", "*", "**", "a**", "**a", "_a", "a_", "''", '""', "~", "~~",
    "a~b", "&", "&x;", "[", "]", "a]", "[a", "(", ")", "](", "<", "a>b", "\\", "{{x}}",
    "{% x %}", "<!--x-->", "\u2014", "\u2026", "\u201cq\u201d", "\u00e9", "e\u0301", "\U0001f600",
    "\u4e2d\u6587", "\u200b", "\u00ad",
]
#: ones that mean something to MarkFlow or make a block if they start a line
HARD = ("[", "](", "<", "\\", "(", "a\\", "[a", "{% x %}", "<a href='b'>")


def p_tokens(g):
    """words of everyday text, in the middle of a paragraph"""
    t = g.choose([t for t in TOKENS if t not in HARD])
    if g.flag():
        return [Para([g.word(2), g.word(1) + t, g.word(2)], g.choose([(), (2,)]))]
    return [Para([g.word(2), t + g.word(1), g.word(2)], g.choose([(), (2,)]))]


#: what would start another block, or end this one, if it started a line
STARTS = [
    "-", "+", "*", "#", "##", "#a", ">", ">a", "|", "|a|", "1.", "1)", "0.", "99.", "--", "---",
    "----", "=", "==", "===", "_", "__", "___", "**", "***", "```", "````b", "~~~", "~~~b",
]


def p_markers(g):
    """words that would start a block if they started a line"""
    m = g.choose(STARTS)
    k = g.choose([0, 1, 2, 3])
    if k == 0:
        return [Para([g.word(2), m, g.word(2), g.word(1)], g.choose([(), (3,)]))]
    if k == 1:
        n = g.choose([m, "-", "1.", "="])
        if m[:3] == "```" and n == m:
            n = "*"
        return [Para([g.word(1), m, n, g.word(1)])]
    if k == 2:
        return [Para([g.word(1), g.word(1), m])]
    return [Para([g.word(1) + "<br>", m, g.word(1)]), Blank(), Para([g.word(1)])]


def l_markers(g):
    """such words in list entries, block quotes and links"""
    m = g.choose(STARTS)
    k = g.choose([0, 1, 2, 3])
    if k == 3:
        return [Quote([Para([g.word(1), g.word(1), m])])]
    if k == 0:
        return [Bullet([[Para([g.word(1), m, g.word(1)])], [Para([g.word(1), m])]])]
    if k == 1:
        return [Ordered([[Para([g.word(1), g.word(1), m])]])]
    if "`" in m:
        m = ">"
    return [Para([g.word(1), link(g.word(1), m), link([g.word(1), m, g.word(1)], "b")])]


def b_words(g):
    """paragraphs that start with what would be a thematic break"""
    c = g.choose("*-_")
    m = g.choose([c * 2, c * 3, c * 5])
    ws = g.choose([[m], [m, c], [m, c * 3], [m, m, m]])
    if g.flag():
        return [Para(ws + [g.word(1), g.word(1)])]
    return [Quote([Para(ws + [g.word(1), c * 3])])]


def p_token_start(g):
    """words of everyday text at the start and the end of a paragraph"""
    no = HARD + ("<b>", "</b>", "<br-x>", "<!--x-->", "[^1]")
    t = g.choose([t for t in TOKENS if t not in no])
    return [Para([t + g.word(1), g.word(2), g.word(1) + t])]


def p_link_tokens(g):
    """destinations of links"""
    u = g.choose([
        "a%20b", "a%20" + g.word(1), "http://a.b/c?d=e&f=g", "#" + g.word(1), "a_b_*c*",
        "&amp;", "\\_", "<a>", "mailto:a@b.c", "../" + g.word(1) + ".md", "/", "?", "a~b",
        "a 'b'", 'a "b c"', "a 'b  c'", "<a b>", "a \"b'c\"", "\u4e2d",
    ])
    make = g.choose([link, reflink])
    if make is reflink and (u[:1] == "<" or " " in u):
        make = link
    return [Para([g.word(2), make(g.choose([g.word(1), "*b*", "!", "a.b"]), u,
                                  g.choose(["", "!", "("]), g.choose(["", ".", ","])),
                  g.word(2)])]


def h_tokens(g):
    """everyday text and wide gaps in headings"""
    t = g.choose([t for t in TOKENS if t not in ("a\\", "\\")])
    gap = g.choose([" ", "  ", "   ", "     "])
    if g.flag():
        return [Atx(2, g.word(1) + gap + t + gap + g.word(1)), Para([g.word(1)])]
    return [Atx(2, g.word(1) + t), Atx(3, g.word(1) + gap + g.word(1) + t)]


def h_setext_tokens(g):
    """everyday text and wide gaps in setext headings"""
    t = g.choose([t for t in TOKENS if t not in HARD])
    gap = g.choose([" ", "   "])
    if g.flag():
        return [Setext([g.word(1), g.word(1) + t], g.choose("=-"), 3, gap=gap)]
    return [Setext([g.word(1) + t, g.word(2), g.word(1)], "=", 1, (1,), gap=gap)]


def i_tokens(g):
    """everyday text in code"""
    t = g.choose(TOKENS)
    if g.flag():
        return [Icode(["    " + g.word(1) + "  " + t, "", "    " + t + g.word(1)]), Blank(),
                Para([g.word(1)])]
    return [Fence("`", 3, [t + "   " + g.word(1), "", g.word(1) + t], info=g.word(1))]


def l_tokens(g):
    """everyday text in list entries"""
    no = HARD + ("<b>", "</b>", "<br-x>", "<!--x-->", "[^1]", "5.", "3)", "*", "**")
    t = g.choose([t for t in TOKENS if t not in no] + ["**b**:", "[x]"])
    k = g.choose([0, 1, 2])
    if k == 0:
        return [Bullet([[Para([t, g.word(1), g.word(1)])], [Para([g.word(1)])]])]
    if k == 1:
        return [Ordered([[Para([g.word(1), g.word(1) + t])], [Para([t + g.word(1)])]])]
    return [Quote([Para([t, g.word(1), g.word(1) + t])])]


def t_tokens(g):
    """everyday text and wide gaps in cells"""
    t = g.choose([t for t in TOKENS if t not in ("a|b", "a\\", "\\", "\\\\")])
    a = g.choose("nlrc")
    return [Table([[g.word(1), g.word(2)], [t, g.word(1) + "   " + g.word(1)],
                   [g.word(1) + t, g.word(3)]], a + g.choose("nc"))]


def d_tokens(g):
    """everyday text in labels, destinations and titles"""
    no = ("[", "]", "a]", "[a", "](", "\\[x\\]", "[x]", "[^1]", "{% x %}", "<a href='b'>",
          "a\\", "\\", "\\\\")
    t = g.choose([t for t in TOKENS if t not in no])
    k = g.choose([0, 1, 2])
    if k == 0:
        return [Lrd(t + g.word(1), g.word(2), [g.word(1)])]
    if k == 1:
        return [Lrd(g.word(1), "a" + t, g.choose([None, [g.word(1)]]))]
    return [Lrd(g.word(1), g.word(2), ["a", t, g.word(1)],
                "'" if '"' in t else '"')] if t != "it's" else [Lrd("a", "b", ["it's"])]


def p_runs_big(g):
    """paragraphs that start like a long thematic break or underline"""
    c = g.choose("*-_=")
    n = g.choose([7, 20, 70])
    w = g.word(1)
    k = g.choose([0, 1, 2, 3])
    if k == 0:
        return [Para([c * n, w, g.word(1)])]
    if k == 3:
        return [Para([g.word(1), g.choose("=-") * n + g.choose(["=", "-", ""]) + w], (1,))]
    if k == 1 and c != "=":
        return [Para([c * n + w + c * n, g.word(1)], (1,))]
    return [Para([g.choose("*-_=") * n + w])]


def d_big(g):
    """long labels, destinations and titles"""
    return [Lrd(" ".join(given(30)) + g.word(1), "/" + "".join(given(40)) + g.word(1),
                [g.word(1)] + given(g.choose([3, 60])) + [g.word(1)],
                layout=g.choose(["same", "next"]))]


def b_big(g):
    """long and wide thematic breaks"""
    return [Thematic(g.choose("*-_"), g.choose([3, 200]), gap=g.choose(["", " ", "     "])),
            Blank(), Para([g.word(1)])]


def s_big(g):
    """many blank lines, and many paragraphs and headings"""
    out = [Para([g.word(1)]), Blank(60)]
    for i in range(60):
        out += [Atx(i % 6 + 1, given(1, i)[0]), Para(given(4, i)), Blank(i % 3 + 1)]
    return out + [Para([g.word(1)])]
