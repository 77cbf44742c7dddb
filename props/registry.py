"""Which harnesses decide which property."""
from symex.runner import Harness

from . import known

ASSUMPTIONS = [
    "characters are Unicode scalar values grouped into classes that the code under test "
    "cannot tell apart (regenerated from the string literals of its source)",
    "Python's str, re, pathlib, argparse and the file system behave as documented; str "
    "and re are modelled symbolically, and every explored path is replayed on the "
    "unmodified code with a solver model of it",
]


def names(*prefixes):
    from . import shapes

    out = []
    for n, f in vars(shapes).items():
        if n[1:2] == "_" and getattr(f, "__module__", "").endswith("props.shapes"):
            if any(n.startswith(p) for p in prefixes):
                out.append(n)
    return out


def all_shapes():
    return names(*[p + "_" for p in "phfilqtbds"])


def doc(n):
    from . import shapes

    return " ".join(getattr(shapes, n).__doc__.split())


def span(lo, hi):
    return "line length %d..%d or infinite" % (lo, hi)


def wide(n, lo, hi):
    """Large documents are for usual line lengths."""
    if n.endswith("_big"):
        return (70, 100) if n in ("p_big", "q_big", "l_bullet_big", "l_ordered_big") else (88, 88)
    return lo, hi


def mk(n, prop, lo=1, hi=12):
    lo, hi = wide(n, lo, hi)
    h = Harness("blocks", "shape", name=n, prop=prop, lo=lo, hi=hi,
                bounds="%s; %s" % (doc(n), span(lo, hi)))
    h.params["name"] = n
    return h


def sh(module, fn, n, **kw):
    if "hi" in kw and n.endswith("_big"):
        kw["lo"], kw["hi"] = wide(n, 1, 1)
    h = Harness(module, fn, name="%s.%s" % (fn, n), **kw)
    h.params["name"] = n
    h.bounds = doc(n)
    if "hi" in kw:
        h.bounds += "; " + span(kw.get("lo", 1), kw["hi"])
    return h


def ref(ns, hi):
    return [mk(n, "ref", 1, hi) for n in ns]


def free(prop, sizes, hi):
    return [
        Harness("docs", "free", name="free%d" % n, n=n, prop=prop, widths=(1, hi),
                bounds="any document of %d characters; line length 1..%d" % (n, hi))
        for n in sizes
    ]


# Tables are no CommonMark; a heading without a space is none either.
# The text of h_atx is any inline Markdown: too many cases for the renderer.
NOT_CM = ("h_atx_lax", "h_atx")


def harnesses(prop, tier):
    from . import grammar

    return _harnesses(prop, tier) + grammar.harnesses(prop, tier != "quick")


def _harnesses(prop, tier):
    deep = tier != "quick"
    hi = 40 if deep else 12
    if prop in ("C01", "C02", "C03"):
        hs = [mk(n, prop, 1, hi) for n in all_shapes()]
        hs += free(prop, (0, 1, 2, 3, 4) if deep else (0, 1, 2, 3), 6 if deep else 3)
        sizes = (1, 2, 3, 4, 5, 6) if deep else (1, 2, 3, 4)
        hs += [
            Harness("docs", "soup", name="soup%d" % n, n=n, prop=prop,
                    widths=(1, 6 if deep else 3),
                    bounds="any %d characters that mean something to Markdown or are "
                    "a letter, a digit, a space or a newline" % n)
            for n in sizes
        ]
        hs += [
            Harness("docs", "odd_words", name="odd_words%d" % n, n=n, prop=prop,
                    bounds="%d words that may look like block markers" % n)
            for n in ((2, 3) if deep else (2,))
        ]
        if deep or prop == "C02":
            hs.append(Harness(
                "docs", "nested", name="nested", prop=prop,
                depths=[5, 20, 40] if deep else [16],
                bounds="up to %d levels of quotes and lists around any two characters" % (
                    40 if deep else 16)))
        if prop == "C02":
            from .tables import harnesses as th

            hs += th(deep, prop)
        from .docs import TAILS, arounds

        return hs + arounds(prop, TAILS, "any", 0, (1, 8 if deep else 2), "tail")
    if prop == "C04":
        hs = [
            Harness("parse", "free", name="free%d" % n, n=n,
                    bounds="any document of %d characters" % n)
            for n in ((0, 1, 2, 3, 4, 5) if deep else (0, 1, 2, 3, 4))
        ]
        from .docs import TAILS, arounds
        from .parse import line_sets

        hs += arounds(prop, TAILS, "any", 1 if deep else 0, (1, 1), "tail")

        for name, alphabet, lens in line_sets(deep):
            hs.append(Harness(
                "parse", "free_lines", name="lines_" + name, lens=lens,
                alphabet=alphabet,
                bounds="lines of lengths %s over %r" % (lens, alphabet)))
        hs += [sh("parse", "shape", n) for n in all_shapes()]
        hs += [sh("compose", "content", n, hi=20 if deep else 6)
               for n in names("l_", "q_", "s_", "f_nested", "i_nested", "b_nested")]
        return hs
    if prop == "C05":
        return [mk(n, "C05", 1, 30 if deep else 8) for n in all_shapes()
                if n not in NOT_CM and not n.startswith("t_")]
    if prop == "C06":
        return ref(names("p_", "h_setext_wrap", "l_bullet_wrap", "l_ordered_wrap",
                         "q_para", "q_hard", "l_bullet_hard", "q_lazy"), hi)
    if prop == "C07":
        hs = ref(names("p_"), hi)
        hs += [sh("wrap", "shape", n, hi=hi) for n in names("p_")]
        from .wrap import neighbours, sets

        hs += [Harness("wrap", "around", name="around_" + n, parts=parts,
                       widths=(1, 12 if deep else 5),
                       bounds="%s; line length 1..%d or infinite" % (" ".join(
                           repr(p) if isinstance(p, str) else "<%d of %r>" % p
                           for p in parts), 12 if deep else 5))
               for n, parts in neighbours(deep)]

        for name, alphabet, lead, tail, sizes in sets(deep):
            hs += [Harness("wrap", "free", name="free_%s%d" % (name, n), n=n,
                           alphabet=alphabet, lead=lead, tail=tail,
                           widths=(1, 12 if deep else 5),
                           bounds="%r, any %d characters of %r, %r" % (
                               lead, n, alphabet, tail))
                   for n in sizes]
        return hs
    if prop == "C08":
        return ref(names("h_atx"), hi)
    if prop == "C09":
        return ref(names("h_setext", "b_near", "p_punct", "p_runs"), hi)
    if prop == "C10":
        return ref(names("f_"), hi)
    if prop == "C11":
        return ref(names("i_"), hi)
    if prop == "C12":
        return ref(names("l_bullet", "s_listed"), hi)
    if prop == "C13":
        return ref(names("l_ordered"), hi)
    if prop == "C14":
        return ref(names("q_", "s_quoted"), hi)
    if prop == "C15":
        hs = ref(names("t_"), hi)
        from .tables import harnesses as th

        return hs + th(deep)
    if prop == "C16":
        return ref(names("b_") + ["p_runs_big"], 120 if deep else 30)
    if prop == "C17":
        return ref(names("d_"), hi)
    if prop == "C21":
        hs = [Harness("state", "pair", hi=20 if deep else 6,
                      bounds="11 shapes of a first document, 7 of a second one, " +
                      span(1, 6)),
              Harness("state", "kinds",
                      bounds="one document of each of 14 kinds after another; line "
                      "lengths 5 and infinite, the same or not"),
              Harness("state", "renumbered",
                      bounds="one of four logging levels has one of three other numbers"),
              Harness("state", "levels",
                      bounds="all combinations of the levels of root, package and "
                      "module logger")]
        return hs + [sh("state", "shape_twice", n, hi=20 if deep else 3) for n in all_shapes()]
    if prop == "C22":
        hs = [sh("compose", "shape", n, hi=hi) for n in names("s_")]
        hs += [sh("compose", "content", n, hi=hi) for n in names("s_")]
        hs += [sh("seq", "endings", n, lo=1 if deep else 4, hi=12 if deep else 4)
               for n in (all_shapes() if deep else names(
                   "s_", "p_hard", "f_basic", "i_blank", "l_bullet_nested",
                   "q_lazy", "t_near", "d_title", "h_setext_near"))]
        return hs
    if prop in ("C18", "C19"):
        fn = "written" if prop == "C18" else "reported"
        hs = [Harness("cli", fn, name="%s_%s%d" % (fn, mode, k), k=k, mode=mode,
                      bounds="%d files of any outcome, output %s, with or without --check"
                      % (k, mode))
              for mode in ("place", "dir", "files")
              for k in ((1, 2, 3) if deep or mode == "place" else (1, 2))]
        if prop == "C19":
            hs += [Harness("cli", "stdin", name="stdin%d" % n, n=n,
                           bounds="any input of %d characters of 'a |' and newline" % n)
                   for n in ((0, 1, 2, 3, 4, 5) if deep else (0, 1, 2, 3))]
            hs += [Harness("cli", "terminal", bounds="no paths on a terminal"),
                   Harness("cli", "process", bounds="one file or the standard input")]
        return hs
    if prop == "C20":
        return [
            Harness("cli", "expand", deep=deep, bounds="trees of up to 13 files, directory names with "
                    "special characters, argument lists of up to 3 paths"),
            Harness("cli", "refuse", bounds="two paths of any kind and permissions, any "
                    "kind of output"),
        ]
    if prop == "C23":
        return [
            Harness("cli", "length", lo=-2, hi=12 if deep else 8,
                    bounds="line lengths -2..8 or none given, two words around them"),
            Harness("cli", "verbosity", most=5, bounds="up to five of -v and -q each"),
            Harness("cli", "renders", bounds="names with and without extension, all "
                    "outputs, words that make documents inconsistent"),
            Harness("cli", "renders_stdin", bounds="words that make the input inconsistent"),
        ]
    if prop == "ALL":
        import os

        return [mk(n, os.environ.get("MODE", "ref")) for n in all_shapes()]
    raise SystemExit("no such property: %s" % prop)


def known_ids(prop):
    return []


def run_findings(prop):
    """Lines for the recorded defects that are still there."""
    import importlib

    R = importlib.import_module("markflow.reformat_markdown").reformat_markdown_text
    out = []
    for f in known.FINDINGS["open"]:
        if prop not in f["properties"]:
            continue
        try:
            r = R(f["text"], f["width"])
        except Exception as e:
            r = e
        if r != f["wanted"]:
            out.append("KNOWN-FINDING: property=%s %s" % (prop, f["what"]))
    return out
