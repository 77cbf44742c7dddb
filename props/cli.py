"""C18, C19, C20, C23: the command line, run in a scratch directory.

main(argv) of the code under test runs on real directories; the texts of the files are
symbolic, and so are the choice of options, outcomes, paths and permissions.
"""
import logging
import os
import re
import sys

from symex import vfs

from .ref import G

WIDE = "2000"


class World:
    """A scratch directory, and what a run of the program does to it."""

    def __init__(self, ctx):
        self.ctx = ctx
        self.sym = ctx.sym
        self.root = os.path.realpath(ctx.tmpdir())
        self.files = {}
        self.old = 1000000000

    def path(self, name):
        return os.path.join(self.root, name)

    def mkdir(self, name):
        os.makedirs(self.path(name), exist_ok=True)

    def write(self, name, text):
        p = self.path(name)
        os.makedirs(os.path.dirname(p), exist_ok=True)
        if self.sym:
            vfs.write(p, text)
        else:
            with open(p, "w", newline="", encoding="utf-8") as f:
                f.write(text)
        os.utime(p, (self.old, self.old))
        self.files[name] = text

    def read(self, name):
        p = self.path(name)
        if self.sym:
            return vfs.read(p)
        with open(p, newline="", encoding="utf-8") as f:
            return f.read()

    def touched(self, name):
        return os.stat(self.path(name)).st_mtime != self.old

    def listing(self):
        out = []
        for base, dirs, files in os.walk(self.root):
            for f in files:
                out.append(os.path.relpath(os.path.join(base, f), self.root))
        return sorted(out)

    def run(self, argv, stdin=None, tty=False, entry="main", drop=False):
        """Returns (outcome, value): 'exit' with a status, or 'exc' with an exception."""
        M = self.ctx.mod("__main__")
        saved = (sys.stdin, sys.stdout, sys.stderr, sys.argv, list(logging.root.handlers),
                 logging.root.level, os.environ.get("COLUMNS"), logging.root.manager.disable,
                 os.getcwd())
        self.out = vfs.Out()
        self.err = vfs.Out()
        sys.stdin = vfs.In("" if stdin is None else stdin, tty)
        sys.stdout = self.out
        sys.stderr = self.err
        sys.argv = ["markflow"] + argv
        logging.root.handlers[:] = []
        os.environ["COLUMNS"] = WIDE
        os.chdir(self.root)
        try:
            if drop:
                os.setresgid(65534, 65534, 0)
                os.setresuid(65534, 65534, 0)
            try:
                if entry == "main":
                    return ("exit", M.main(argv))
                M.__main__()
                return ("exit", 0)
            except SystemExit as e:
                return ("exit", e.code)
            except Exception as e:
                return ("exc", e)
        finally:
            if drop:
                os.setresuid(0, 0, 0)
                os.setresgid(0, 0, 0)
            self.level = logging.root.level
            (sys.stdin, sys.stdout, sys.stderr, sys.argv) = saved[:4]
            for h in list(logging.root.handlers):
                if h not in saved[4]:
                    h.close()
            logging.root.handlers[:] = saved[4]
            logging.root.setLevel(saved[5])
            if saved[6] is None:
                os.environ.pop("COLUMNS", None)
            else:
                os.environ["COLUMNS"] = saved[6]
            logging.disable(saved[7])
            os.chdir(saved[8])


def status(r):
    """The exit status of the process."""
    if r[0] == "exc":
        return 1
    if r[1] is None:
        return 0
    return r[1] if isinstance(r[1], int) else 1


def content(g, full=True):
    """Texts that are left alone, reformatted, or refused."""
    t = g.of("a|\u4e2d") + g.of("b \r\xe9" if full else "b ")
    return t + "\n"


def outcome(ctx, text, width):
    R = ctx.mod("reformat_markdown").reformat_markdown_text
    st, r = ctx.run(R, text, width)
    if st == "exc":
        return ("exc", ctx.excname(r))
    return ("same" if ctx.holds(ctx.eq(r, text)) else "changed", r)


NAMES = {
    1: [["a.md"], ["b.txt"], ["c"], ["sub/d.e.md"], [".md"], ["A.MD"],
        ["sub/B c.Txt"], ["x.md.MD.bak"]],
    2: [["a.md", "sub/b.md"], ["sub/b.md", "a.md"], ["c.txt", "sub/c.md"], ["a.md", "a.md"]],
    3: [["a.md", "sub/b.md", "c"], ["c", "b.Md.txt", "a.md"], ["c", "a.md", "c"]],
}


def files(ctx, k, mode, order=True):
    """k files in place, to a directory or to files, with or without --check."""
    g = G(ctx)
    w = World(ctx)
    names = g.choose(NAMES[k])
    texts = [content(g, full=i == 0) for i in range(len(set(names)))]
    for n, t in zip(sorted(set(names), key=names.index), texts):
        w.write(n, t)
    w.write("other.md", "x  y\n")
    w.mkdir("out")
    check = g.flag()
    argv = list(names)
    dest = list(names)
    if mode == "dir":
        argv = ["--output-dir", "out"] + argv
        dest = ["out/" + os.path.basename(n) for n in names]
        w.write("out/old.md", "z  z\n")
    elif mode == "files":
        dest = ["out/f%d.txt" % i for i in range(k)]
        if g.flag():
            w.write("out/f0.txt", "z  z\n")
        for d in dest:
            argv = argv + ["--output-file", d]
    if check:
        argv = (["--check"] + argv) if g.flag() else (argv + ["--check"])
    ctx.note(argv=" ".join(argv), texts=texts)
    r = w.run(argv)
    st = status(r)
    ctx.observe([st, w.listing(), [w.read(n) for n in w.listing()]])
    want = dict(w.files)
    failed = None
    results = []
    for i, (n, d) in enumerate(zip(names, dest)):
        o = outcome(ctx, want[n], 88)
        results.append(o)
        if o[0] == "exc":
            failed = i
            break
        if not check and (o[0] == "changed" or d != n):
            want[d] = o[1]
    return w, r, st, names, dest, results, want, failed, check


def written(ctx, k, mode):
    """C18: every destination has its text, and nothing else is touched."""
    w, r, st, names, dest, results, want, failed, check = files(ctx, k, mode)
    have = w.listing()
    ctx.check(have == sorted(want), "files appear or disappear: %s" % [
        x for x in have if x not in want] + str([x for x in want if x not in have]))
    for n in have:
        ctx.check(ctx.eq(w.read(n), want[n]), "wrong text in a file")
        if n in w.files and n not in dest:
            ctx.check(not w.touched(n), "a file that is no destination is written")
    for i, n in enumerate(names):
        left = check or all(o[0] != "changed" for m, o in zip(names, results) if m == n)
        if dest[i] == n and left:
            ctx.check(not w.touched(n), "a file that does not change is written")


NUM = re.compile(r"(\d+) files? (?:would be|was|were) (reformatted|left unchanged)\.")


def summary(text):
    got = {"reformatted": 0, "left unchanged": 0}
    for m in NUM.finditer(text):
        got[m.group(2)] += int(m.group(1))
    return got


def reported(ctx, k, mode):
    """C19: status, summary, and errors that name the file."""
    w, r, st, names, dest, results, want, failed, check = files(ctx, k, mode)
    if failed is not None:
        ctx.check(st != 0, "an error ends in success")
        said = str(w.out.text()) + str(w.err.text())
        if r[0] == "exc":
            said = said + "".join([x for x in r[1].args if isinstance(x, str)])
        ctx.check(names[failed] in said, "the error does not name the file")
        for i in range(failed, len(names)):
            ctx.check(dest[i] != names[i] or names[i] in names[:failed]
                      or not w.touched(names[i]), "a file behind an error is written")
            if dest[i] != names[i]:
                ctx.check(dest[i] not in want or dest[i] in w.files, "written")
                ctx.check(dest[i] in w.files or dest[i] not in w.listing(),
                          "a destination behind an error is written")
        return
    ch = len([o for o in results if o[0] == "changed"])
    ctx.check(st == (1 if check and ch else 0), "wrong exit status")
    got = summary(w.out.text())
    ctx.check(got["reformatted"] == ch, "wrong number of changed files")
    ctx.check(got["left unchanged"] == len(names) - ch, "wrong number of unchanged files")


def stdin(ctx, n):
    """C19: the standard input."""
    g = G(ctx)
    w = World(ctx)
    w.write("other.md", "x  y\n")
    text = g.chars(n, ("in", "a |\n"), "t")
    check = g.flag()
    extra = g.choose([[], ["--output-dir", "."], ["--write-renders"]])
    argv = extra + (["--check"] if check else [])
    ctx.note(argv=" ".join(argv), text=text)
    r = w.run(argv, stdin=text)
    st = status(r)
    out = w.out.text()
    o = outcome(ctx, text, 88)
    ctx.observe([st, out if not check else None])
    ctx.check(w.listing() == ["other.md"] and not w.touched("other.md"), "files written")
    if o[0] == "exc":
        ctx.check(st != 0, "an error ends in success")
    elif check:
        ctx.check(st == (1 if o[0] == "changed" else 0), "wrong exit status")
        ctx.check("would be" in out, "no report")
    else:
        ctx.check(st == 0, "wrong exit status")
        ctx.check(ctx.eq(out, o[1]), "standard output is not the formatted text")


def terminal(ctx):
    """C19: nothing to do without paths on a terminal."""
    g = G(ctx)
    w = World(ctx)
    check = g.flag()
    r = w.run(["--check"] if check else [], stdin="a  b\n", tty=True)
    ctx.observe([status(r)])
    ctx.check(status(r) == 0, "wrong exit status")
    ctx.check("a b" not in w.out.text(), "the terminal is read")


def process(ctx):
    """C19: the exit status of the program itself."""
    g = G(ctx)
    w = World(ctx)
    text = content(g)
    w.write("a.md", text)
    check = g.flag()
    via = g.choose(["file", "stdin"])
    argv = ["--check"] if check else []
    logging.disable(logging.CRITICAL)
    if via == "file":
        r = w.run(argv + ["a.md"], entry="__main__")
    else:
        r = w.run(argv, stdin=text, entry="__main__")
    o = outcome(ctx, text, 88)
    ctx.observe([status(r)])
    if o[0] == "exc":
        ctx.check(status(r) != 0, "an error ends in success")
    else:
        ctx.check(status(r) == (1 if check and o[0] == "changed" else 0),
                  "wrong exit status")


# -- C20 --------------------------------------------------------------------------------

OLD = "a  b\n"
NEW = "a b\n"


def expand(ctx, deep=False):
    """Directories stand for the Markdown files below them."""
    g = G(ctx)
    w = World(ctx)
    c = g.choose(["d", "[d]", "d*", "d?", "{d}", "~d", "d d"])
    md = []
    tree = [
        (c + "/a.md", True), (c + "/b.txt", False), (c + "/e/f/g/h.md", True),
        (c + "/k.md/z.md", True), (c + "/k.md/z.txt", False), (c + "/e/amd", False),
        (c + "/x.md.bak", False), (c + "/[y].md", True), ("d9/q.md", False),
        ("dd/q.md", False), ("q.md", False),
    ]
    some = g.choose(list(range(16)) if deep else [15, 10, 1, 4])
    for i, (n, is_md) in enumerate(tree):
        if i < 4 and not (some >> i) & 1:
            continue
        w.write(n, OLD)
        if is_md:
            md.append(n)
    w.write("plain", OLD)
    w.write("bad.md", "|b\n")
    w.mkdir(c + "/empty")
    w.mkdir("none")
    form = g.choose(["", "/", "./", "abs", "link"])
    if form == "link":
        os.symlink(c, w.path("l"))
    arg = {"": c, "/": c + "/", "./": "./" + c, "abs": w.path(c), "link": "l"}[form]
    plan = g.choose(["dir", "dir plain", "plain dir", "dir bad plain", "bad dir", "none",
                     "plain none", "dir/e", "plain plain", "plain dir plain"])
    check = g.flag()
    args, want, error = [], [], False
    for x in plan.split(" "):
        if x == "dir":
            args.append(arg)
            want += [] if error else md
        elif x == "dir/e":
            sub = [n for n in md if n.startswith(c + "/e/")]
            if not os.path.isdir(w.path(c + "/e")):
                w.mkdir(c + "/e")
            args.append(c + "/e")
            want += [] if error else sub
        elif x == "none":
            args.append("none")
        else:
            n = "bad.md" if x == "bad" else "plain"
            args.append(n)
            if n == "bad.md":
                error = True
            elif not error:
                want.append(n)
    ctx.note(argv=" ".join(args), present=sorted(w.files))
    r = w.run((["--check"] if check else []) + args, stdin="", tty=True)
    out = w.out.text()
    ctx.observe([status(r), [w.read(n) for n in w.listing()]])
    ctx.check((status(r) != 0) == bool(error or (check and want)), "wrong exit status")
    for n in w.files:
        ctx.check(w.read(n) == (NEW if n in want and not check else w.files[n]),
                  "wrong files are picked up")
    if not error and want:
        got = summary(out)
        n = len(want) if check else len(set(want))
        ctx.check(got["reformatted"] == n, "wrong files are picked up")
        ctx.check(got["left unchanged"] == len(want) - n, "wrong files are picked up")


def permissions():
    """Can this process become an unprivileged user and come back?"""
    try:
        os.setresuid(65534, 65534, 0)
        os.setresuid(0, 0, 0)
        return True
    except OSError:
        return False


def refuse(ctx):
    """Paths that cannot be used are refused before anything is done."""
    g = G(ctx)
    ctx.assume(os.getuid() == 0 and permissions())
    w = World(ctx)
    w.write("good.md", OLD)
    w.write("in.md", OLD)
    w.write("dir/x.md", OLD)
    w.mkdir("out")
    kind = g.choose(["file", "dir", "missing", "missing dir"])
    mode = g.choose(["place", "check", "dir", "files"])
    readable, writable = g.flag(), g.flag()
    order = g.flag()
    name = {"file": "in.md", "dir": "dir", "missing": "no.md", "missing dir": "no/in.md"}[
        kind]
    names = ["good.md", name] if order else [name, "good.md"]
    argv = list(names)
    ok = kind in ("file", "dir")
    what = ["x.md"] if kind == "dir" else ["in.md"]
    target = g.choose(["fine", "missing", "other kind", "not writable", "no parent", "count"]
                      if mode == "files" else
                      ["fine", "missing", "other kind", "not writable"]
                      if mode == "dir" else ["fine"])
    if mode == "check":
        argv.append("--check")
    elif mode == "dir":
        d = {"fine": "out", "missing": "nowhere", "other kind": "good.md",
             "not writable": "out"}[target]
        argv += ["--output-dir", d]
    elif mode == "files":
        d = {"fine": "out/b", "missing": "out/b", "other kind": "out", "no parent": "no/b",
             "not writable": "out/b", "count": "out/b"}[target]
        argv += ["--output-file", "out/a", "--output-file", d]
        if target == "count":
            argv += ["--output-file", "out/c"]
        if target == "not writable":
            w.write("out/b", "old\n")
    for base, dirs, fs in os.walk(w.root):
        os.chown(base, 65534, 65534)
        for f in fs:
            os.chown(os.path.join(base, f), 65534, 65534)
    if kind in ("file", "dir"):
        m = (0o400 if readable else 0) | (0o200 if writable else 0)
        if kind == "dir":
            os.chmod(w.path("dir"), m | 0o100)
            os.chmod(w.path("dir/x.md"), 0o600 if writable else 0o400)
            # an unreadable directory is refused; its files decide about writing
        else:
            os.chmod(w.path(name), m)
        ok = readable and (writable or mode != "place")
    if target == "not writable":
        os.chmod(w.path("out/b" if mode == "files" else "out"), 0o400 if mode == "files"
                 else 0o500)
    ok = ok and (target == "fine" or (target == "missing" and mode == "files"))
    ctx.note(argv=" ".join(argv), readable=readable, writable=writable, target=target)
    try:
        r = w.run(argv, drop=True)
    finally:
        for base, dirs, fs in os.walk(w.root):
            os.chmod(base, 0o700)
    ctx.observe([status(r), w.listing()])
    ctx.check((status(r) == 0) == (ok and mode != "check") if mode != "check" else
              (status(r) == 1 if ok else status(r) not in (0,)), "wrong exit status")
    if not ok:
        ctx.check(r[0] == "exit", "not refused but failed: %s" % (
            ctx.excname(r[1]) if r[0] == "exc" else ""))
        ctx.check(w.listing() == sorted(w.files), "files were written")
        for n in w.files:
            ctx.check(w.read(n) == w.files[n], "files were written")
        ctx.check("reformat" not in w.out.text().replace("to reformat.", ""),
                  "files were formatted")
    else:
        done = {"place": ["good.md", "in.md" if kind == "file" else "dir/x.md"],
                "check": [], "files": ["out/a", "out/b"],
                "dir": ["out/good.md", "out/" + what[0]]}[mode]
        for n in done:
            ctx.check(w.read(n) == NEW, "a file that can be used is not formatted")


# -- C23 --------------------------------------------------------------------------------


def length(ctx, lo, hi):
    """The line length reaches the formatter."""
    g = G(ctx)
    w = World(ctx)
    via = g.choose(["file", "stdin", "second", "dir", "check"])
    n = g.choose(list(range(lo, hi + 1)) + [40, 79, 130 if hi < 10 else 500, None])
    given = n is not None
    n = n if given else 88
    # a paragraph that fits exactly, or is one too long, or one too short
    total = (n if n >= 1 else 200) + g.choose([-1, 0, 1])
    x = g.word(2) + "c" * max(0, total // 2)
    y = g.word(1) + "d" * max(0, total - len(x) - 2)
    text = x + "\n" + y + "\n"
    fits = n < 1 or len(x) + 1 + len(y) <= n
    want = x + (" " if fits else "\n") + y + "\n"
    more = g.choose(["", "break", "title"]) if via in ("file", "stdin") else ""
    if more == "break":
        text = text + "\n___\n"
        want = want + "\n" + "_" * (3 if n < 3 else n) + "\n"
    elif more == "title":
        z = g.word(1)
        text = text + "\n[a]: b (" + z + ")\n"
        want = want + "\n[a]: b" + (" " if n < 1 or n > 9 else "\n") + "(" + z + ")\n"
    argv = []
    if given:
        argv = g.choose([["--line-length", str(n)], ["--line-length=" + str(n)]])
    ctx.note(argv=" ".join(argv), text=text, via=via)
    name = "a.md"
    if via == "stdin":
        r = w.run(argv, stdin=text)
        got = w.out.text()
    else:
        w.write("a.md", text)
        w.write("b.md", text)
        w.mkdir("out")
        if via == "dir":
            argv = argv + ["--output-dir", "out"]
            name = "out/b.md"
        elif via == "check":
            argv = ["--check"] + argv
        elif via == "second":
            name = "b.md"
        r = w.run(argv + ["a.md", "b.md"])
        got = w.read(name)
    ctx.observe([status(r), got])
    if via == "check":
        ctx.check(status(r) == (0 if ctx.holds(ctx.eq(want, text)) else 1),
                  "another line length is used")
        return
    ctx.check(status(r) == 0, "wrong exit status")
    ctx.check(ctx.eq(got, want), "another line length is used")


LEVELS = [10, 20, 30, 40, 50]


def verbosity(ctx, most):
    """Each -v and -q is one step."""
    g = G(ctx)
    w = World(ctx)
    w.write("a.md", NEW)
    v, q = int(g.int(0, most)), int(g.int(0, most))
    form = g.choose(["short", "long", "joined"])
    if form == "short":
        argv = ["-v"] * v + ["-q"] * q
    elif form == "long":
        argv = ["--quiet"] * q + ["--verbose"] * v
    else:
        argv = (["-" + "v" * v] if v else []) + (["-" + "q" * q] if q else [])
    w.run(argv + ["a.md"])
    ctx.note(argv=" ".join(argv))
    ctx.observe([w.level])
    want = 3 - v + q
    want = 0 if want < 0 else 4 if want > 4 else want
    ctx.check(w.level == LEVELS[want], "wrong log level")
    ctx.check(w.read("a.md") == NEW, "wrong text")


def odd(g, x):
    """Documents of which some are refused with an inconsistency report (known findings
    rule-words and thematic-underline)."""
    if g.flag():
        return x + " " + x + "\n\n*" + g.of("*a_") + "\n" + g.of("*a_") + "\n"
    return x + " " + x + "\n" + g.of("-a") + " - -\n\n" + x + "\n"


def renders(ctx):
    """Both renderings of an inconsistent document are written next to its destination."""
    g = G(ctx)
    w = World(ctx)
    name = g.choose(["a.md", "sub/a.md", "b", "c.txt", ".md", "x.md.md"])
    mode = g.choose(["place", "dir", "files"])
    on = g.flag()
    n = g.choose([1, 4])
    x = g.word(1)
    text = odd(g, x)
    w.write("0.md", NEW)
    w.write(name, text)
    w.mkdir("out")
    argv = ["--line-length", str(n)]
    dest = name
    if mode == "dir":
        argv += ["--output-dir", "out"]
        dest = "out/" + os.path.basename(name)
    elif mode == "files":
        dest = "out/" + g.choose(["o.md", "o", "o.x"])
        argv += ["--output-file", "out/0", "--output-file", dest]
    if on:
        argv.append("--write-renders")
    ctx.note(argv=" ".join(argv), name=name, text=text)
    r = w.run(argv + ["0.md", name])
    M = ctx.mod("reformat_markdown")
    o = outcome(ctx, text, n)
    have = w.listing()
    ctx.observe([status(r), have, [w.read(x) for x in have]])
    new = [x for x in have if x not in w.files]
    ours = [x for x in new if x != dest and x not in ("out/0", "out/0.md")]
    if not (o[0] == "exc" and on):
        ctx.check(not ours, "renderings of a consistent document are written")
        return
    ctx.check(r[0] == "exc" and ctx.excname(r[1]) == "ReformatInconsistentException",
              "the inconsistency is not reported")
    once = getattr(M, "_reformat_markdown_text", None)
    base, end = (dest[:-3], ".md") if dest.endswith(".md") else (dest, "")
    want = [base + ".1" + end, base + ".2" + end]
    ctx.check(sorted(ours) == sorted(want), "renderings are not next to the destination")
    if once is not None:
        first = once(text, n)
        ctx.check(ctx.eq(w.read(want[0]), first), "a wrong rendering is written")
        ctx.check(ctx.eq(w.read(want[1]), once(first, n)), "a wrong rendering is written")
    else:
        ctx.check(ctx.Not(ctx.eq(w.read(want[0]), w.read(want[1]))), "the same text twice")
    ctx.check(dest not in new and ctx.eq(w.read(name), text), "the document is written")


def renders_stdin(ctx):
    """For the standard input both renderings are printed."""
    g = G(ctx)
    w = World(ctx)
    on = g.flag()
    x = g.word(1)
    text = odd(g, x)
    r = w.run((["--write-renders"] if on else []) + ["--line-length", "1"], stdin=text)
    o = outcome(ctx, text, 1)
    out = w.out.text()
    ctx.note(text=text, on=on)
    ctx.observe([status(r), out])
    ctx.check((status(r) != 0) == (o[0] == "exc"), "wrong exit status")
    if o[0] != "exc":
        ctx.check(ctx.eq(out, o[1]), "standard output is not the formatted text")
    else:
        ctx.check((len(out) > 0) == on, "renderings are printed without being asked for")
