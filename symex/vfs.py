"""Files that hold symbolic text.

Instrumented code reads and writes real files of a scratch directory.  Text with symbolic
characters is stored as a token that names it; reading the file gives the text back.
"""
import io
import pathlib
import re
import sys

from .engine import Unsupported
from .values import SymStr, elems, is_s, lift, mk

TOKEN = re.compile("\ue000(\\d+)\ue001")
_texts = []


def reset():
    del _texts[:]


#: encodings of single bytes that are those of the characters, and their limits
LIMITS = {"ascii": 0x80, "us-ascii": 0x80, "latin-1": 0x100, "latin1": 0x100,
          "iso-8859-1": 0x100, "iso8859-1": 0x100}


def utf8(encoding):
    return (encoding or "utf-8").lower().replace("_", "-") in ("utf-8", "utf8", "locale")


def fits(s, encoding, errors):
    """What an encoding makes of a text, read as UTF-8."""
    if utf8(encoding):
        return s
    limit = LIMITS.get(encoding.lower().replace("_", "-"))
    if limit is None:
        raise Unsupported("encoding %r" % encoding)
    out = []
    for c in elems(lift(s)):
        x = mk([c])
        if x < chr(0x80):
            out.append(c)
        elif x < chr(limit):
            out.append("\ufffd")  # a byte that is no UTF-8 by itself
        elif errors in (None, "strict"):
            raise UnicodeEncodeError(encoding, "?", 0, 1, "ordinal not in range")
        elif errors == "replace":
            out.append("?")
        elif errors != "ignore":
            raise Unsupported("errors=%r" % errors)
    return mk(out)


def encode(s):
    """What is written to disk for a text."""
    if type(s) is SymStr:
        _texts.append(list(s.cs))
        return "\ue000%d\ue001" % (len(_texts) - 1)
    return s


def decode(raw):
    """The text of what is on disk."""
    out = []
    pos = 0
    for m in TOKEN.finditer(raw):
        out += list(raw[pos:m.start()]) + _texts[int(m.group(1))]
        pos = m.end()
    return mk(out + list(raw[pos:]))


def read(path, newline=""):
    with io.open(path, "r", newline="", encoding="utf-8") as f:
        s = decode(f.read())
    if newline is None:
        s = lift(s).replace("\r\n", "\n") if type(s) is SymStr else s.replace("\r\n", "\n")
        s = lift(s).replace("\r", "\n") if type(s) is SymStr else s.replace("\r", "\n")
    return s


def write(path, text):
    with io.open(path, "w", newline="", encoding="utf-8") as f:
        f.write(encode(text))


class VFile:
    """A text file opened by instrumented code."""

    def __init__(self, path, mode, newline, real, encoding=None, errors=None):
        self.name = path
        self.given = encoding, errors
        self.mode = mode
        self.newline = newline
        self.real = real
        self.encoding = "utf-8"
        self.closed = False
        self.parts = []
        self.pos = 0
        self.text = None
        if "r" in mode:
            if not utf8(encoding):
                raise Unsupported("reading %r" % encoding)
            self.text = read(path, newline)

    def readable(self):
        return "r" in self.mode

    def writable(self):
        return "r" not in self.mode

    def read(self, n=-1):
        if self.text is None:
            raise io.UnsupportedOperation("not readable")
        if n is None or n < 0:
            s, self.pos = self.text[self.pos:], len(self.text)
        else:
            s = self.text[self.pos:self.pos + n]
            self.pos += len(s)
        return s

    def readlines(self):
        s = self.read()
        out, line = [], []
        cs = list(elems(s))
        for i, c in enumerate(cs):
            line.append(c)
            c = mk([c])
            if c == "\n" or (self.newline == "" and c == "\r" and not (
                    i + 1 < len(cs) and mk([cs[i + 1]]) == "\n")):
                out.append(mk(line))
                line = []
        if line:
            out.append(mk(line))
        return out

    def readline(self):
        rest = self.text[self.pos:]
        i = rest.find("\n") if len(rest) else -1
        if self.newline == "" and "\r" in lift(rest):
            raise Unsupported("readline with newline")
        line = rest if i < 0 else rest[:i + 1]
        self.pos += len(line)
        return line

    def __iter__(self):
        return iter(self.readlines())

    def write(self, s):
        if self.text is not None:
            raise io.UnsupportedOperation("not writable")
        if self.newline not in (None, "", "\n"):
            raise Unsupported("newline %r" % self.newline)
        self.real.write(encode(fits(s, *self.given)))
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        self.real.flush()

    def close(self):
        self.closed = True
        self.real.close()

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


def vopen(path, mode="r", buffering=-1, encoding=None, errors=None, newline=None, *a, **k):
    if "b" in mode or "+" in mode or isinstance(path, int):
        return io.open(path, mode, buffering, encoding, errors, newline, *a, **k)
    real = io.open(path, mode, buffering, "utf-8", None, newline, *a, **k)
    return VFile(path, mode, newline, real, encoding, errors)


def method(o, name, args, kw):
    """Path.open, read_text and write_text."""
    if name == "open":
        return vopen(str(o), *args, **kw)
    if name == "read_text":
        kw.setdefault("newline", None) if len(args) < 3 else None
        with vopen(str(o), "r", -1, *args, **kw) as f:
            return f.read()
    with vopen(str(o), "w", -1, *args[1:], **kw) as f:
        return f.write(kw.pop("data") if not args else args[0])


NAMES = ("open", "read_text", "write_text")


class Out:
    """A standard output that keeps what is written to it."""

    encoding = "utf-8"
    errors = "strict"

    def __init__(self):
        self.parts = []

    def write(self, s):
        self.parts.append(s)
        return len(s)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def flush(self):
        pass

    def isatty(self):
        return False

    def writable(self):
        return True

    def fileno(self):
        raise OSError("no file descriptor")

    def close(self):
        pass

    def text(self):
        return mk([c for p in self.parts for c in elems(p)])


class In:
    """A standard input with a given text."""

    encoding = "utf-8"

    def __init__(self, text, tty=False):
        self.file = text
        self.tty = tty
        self.used = False

    def isatty(self):
        return self.tty

    def read(self, n=-1):
        if self.used:
            return ""
        self.used = True
        return self.file

    def readlines(self):
        s = self.read()
        parts = s.split("\n") if len(s) else []
        out = [x + "\n" for x in parts[:-1]]
        if parts and len(parts[-1]):
            out.append(parts[-1])
        return out

    def __iter__(self):
        return iter(self.readlines())

    def fileno(self):
        raise OSError("no file descriptor")

    def close(self):
        pass


def vprint(*a, sep=" ", end="\n", file=None, flush=False):
    """print, to an Out only."""
    from .values import vs_str

    f = file if file is not None else sys.stdout
    if hasattr(f, "write"):
        for i, x in enumerate(a):
            if i:
                f.write(sep)
            f.write(vs_str(x))
        f.write(end)
