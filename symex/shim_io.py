"""io for instrumented code: a StringIO that takes symbolic text."""
from io import *  # noqa: F401,F403
import io as _io

from .engine import Unsupported
from .values import elems, is_s, mk, vs_open as open  # noqa: F401


class StringIO:
    def __init__(self, initial_value="", newline="\n"):
        if newline not in ("\n", ""):
            raise Unsupported("StringIO with newline %r" % newline)
        self.cs = list(elems(initial_value or ""))
        self.pos = 0
        self.closed = False

    def write(self, s):
        if not is_s(s):
            raise TypeError("string argument expected, got %r" % type(s).__name__)
        cs = list(elems(s))
        if self.pos > len(self.cs):
            self.cs += ["\0"] * (self.pos - len(self.cs))
        self.cs[self.pos:self.pos + len(cs)] = cs
        self.pos += len(cs)
        return len(cs)

    def writelines(self, xs):
        for x in xs:
            self.write(x)

    def getvalue(self):
        return mk(list(self.cs))

    def read(self, n=-1):
        end = len(self.cs) if n is None or n < 0 else self.pos + n
        out = self.cs[self.pos:end]
        self.pos += len(out)
        return mk(out)

    def readline(self, n=-1):
        i = self.pos
        while i < len(self.cs):
            i += 1
            if mk([self.cs[i - 1]]) == "\n":
                break
        return self.read(i - self.pos)

    def readlines(self, hint=-1):
        return list(self)

    def __iter__(self):
        return self

    def __next__(self):
        line = self.readline()
        if not len(line):
            raise StopIteration
        return line

    def seek(self, pos, whence=0):
        self.pos = pos + (0, self.pos, len(self.cs))[whence]
        return self.pos

    def tell(self):
        return self.pos

    def truncate(self, size=None):
        size = self.pos if size is None else size
        del self.cs[size:]
        return size

    def readable(self):
        return True

    writable = seekable = readable

    def isatty(self):
        return False

    def flush(self):
        pass

    def close(self):
        self.closed = True

    def __enter__(self):
        return self

    def __exit__(self, *a):
        self.close()
        return False


_io.TextIOBase.register(StringIO)
