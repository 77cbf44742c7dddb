"""Process-wide state that formatting must leave alone."""
import logging
import os
import sys
import warnings


def observe():
    """A comparable picture of the process-wide state."""
    loggers = {
        n: (lg.level, lg.disabled, lg.propagate, len(lg.handlers), len(lg.filters))
        for n, lg in logging.root.manager.loggerDict.items()
        if isinstance(lg, logging.Logger)
    }
    return dict(
        constants={
            n: getattr(logging, n)
            for n in ("DEBUG", "INFO", "WARNING", "ERROR", "CRITICAL", "NOTSET", "WARN")
        },
        names={n: logging.getLevelName(n) for n in (10, 20, 30, 40, 50)},
        loggers=loggers,
        root=(logging.root.level, len(logging.root.handlers), logging.root.disabled),
        disable=logging.root.manager.disable,
        raises=logging.raiseExceptions,
        cwd=os.getcwd(),
        environ=dict(os.environ),
        recursion=sys.getrecursionlimit(),
        warnings=len(warnings.filters),
        streams=(id(sys.stdout), id(sys.stderr), id(sys.stdin)),
    )


def diff(a, b):
    """Keys in which two pictures differ; a logger that is new counts if configured."""
    out = []
    for k in a:
        if k == "loggers":
            for n in sorted(set(a[k]) | set(b[k])):
                x = a[k].get(n, (0, False, True, 0, 0))
                y = b[k].get(n, (0, False, True, 0, 0))
                if x != y:
                    out.append("logger %s: %r -> %r" % (n, x, y))
        elif a[k] != b[k]:
            out.append("%s: %r -> %r" % (k, a[k], b[k]))
    return out


class Levels:
    """Set logging levels for the length of a with block."""

    def __init__(self, prefix, root, package, module):
        self.set = [("", root), (prefix, package), (prefix + ".reformat_markdown", module)]

    def __enter__(self):
        self.old = []
        for n, lv in self.set:
            lg = logging.getLogger(n) if n else logging.root
            self.old.append((lg, lg.level))
            lg.setLevel(lv)

    def __exit__(self, *a):
        for lg, lv in self.old:
            lg.setLevel(lv)
        return False
