"""The two contexts a harness runs in: symbolic (instrumented code) and concrete
(the unmodified code, on the values of a solver model)."""
import importlib
import logging
import math
import os
import re
import shutil
import signal
import tempfile

from .engine import E, Budget, Control, Unsupported, f_and, f_not, f_vars
from .values import CV, SymBool, SymInt, SymStr, SymSet, elems, fof, is_s, mk, mkbool


class EndPath(Control):
    def __init__(self, status, label=None):
        self.status = status
        self.label = label


class Violated(Control):
    def __init__(self, label):
        self.label = label


class Timeout(Control):
    pass


ENGINE = re.compile(r"\b(Sym(Str|Int|Bool|Set|Dict)|StrShim|IntShim|SetShim|DictShim)\b")
LINEBREAKS = "\n\r\x0b\x0c\x1c\x1d\x1e\x85\u2028\u2029"


def _charset(spec):
    """spec: 'any' | 'noline' | ('not', base, chars) | ('in', chars) | ('pred', name)."""
    A = E.atoms
    if spec == "any":
        return A.ALL
    if spec == "noline":
        return A.ALL & ~A.chars("\n\r")
    if spec == "ascii":
        return (1 << 128) - 1
    if spec == "space":
        return A.SPACE
    if spec == "digit":
        return A.chars("0123456789")
    if spec[0] == "in":
        return A.chars(spec[1])
    if spec[0] == "not":
        return _charset(spec[1]) & ~A.chars(spec[2])
    if spec[0] == "nospace":
        # any character that is not white space and not one of the listed ones
        return A.ALL & ~A.SPACE & ~A.chars(spec[1])
    raise ValueError(spec)


class _Common:
    def mod(self, name):
        """Module of the code under test, e.g. mod('reformat_markdown')."""
        return importlib.import_module(self.prefix + ("." + name if name else ""))

    def lib(self, name):
        return importlib.import_module(self.libprefix + name)

    def run(self, fn, *args, **kw):
        """Call fn; ('ok', result) or ('exc', exception)."""
        try:
            return ("ok", fn(*args, **kw))
        except Exception as e:
            if self.sym and ENGINE.search(str(e)):
                # a library function that does not take symbolic values
                raise Unsupported("%s in %s" % (e, self.excwhere(e)))
            return ("exc", e)

    def excname(self, e):
        return type(e).__name__

    def excwhere(self, e):
        """file:function of the innermost frame inside the code under test."""
        tb, where = e.__traceback__, "?"
        while tb is not None:
            fn = tb.tb_frame.f_code.co_filename
            if "/markflow/" in fn:
                where = "%s:%s" % (
                    fn.split("/markflow/")[-1], tb.tb_frame.f_code.co_name
                )
            tb = tb.tb_next
        return where

    def fail(self, label):
        self.check(False, label)

    def holds(self, cond):
        """Branch on a condition."""
        return bool(cond)

    def width(self, name, lo, hi):
        """A line length from lo to hi, or infinity."""
        w = self.int(name, lo, hi + 1)
        if w == hi + 1:
            return math.inf
        return w


class SymCtx(_Common):
    sym = True
    prefix = "sx_markflow"
    libprefix = "sx_"

    def __init__(self, known=None):
        self.obs = []
        self.labels = []
        self.known = known
        self.known_hit = None
        self.info = {}
        self.cleanup = []
        self.nchecks = 0

    # inputs
    def chars(self, name, n, spec="any"):
        m = _charset(spec)
        return mk([CV(E.new_char("%s.%d" % (name, i), m)) for i in range(n)])

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return SymInt(E.new_int(name, lo, hi))

    def choose(self, name, options):
        """One of the options (forks)."""
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[int(self.int(name, 0, len(options) - 1))]

    def bool(self, name):
        v = E.new_int(name, 0, 1)
        return SymBool(("c", v, 2))

    def fresh(self):
        """Put the state of the code under test back to that of a new process."""
        from . import runner

        if runner._snap is not None:
            runner._snap.restore()

    # logic without forking
    def And(self, *xs):
        return mkbool(f_and([fof(x) for x in xs]))

    def Or(self, *xs):
        from .engine import f_or

        return mkbool(f_or([fof(x) for x in xs]))

    def Not(self, x):
        return mkbool(f_not(fof(x)))

    def eq(self, a, b):
        """Structural equality as one formula, left to the solver."""
        raw, E.raw = E.raw, True
        try:
            return self._eq(a, b)
        finally:
            E.raw = raw

    def _eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            if len(a) != len(b):
                return False
            return self.And(*[self._eq(x, y) for x, y in zip(a, b)])
        if type(b) is SymStr and type(a) is not SymStr:
            a, b = b, a
        return a == b

    def assume(self, cond):
        if not E.branch(fof(cond)):
            raise EndPath("excluded")

    def observe(self, x):
        self.obs.append(x)

    def note(self, **kw):
        self.info.update(kw)

    def check(self, cond, label):
        """Assert the property: the solver looks for an input on this path breaking it."""
        self.nchecks += 1
        f = fof(cond)
        E.stats["verdicts"] += 1
        if f is True:
            E.stats["verdicts_constant"] += 1
            return
        if f is not False:
            E.vlog.append(f)
            if len(E.trace) >= len(E.prefix):
                E.stats["verdict_queries"] += 1
                used, vs = E.component(f_vars(f, set()))
                if not E.zcheck([f_not(f)], used, vs):
                    return
            if E.branch(f):
                return
        self.violation(label)

    def violation(self, label):
        self.labels.append(label)
        if self.known is not None:
            hit = self.known(self, label, self.info)
            if hit:
                raise EndPath("known", hit)
        raise EndPath("violation", label)

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="vsx")
        self.cleanup.append(d)
        return d

    def done(self):
        for d in self.cleanup:
            shutil.rmtree(d, ignore_errors=True)


class ConCtx(_Common):
    sym = False
    prefix = "markflow"
    libprefix = ""

    def __init__(self, values, known=None):
        self.values = values
        self.obs = []
        self.known = known
        self.info = {}
        self.cleanup = []
        self.used = {}
        self.nchecks = 0

    def _val(self, name, default):
        v = self.values.get(name, default)
        self.used[name] = v
        return v

    def chars(self, name, n, spec="any"):
        default = "x"
        if n and "%s.0" % name not in self.values:
            from .engine import E as _e

            if _e.atoms is not None:
                m = _charset(spec)
                default = next(
                    _e.atoms.rep[i] for i in range(_e.atoms.n) if m >> i & 1
                )
        return "".join(self._val("%s.%d" % (name, i), default) for i in range(n))

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        return self._val(name, lo)

    def choose(self, name, options):
        options = list(options)
        if len(options) == 1:
            return options[0]
        return options[self._val(name, 0)]

    def bool(self, name):
        return bool(self._val(name, 0))

    def fresh(self):
        from . import runner

        if runner._csnap is not None:
            runner._csnap.restore()

    def And(self, *xs):
        return all(bool(x) for x in xs)

    def Or(self, *xs):
        return any(bool(x) for x in xs)

    def Not(self, x):
        return not x

    def eq(self, a, b):
        if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
            return len(a) == len(b) and all(self.eq(x, y) for x, y in zip(a, b))
        return a == b

    def assume(self, cond):
        if not cond:
            raise EndPath("excluded")

    def observe(self, x):
        self.obs.append(x)

    def note(self, **kw):
        self.info.update(kw)

    def check(self, cond, label):
        self.nchecks += 1
        if cond:
            return
        self.violation(label)

    def violation(self, label):
        if self.known is not None:
            hit = self.known(self, label, self.info)
            if hit:
                raise EndPath("known", hit)
        raise Violated(label)

    def tmpdir(self):
        d = tempfile.mkdtemp(prefix="vsx")
        self.cleanup.append(d)
        return d

    def done(self):
        for d in self.cleanup:
            shutil.rmtree(d, ignore_errors=True)


def subst(x, model):
    """The concrete value of x under a model."""
    t = type(x)
    if t is SymStr:
        return "".join(
            c if type(c) is str else model[E.names[c.id]] for c in x.cs
        )
    if t is SymInt:
        return model[E.names[x.v]] + x.off
    if t is SymBool:
        return subst_f(x.f, model)
    if t is list:
        return [subst(y, model) for y in x]
    if t is tuple:
        return tuple(subst(y, model) for y in x)
    if t is dict:
        return {k: subst(y, model) for k, y in x.items()}
    return x


def subst_f(f, model):
    if f is True or f is False:
        return f
    k = f[0]
    if k == "c":
        v = f[1]
        x = model[E.names[v]]
        if E.kind[v] == "char":
            return bool(f[2] >> E.atoms.index(x) & 1)
        return bool(f[2] >> (x - E.kind[v]) & 1)
    if k == "e":
        return model[E.names[f[1]]] == model[E.names[f[2]]]
    if k == "ne":
        return model[E.names[f[1]]] != model[E.names[f[2]]]
    if k == "&":
        return all(subst_f(g, model) for g in f[1])
    return any(subst_f(g, model) for g in f[1])


class LogState:
    """Process-wide logging state, saved and restored around every run."""

    def __init__(self):
        self.info = logging.INFO
        self.levels = {
            n: lg.level
            for n, lg in logging.root.manager.loggerDict.items()
            if isinstance(lg, logging.Logger)
        }
        self.root = logging.root.level
        self.disable = logging.root.manager.disable

    def restore(self):
        logging.INFO = self.info
        logging.root.setLevel(self.root)
        logging.disable(self.disable)
        for n, lg in logging.root.manager.loggerDict.items():
            if isinstance(lg, logging.Logger):
                want = self.levels.get(n, logging.NOTSET)
                if lg.level != want:
                    lg.setLevel(want)


class alarm:
    def __init__(self, seconds, exc):
        self.seconds = seconds
        self.exc = exc

    def _fire(self, *a):
        raise self.exc("time limit")

    def __enter__(self):
        self.old = signal.signal(signal.SIGALRM, self._fire)
        signal.setitimer(signal.ITIMER_REAL, self.seconds)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False
