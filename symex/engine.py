"""Path-wise symbolic execution over finite-domain variables, decided by z3.

Variables range over finite domains (characters: Unicode code points grouped in atoms;
integers: a small interval).  A path carries a domain mask per variable plus a list of
non-unary clauses.  A branch on a unary condition whose variable occurs in no clause is
decided by the domain; every other undetermined branch, and every verdict, is decided by
z3.  Execution is by re-running the harness with a recorded decision prefix.
"""
import random
import time

import z3

from .atoms import Atoms


class Control(BaseException):
    """Engine control flow; never swallowed by `except Exception`."""


class Infeasible(Control):
    """The assumptions made on this path are unsatisfiable."""


class Unsupported(Control):
    """An operation outside the encoding."""


class Diverged(Control):
    """Re-execution did not follow the recorded decisions."""


class Budget(Control):
    """The path exceeded its step budget."""


# Formulas ------------------------------------------------------------------------
# True / False
# ("c", v, mask)        variable v takes a value of mask
# ("e", v, w)           character variables v and w are equal
# ("ne", v, w)
# ("&", (f, ...))  ("|", (f, ...))


def f_not(f):
    if f is True:
        return False
    if f is False:
        return True
    k = f[0]
    if k == "c":
        full = E.full[f[1]]
        m = full & ~f[2]
        if not m:
            return False
        return ("c", f[1], m)
    if k == "e":
        return ("ne", f[1], f[2])
    if k == "ne":
        return ("e", f[1], f[2])
    if k == "&":
        return f_or([f_not(g) for g in f[1]])
    if k == "|":
        return f_and([f_not(g) for g in f[1]])
    raise AssertionError(f)


def f_and(fs):
    out = []
    for f in fs:
        if f is True:
            continue
        if f is False:
            return False
        if f[0] == "&":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return True
    if len(out) == 1:
        return out[0]
    return ("&", tuple(out))


def f_or(fs):
    out = []
    for f in fs:
        if f is False:
            continue
        if f is True:
            return True
        if f[0] == "|":
            out.extend(f[1])
        else:
            out.append(f)
    if not out:
        return False
    if len(out) == 1:
        return out[0]
    return ("|", tuple(out))


def f_vars(f, acc):
    if f is True or f is False:
        return acc
    k = f[0]
    if k == "c":
        acc.add(f[1])
    elif k in ("e", "ne"):
        acc.add(f[1])
        acc.add(f[2])
    else:
        for g in f[1]:
            f_vars(g, acc)
    return acc


class Engine:
    def __init__(self):
        self.atoms = None
        self.active = False
        self.full = []
        self.stats = {}
        self.zvars = {}
        self.zmem = {}
        self.solver = None
        self.raw = False
        self.vlog = []
        self.reset_stats()

    def reset_stats(self):
        self.stats = dict(
            z3_queries=0, z3_s=0.0, branches=0, unary_forks=0, z3_forks=0,
            verdicts=0, verdicts_constant=0, verdict_queries=0,
        )

    def setup(self, singles=()):
        self.atoms = Atoms(singles)

    # -- path life cycle ---------------------------------------------------------
    def start(self, prefix, max_steps=400000, max_seconds=30.0):
        self.active = True
        self.full = []
        self.doms = []
        self.init = []
        self.kind = []  # ("char",) or ("int", lo)
        self.names = []
        self.clauses = []
        self.cvars = {}
        self.prefix = prefix
        self.trace = []
        self.decided = {}  # formulas that were branched on, in this path
        self.steps = 0
        self.max_steps = max_steps
        self.deadline = time.time() + max_seconds
        self.raw = False
        self.vlog = []  # verdicts that were not decided by construction

    def stop(self):
        self.active = False

    # -- variables ---------------------------------------------------------------
    def new_char(self, name, mask):
        v = len(self.full)
        self.full.append(self.atoms.ALL)
        self.doms.append(mask)
        self.init.append(mask)
        self.kind.append("char")
        self.names.append(name)
        return v

    def new_int(self, name, lo, hi):
        v = len(self.full)
        m = (1 << (hi - lo + 1)) - 1
        self.full.append(m)
        self.doms.append(m)
        self.init.append(m)
        self.kind.append(lo)
        self.names.append(name)
        return v

    def single_char(self, v):
        """The character of v if its domain is one code point, else None."""
        m = self.doms[v]
        if m & (m - 1):
            return None
        i = m.bit_length() - 1
        if self.atoms.is_single[i]:
            return self.atoms.rep[i]
        return None

    # -- evaluation under the current domains ------------------------------------
    def ev(self, f):
        if f is True or f is False:
            return f
        k = f[0]
        if k == "c":
            d = self.doms[f[1]]
            x = d & f[2]
            if not x:
                return False
            if x == d:
                return True
            return None
        if k == "e" or k == "ne":
            a, b = f[1], f[2]
            if a == b:
                return k == "e"
            da, db = self.doms[a], self.doms[b]
            if not da & db:
                return k == "ne"
            if da == db and not da & (da - 1):
                i = da.bit_length() - 1
                if self.atoms.is_single[i]:
                    return k == "e"
            return None
        if k == "&":
            r = True
            for g in f[1]:
                x = self.ev(g)
                if x is False:
                    return False
                if x is None:
                    r = None
            return r
        r = False
        for g in f[1]:
            x = self.ev(g)
            if x is True:
                return True
            if x is None:
                r = None
        return r

    def simp(self, f):
        """f with decided parts removed, and same-variable literals merged."""
        if f is True or f is False:
            return f
        k = f[0]
        if k in ("c", "e", "ne"):
            r = self.ev(f)
            if r is not None:
                return r
            if k == "c":
                return ("c", f[1], f[2] & self.doms[f[1]])
            a, b = f[1], f[2]
            for a, b in ((f[1], f[2]), (f[2], f[1])):
                if self.single_char(a) is not None:
                    m = self.doms[a]
                    if k == "e":
                        return self.simp(("c", b, m))
                    return self.simp(("c", b, self.full[b] & ~m))
            return f
        parts = [self.simp(g) for g in f[1]]
        if k == "&":
            g = f_and(parts)
            if g is False or g is True or g[0] != "&":
                return g
            unary = {}
            rest = []
            for h in g[1]:
                if h[0] == "c":
                    unary[h[1]] = unary.get(h[1], self.full[h[1]]) & h[2]
                else:
                    rest.append(h)
            for v, m in unary.items():
                if not m & self.doms[v]:
                    return False
            return f_and([("c", v, m) for v, m in unary.items()] + rest)
        g = f_or(parts)
        if g is False or g is True or g[0] != "|":
            return g
        unary = {}
        rest = []
        for h in g[1]:
            if h[0] == "c":
                unary[h[1]] = unary.get(h[1], 0) | h[2]
            else:
                rest.append(h)
        for v, m in unary.items():
            if m & self.doms[v] == self.doms[v]:
                return True
        return f_or([("c", v, m) for v, m in unary.items()] + rest)

    # -- assertion of facts -------------------------------------------------------
    def add(self, f):
        work = [f]
        while work:
            f = self.simp(work.pop())
            if f is True:
                continue
            if f is False:
                raise Infeasible()
            k = f[0]
            if k == "&":
                work.extend(f[1])
                continue
            if k == "c":
                self.doms[f[1]] &= f[2]
                touched = (f[1],)
                if f[1] in self.cvars:
                    keep = []
                    for cl in self.clauses:
                        if f[1] in cl[1]:
                            work.append(cl[0])
                        else:
                            keep.append(cl)
                    self.clauses = keep
                    self._recount()
                continue
            if k == "e":
                a, b = f[1], f[2]
                d = self.doms[a] & self.doms[b]
                if d != self.doms[a] or d != self.doms[b]:
                    # narrow both, then come back
                    work.append(f)
                    if d != self.doms[a]:
                        work.append(("c", a, d))
                    if d != self.doms[b]:
                        work.append(("c", b, d))
                    continue
            if any(cl[0] == f for cl in self.clauses):
                continue
            self.clauses.append((f, frozenset(f_vars(f, set()))))
            self._recount()

    def _recount(self):
        c = {}
        for _, vs in self.clauses:
            for v in vs:
                c[v] = 1
        self.cvars = c

    # -- z3 -----------------------------------------------------------------------
    def zvar(self, v):
        k = self.kind[v]
        key = (v, k == "char")
        z = self.zvars.get(key)
        if z is None:
            z = z3.Int(("c%d" if k == "char" else "i%d") % v)
            self.zvars[key] = z
        return z

    def zin(self, v, mask):
        k = self.kind[v]
        key = (v, k, mask)
        e = self.zmem.get(key)
        if e is None:
            z = self.zvar(v)
            if k == "char":
                ivs = self.atoms.ivs(mask)
            else:
                ivs = []
                i, m = 0, mask
                while m:
                    if m & 1:
                        if ivs and ivs[-1][1] == k + i - 1:
                            ivs[-1] = (ivs[-1][0], k + i)
                        else:
                            ivs.append((k + i, k + i))
                    m >>= 1
                    i += 1
            parts = [
                z == lo if lo == hi else z3.And(z >= lo, z <= hi) for lo, hi in ivs
            ]
            if not parts:
                e = z3.BoolVal(False)
            else:
                e = parts[0] if len(parts) == 1 else z3.Or(parts)
            if len(self.zmem) > 200000:
                self.zmem.clear()
            self.zmem[key] = e
        return e

    def zf(self, f):
        if f is True or f is False:
            return z3.BoolVal(f)
        k = f[0]
        if k == "c":
            return self.zin(f[1], f[2])
        if k == "e":
            return self.zvar(f[1]) == self.zvar(f[2])
        if k == "ne":
            return self.zvar(f[1]) != self.zvar(f[2])
        if k == "&":
            return z3.And([self.zf(g) for g in f[1]])
        return z3.Or([self.zf(g) for g in f[1]])

    def component(self, vs):
        """Clauses connected to the variables vs, and all their variables."""
        vs = set(vs)
        todo = list(self.clauses)
        used = []
        changed = True
        while changed:
            changed = False
            rest = []
            for cl in todo:
                if cl[1] & vs:
                    vs |= cl[1]
                    used.append(cl)
                    changed = True
                else:
                    rest.append(cl)
            todo = rest
        return used, vs

    def zcheck(self, fs, clauses, vs, model=False):
        s = self.solver
        if s is None:
            s = self.solver = z3.Solver()
            s.set("timeout", 20000)
        t = time.time()
        s.push()
        try:
            for v in vs:
                s.add(self.zin(v, self.doms[v]))
            for cl in clauses:
                s.add(self.zf(cl[0]))
            for f in fs:
                s.add(self.zf(f))
            r = s.check()
            self.stats["z3_queries"] += 1
            if r == z3.unknown:
                raise Unsupported("solver returned unknown")
            if r == z3.unsat:
                return None if model else False
            if not model:
                return True
            m = s.model()
            out = {}
            for v in vs:
                x = m[self.zvar(v)]
                if x is not None:
                    out[v] = x.as_long()
            return out
        finally:
            s.pop()
            self.stats["z3_s"] += time.time() - t

    def sat(self, f):
        """Is the path condition and f satisfiable?  (The path condition is.)"""
        f = self.simp(f)
        if f is True or f is False:
            return f
        vs = f_vars(f, set())
        if f[0] == "c" and f[1] not in self.cvars:
            return True
        used, allv = self.component(vs)
        return self.zcheck([f], used, allv)

    # -- branching ------------------------------------------------------------------
    def tick(self):
        self.steps += 1
        if self.steps > self.max_steps or (
            self.steps & 1023 == 0 and time.time() > self.deadline
        ):
            raise Budget("step budget exhausted")

    def branch(self, f):
        self.steps += 1
        if self.steps & 1023 == 0 and (
            self.steps > self.max_steps or time.time() > self.deadline
        ):
            raise Budget("step budget exhausted")
        r = self.ev(f)
        if r is not None:
            return r
        f = self.simp(f)
        if f is True or f is False:
            return f
        r = self.decided.get(f)
        if r is not None:
            return r
        self.stats["branches"] += 1
        n = len(self.trace)
        if n < len(self.prefix):
            val = self.prefix[n]
            fork = False
        else:
            if f[0] == "c" and f[1] not in self.cvars:
                val, fork = True, True
                self.stats["unary_forks"] += 1
            else:
                used, allv = self.component(f_vars(f, set()))
                if not self.zcheck([f], used, allv):
                    val, fork = False, False
                elif not self.zcheck([f_not(f)], used, allv):
                    val, fork = True, False
                else:
                    val, fork = True, True
                    self.stats["z3_forks"] += 1
        self.trace.append((val, fork))
        if f[0] != "c":
            self.decided[f] = val
        self.add(f if val else f_not(f))
        return val

    def assume(self, f):
        if not self.branch_assume(f):
            raise Infeasible()

    def branch_assume(self, f):
        r = self.ev(f)
        if r is not None:
            return r
        f = self.simp(f)
        if f is True or f is False:
            return f
        if not self.sat(f):
            return False
        self.add(f)
        return True

    def alternatives(self):
        out = []
        for i in range(len(self.prefix), len(self.trace)):
            val, fork = self.trace[i]
            if fork:
                out.append([v for v, _ in self.trace[:i]] + [not val])
        return out

    # -- models ------------------------------------------------------------------
    def model(self, extra=(), rng=None):
        """A model of the path condition and extra as {name: value}, or None."""
        rng = rng or random.Random(0)
        fs = [self.simp(f) for f in extra]
        if any(f is False for f in fs):
            return None
        fs = [f for f in fs if f is not True]
        vals = {}
        vs = set(self.cvars)
        for f in fs:
            f_vars(f, vs)
        if vs or fs:
            m = self.zcheck(fs, self.clauses, vs, model=True)
            if m is None:
                return None
            vals = m
        out = {}
        for v, name in enumerate(self.names):
            k = self.kind[v]
            if v in vals:
                x = vals[v]
                out[name] = chr(x) if k == "char" else x
            elif k == "char":
                d = self.doms[v]
                ascii_ = d & ((1 << 127) - 1) & ~((1 << 33) - 1)
                if ascii_ and rng.random() < 0.7:
                    d = ascii_
                bits = [i for i in range(d.bit_length()) if d >> i & 1]
                i = rng.choice(bits)
                lo, hi = rng.choice(self.atoms.atoms[i])
                out[name] = chr(rng.randint(lo, hi))
            else:
                bits = [i for i in range(self.doms[v].bit_length())
                        if self.doms[v] >> i & 1]
                out[name] = k + rng.choice(bits)
        return out

    def path_formula(self):
        """z3 term of the whole path condition."""
        parts = []
        for v in range(len(self.names)):
            parts.append(self.zin(v, self.doms[v]))
        for cl in self.clauses:
            parts.append(self.zf(cl[0]))
        return z3.And(parts) if parts else z3.BoolVal(True)


E = Engine()
E_ATOMS_READY = False
