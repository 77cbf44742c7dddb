"""Explores harnesses with worker processes, replays, and writes evidence."""
import importlib
import json
import logging
import multiprocessing
import os
import random
import subprocess
import sys
import textwrap
import time
import traceback
from collections import Counter, deque

import z3

from . import loader
from .context import (
    ConCtx, EndPath, LogState, SymCtx, Timeout, Violated, alarm, subst,
)
from .engine import (
    E, Budget, Control, Diverged, Infeasible, Unsupported, f_vars,
)
from .values import SymStr

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
VENV_SITE = "/opt/venv/lib/python3.12/site-packages"


class Harness:
    """One symbolic experiment: fn(ctx, **params)."""

    def __init__(self, module, fn, name=None, bounds="", cost=1, **params):
        self.module = module
        self.fn = fn
        self.params = params
        self.name = name or fn
        self.bounds = bounds
        self.cost = cost

    def get(self, prefix):
        m = importlib.import_module(prefix + "props." + self.module)
        return getattr(m, self.fn)


_ready = False
_snap = None
_csnap = None
_log = None
functions = set()


def setup(instrumented=True):
    """Import the unmodified code and, from its current source, the encoding."""
    global _ready, _snap, _log
    if _ready:
        return
    sys.dont_write_bytecode = True
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    if VERIF not in sys.path:
        sys.path.insert(0, VERIF)
    if VENV_SITE not in sys.path:
        sys.path.append(VENV_SITE)
    logging.disable(logging.CRITICAL)
    import markflow

    if not os.path.realpath(markflow.__file__).startswith(os.path.realpath(REPO) + "/"):
        raise RuntimeError("wrong markflow: %s" % markflow.__file__)
    for n in _modules(os.path.join(REPO, "markflow"), "markflow"):
        try:
            importlib.import_module(n)
        except ImportError:
            pass
    if instrumented:
        cm = os.path.join(VENV_SITE, "commonmark")
        loader.register("markflow", os.path.join(REPO, "markflow"))
        loader.register("commonmark", cm)
        loader.register("textwrap", textwrap.__file__[:-3])
        loader.register("props", os.path.join(VERIF, "props"))
        E.setup(
            loader.literal_chars(
                [os.path.join(REPO, "markflow"), os.path.join(VERIF, "props")]
            )
        )
        for n in _modules(os.path.join(REPO, "markflow"), "markflow"):
            try:
                importlib.import_module("sx_" + n)
            except ImportError:
                pass
    _ready = True


def finish_setup(harnesses, instrumented=True):
    """Load the harness modules both ways, then remember all module state."""
    global _snap, _csnap, _log
    importlib.import_module("props.known")
    for h in harnesses:
        h.get("")
    if instrumented:
        importlib.import_module("sx_props.known")
        for h in harnesses:
            h.get("sx_")
        _snap = loader.Snapshot(["sx_markflow", "sx_commonmark", "sx_props"])
    _csnap = loader.Snapshot(["markflow"])
    _log = LogState()


def _modules(directory, name):
    out = [name]
    for base, dirs, files in os.walk(directory):
        dirs[:] = [d for d in dirs if d != "__pycache__"]
        rel = os.path.relpath(base, directory)
        pk = name if rel == "." else name + "." + rel.replace(os.sep, ".")
        for f in sorted(files):
            if f.endswith(".py"):
                n = pk if f == "__init__.py" else pk + "." + f[:-3]
                out.append(n)
    return sorted(set(out))


def concrete(h, values, known=None, seconds=10.0):
    """Run harness h on the unmodified code.  Returns (status, label, observations)."""
    if _csnap is not None:
        _csnap.restore()
    fn = h.get("")
    ctx = ConCtx(values, known)
    snap = LogState()
    try:
        with alarm(seconds, Timeout):
            fn(ctx, **h.params)
        return "ok", None, ctx
    except Violated as v:
        return "violation", v.label, ctx
    except EndPath as e:
        return e.status, e.label, ctx
    except Timeout:
        return "timeout", "no answer within %gs" % seconds, ctx
    finally:
        snap.restore()
        ctx.done()


def one_path(h, prefix, known, path_seconds):
    """Symbolic run along prefix.  Returns (status, label, ctx)."""
    if _snap is not None:
        _snap.restore()
        _log.restore()
    fn = h.get("sx_")
    ctx = SymCtx(known)
    E.start(prefix, max_seconds=path_seconds)
    limit = sys.getrecursionlimit()
    sys.setrecursionlimit(20 * limit)  # the encoding needs more frames than the code
    try:
        with alarm(path_seconds + 5, Budget):
            fn(ctx, **h.params)
        return "ok", None, ctx
    except EndPath as e:
        return e.status, e.label, ctx
    except Infeasible:
        return "infeasible", None, ctx
    except Unsupported as u:
        return "unsupported", str(u), ctx
    except Diverged as d:
        return "diverged", str(d), ctx
    except Budget as b:
        E.solver = None
        return "budget", str(b), ctx
    except z3.Z3Exception as e:
        E.solver = None
        return "unsupported", "z3: %s" % e, ctx
    finally:
        sys.setrecursionlimit(limit)
        ctx.done()
        if _log is not None:
            _log.restore()


def describe(h, values, ctx):
    return {
        k: v for k, v in list(ctx.info.items())
        if isinstance(v, (str, int, float, bool, list, tuple))
    }


def explore(h, prefixes, known, slice_s, opts):
    """Explore subtrees below the prefixes for about slice_s seconds."""
    E.reset_stats()
    t0 = time.time()
    stack = list(prefixes)
    st = Counter()
    notes = Counter()
    found = []
    samples = []
    pcs = []
    rng = random.Random(opts["seed"] * 1000003 + len(stack) + sum(map(len, stack)))
    max_slow = 0.0
    while stack:
        if time.time() - t0 > slice_s:
            break
        prefix = stack.pop()
        t1 = time.time()
        status, label, ctx = one_path(h, prefix, known, opts["path_seconds"])
        max_slow = max(max_slow, time.time() - t1)
        stack.extend(E.alternatives())
        st[status] += 1
        st["checks"] += ctx.nchecks
        E.stop()
        if status == "infeasible":
            continue
        if opts["pcs"] and len(pcs) < opts["pcs"]:
            pcs.append(export_pc())
        if status == "excluded":
            continue
        # what the path says about a concrete input, against the unmodified code
        model = E.model(rng=rng)
        if model is None:
            st["no_model"] += 1
            notes["path condition without model"] += 1
            continue
        if status == "known":
            cs, cl, cctx = concrete(h, model, opts["cknown"], opts["real_seconds"])
            if cs == "known":
                notes["known:" + str(cl)] += 1
                if len(samples) < 2:
                    samples.append(["known", describe(h, model, cctx)])
            else:
                st["mismatch"] += 1
                notes["known finding did not reproduce: %s" % label] += 1
            continue
        if status == "ok" and opts["validate"] < 1.0 and rng.random() > opts["validate"]:
            continue
        cs, cl, cctx = concrete(h, model, opts["cknown"], opts["real_seconds"])
        if cs in ("violation", "timeout"):
            reals = cs == "violation" or opts["timeout_is_violation"]
            if reals:
                found.append(
                    dict(
                        harness=h.name, values=model, label=cl,
                        info=describe(h, model, cctx), sym=[status, label],
                    )
                )
                st["found"] += 1
                if st["found"] >= opts["max_found"]:
                    break
            else:
                notes["timeout"] += 1
            continue
        if status == "violation":
            # the counterexample does not reproduce
            st["mismatch"] += 1
            notes["counterexample did not reproduce: %s %r" % (label, model)] += 1
        elif status == "ok":
            want = subst(ctx.obs, model)
            if want == cctx.obs:
                st["validated"] += 1
                if len(samples) < 2 and rng.random() < 0.2:
                    samples.append(["ok", describe(h, model, cctx)])
            else:
                st["mismatch"] += 1
                notes[
                    "encoding and code disagree: %r vs %r on %r"
                    % (want[:3], cctx.obs[:3], model)
                ] += 1
        else:
            notes["%s: %s" % (status, label)] += 1
    return dict(
        st=dict(st), notes=dict(notes), found=found, left=stack, samples=samples,
        pcs=pcs, stats=E.stats, wall=time.time() - t0, slow=max_slow,
        functions=list(functions),
    )


def _values(v, mask):
    k = E.kind[v]
    if k == "char":
        return E.atoms.ivs(mask)
    return [(k + i, k + i) for i in range(mask.bit_length()) if mask >> i & 1]


def export_pc():
    """The path condition and verdicts in a form that other processes can read."""
    names = E.names

    def conv(f):
        if f is True or f is False:
            return f
        if f[0] == "c":
            return ("c", names[f[1]], _values(f[1], f[2]))
        if f[0] in ("e", "ne"):
            return (f[0], names[f[1]], names[f[2]])
        return (f[0], [conv(g) for g in f[1]])

    inits = {n: _values(v, E.init[v]) for v, n in enumerate(names)}
    doms = {
        n: _values(v, E.doms[v])
        for v, n in enumerate(names)
        if E.doms[v] != E.init[v]
    }
    return doms, [conv(c[0]) for c in E.clauses] + [conv(f) for f in E.vlog], inits


def check_coverage(pcs, timeout_ms=20000):
    """z3: is there an input on none of the paths, or on one whose verdicts fail there?"""
    zv = {}

    def var(n):
        if n not in zv:
            zv[n] = z3.Int(n)
        return zv[n]

    cache = {}

    def mem(n, ivs):
        key = (n, tuple(map(tuple, ivs)))
        if key not in cache:
            z = var(n)
            cache[key] = z3.Or(
                [z == a if a == b else z3.And(z >= a, z <= b) for a, b in ivs]
            )
        return cache[key]

    def conv(f):
        if f is True or f is False:
            return z3.BoolVal(f)
        if f[0] == "c":
            return mem(f[1], f[2])
        if f[0] == "e":
            return var(f[1]) == var(f[2])
        if f[0] == "ne":
            return var(f[1]) != var(f[2])
        parts = [conv(g) for g in f[1]]
        return z3.And(parts) if f[0] == "&" else z3.Or(parts)

    s = z3.Solver()
    s.set("timeout", timeout_ms)
    union = {}
    for _, _, inits in pcs:
        for n, ivs in inits.items():
            union.setdefault(n, set()).update(map(tuple, ivs))
    for n, ivs in union.items():
        s.add(mem(n, sorted(ivs)))
    for doms, cls, _ in pcs:
        parts = [mem(n, ivs) for n, ivs in doms.items()]
        parts += [conv(c) for c in cls]
        s.add(z3.Not(z3.And(parts)) if parts else z3.BoolVal(False))
    return str(s.check())


def _watch():
    """Remember which functions of the code under test the encoding executes."""
    mon = getattr(sys, "monitoring", None)
    if mon is None or mon.get_tool(4) is not None:
        return
    root = os.path.join(REPO, "markflow") + os.sep

    def start(code, offset):
        f = code.co_filename
        if f.startswith(root) and "<" not in code.co_name:
            functions.add(f[len(root):] + ":" + code.co_qualname)
        return mon.DISABLE

    mon.use_tool_id(4, "vsx")
    mon.register_callback(4, mon.events.PY_START, start)
    mon.set_events(4, mon.events.PY_START)


# -- worker entry ------------------------------------------------------------------

_H = None


def _work(job):
    hi, prefixes, slice_s, opts = job
    h = _H[hi]
    known = cknown = None
    if opts["known"]:
        kn = importlib.import_module("sx_props.known")
        kc = importlib.import_module("props.known")
        pid, ids = opts["property"], opts["known"]
        known = lambda c, l, i: kn.match(pid, ids, c, l, i)  # noqa: E731
        cknown = lambda c, l, i: kc.match(pid, ids, c, l, i)  # noqa: E731
    o = dict(opts, cknown=cknown)
    try:
        r = explore(h, prefixes, known, slice_s, o)
    except Exception:
        r = dict(error=traceback.format_exc(), left=[])
    r["hi"] = hi
    return r


class Runner:
    def __init__(self, prop, harnesses, tier, seed, known=(), budget=None,
                 timeout_is_violation=False, jobs=None, validate=1.0, max_found=3,
                 cover=6000):
        self.prop = prop
        self.hs = harnesses
        self.tier = tier
        self.seed = seed
        self.known = list(known)
        self.budget = budget or (110 if tier == "quick" else 3000)
        self.jobs = jobs or min(16, os.cpu_count() or 4)
        self.opts = dict(
            property=prop, seed=seed, known=self.known, path_seconds=30.0,
            real_seconds=10.0, validate=validate, max_found=max_found,
            timeout_is_violation=timeout_is_violation, pcs=cover,
        )

    def run(self, verbose=False, stop_on_found=True):
        global _H
        t0 = time.time()
        setup()
        finish_setup(self.hs)
        _H = self.hs
        n = len(self.hs)
        per = [
            dict(st=Counter(), notes=Counter(), samples=[], pcs=[], wall=0.0,
                 open=0, done=False)
            for _ in range(n)
        ]
        stats = Counter()
        found, errors = [], []
        self.functions = fns = set()
        ctxm = multiprocessing.get_context("fork")
        # Jobs: first every harness once, then leftovers, smallest backlog first
        ready = deque((i, [[]]) for i in range(n))
        inflight = 0
        pool = ctxm.Pool(self.jobs, initializer=_watch)
        results = deque()
        deadline = t0 + self.budget
        active = Counter({i: 1 for i in range(n)})
        try:
            pending = []
            while ready or pending:
                while ready and len(pending) < self.jobs * 2:
                    i, pre = ready.popleft()
                    sl = 0.4 if per[i]["wall"] < 0.5 else 1.5
                    pending.append(
                        pool.apply_async(_work, ((i, pre, sl, self.opts),))
                    )
                done = [p for p in pending if p.ready()]
                if not done:
                    time.sleep(0.002)
                    if time.time() > deadline + 60:
                        break
                    continue
                for p in done:
                    pending.remove(p)
                    try:
                        r = p.get()
                    except Exception:
                        errors.append(traceback.format_exc())
                        continue
                    i = r["hi"]
                    active[i] -= 1
                    if "error" in r:
                        errors.append(r["error"])
                        continue
                    h = per[i]
                    h["st"].update(r["st"])
                    h["notes"].update(r["notes"])
                    h["wall"] += r["wall"]
                    if len(h["samples"]) < 3:
                        h["samples"] += r["samples"]
                    if len(h["pcs"]) <= self.opts["pcs"]:
                        h["pcs"] += r["pcs"]
                    for k, v in r["stats"].items():
                        stats[k] += v
                    fns.update(r["functions"])
                    for f in r["found"]:
                        f["hi"] = i
                        found.append(f)
                    left = r["left"]
                    if time.time() > deadline or (found and stop_on_found):
                        h["open"] += len(left)
                        continue
                    if left:
                        k = max(1, min(len(left), self.jobs))
                        # shallow prefixes hold the biggest subtrees: spread them
                        for j in range(k):
                            part = left[j::k]
                            if part:
                                ready.append((i, part))
                                active[i] += 1
                if time.time() > deadline or (found and stop_on_found):
                    while ready:
                        i, pre = ready.popleft()
                        per[i]["open"] += len(pre)
        finally:
            pool.terminate()
            pool.join()
        self.per, self.stats, self.found, self.errors = per, stats, found, errors
        self.wall = time.time() - t0
        return self

    # -- coverage proofs ------------------------------------------------------------
    def prove_coverage(self, seconds=15.0):
        """For exhausted small harnesses: z3 proves that the paths cover all inputs."""
        t0 = time.time()
        self.cover = Counter()
        for h, p in zip(self.hs, self.per):
            npaths = sum(v for k, v in p["st"].items()
                         if k in ("ok", "known", "violation", "excluded",
                                  "unsupported", "budget"))
            if p["open"] or npaths == 0 or npaths != len(p["pcs"]):
                self.cover["skipped"] += 1
                continue
            if time.time() - t0 > seconds:
                self.cover["skipped"] += 1
                continue
            r = check_coverage(p["pcs"])
            self.cover[r] += 1
            p["cover"] = r
        self.cover_s = time.time() - t0


def replay_fresh(path):
    """Replay in a fresh process: True if the violation shows on the real code."""
    r = subprocess.run(
        [sys.executable, os.path.join(VERIF, "replay.py"), path],
        stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=120,
    )
    return r.returncode == 1, r.stdout.decode("utf-8", "replace")
