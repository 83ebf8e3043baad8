"""Bounded exhaustive exploration core.

A check is a list of `Space`s.  A space enumerates *units* (JSON-able work
items, in a fixed order, simplest first); exploring a unit runs every
execution/history below it on the real code and compares each step with a
reference model through a `Ctx`.  Nothing is sampled: a run that explores all
units of all its spaces without hitting a cap is exhaustive for the stated
bounds.
"""
import concurrent.futures as cf
import hashlib
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback
from concurrent.futures.process import BrokenProcessPool

import numpy as np

from . import env

MAX_RECORDED = 6          # violations kept per unit
STOP_AFTER = 24           # stop handing out units after this many violations
UNIT_ALARM_S = 400        # a unit takes seconds; hitting this is non-termination


class UnitTimeout(BaseException):
    pass


class EnvTrouble(BaseException):
    """The sandbox, not the code under test (disk full, out of memory)."""


def h64(obj):
    return int.from_bytes(hashlib.blake2b(repr(obj).encode(), digest_size=8).digest(), "big")


class Mismatch(Exception):
    """Raised by oracles; becomes a violation of the enclosing case."""


class Ctx:
    """What a unit reports."""

    def __init__(self, space, unit, only=None):
        self.space = space
        self.unit = unit
        self.only = only
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self.nviol = 0
        self.sample = None
        self._case = None

    # -- accounting -------------------------------------------------------
    def state(self, *key):
        self.states.add(h64((self.space,) + key))

    def step(self, n=1):
        self.transitions += n

    def outcome(self, *key):
        if len(self.outcomes) < 4096:
            self.outcomes.add(h64(key))

    # -- running one execution -------------------------------------------
    def case(self, key, fn, *args, **kw):
        """Run one execution.  `key` identifies it (and is what a replay file
        and a known-finding entry name).  Any exception that escapes is a
        behaviour the reference model does not have, hence a violation."""
        key = str(key)
        if self.only is not None and key != self.only:
            return None
        self._case = key
        self.traces += 1
        if self.sample is None:
            self.sample = key
        try:
            return fn(*args, **kw)
        except Mismatch as e:
            self.violation(str(e))
        except (UnitTimeout, EnvTrouble):
            raise
        except (MemoryError,) as e:
            raise EnvTrouble(repr(e))
        except OSError as e:
            if getattr(e, "errno", None) in (28, 12, 24):
                raise EnvTrouble(repr(e))
            self.violation("unexpected %s: %s" % (type(e).__name__, tb(e)))
        except Exception as e:  # noqa: BLE001
            self.violation("unexpected %s: %s" % (type(e).__name__, tb(e)))
        return None

    def violation(self, msg):
        self.nviol += 1
        if len(self.violations) < MAX_RECORDED:
            self.violations.append({"space": self.space, "unit": self.unit, "case": self._case, "message": msg[:3000]})

    def result(self):
        return {
            "space": self.space,
            "states": self.states,
            "outcomes": self.outcomes,
            "transitions": self.transitions,
            "traces": self.traces,
            "violations": self.violations,
            "nviol": self.nviol,
            "sample": self.sample,
        }


def tb(e):
    fr = traceback.extract_tb(e.__traceback__)
    keep = [f for f in fr if "/repo/" in f.filename or "gridded" in f.filename] or fr[-2:]
    s = " <- ".join("%s:%d %s" % (os.path.basename(f.filename), f.lineno, f.name) for f in reversed(keep[-3:]))
    return "%s [%s]" % (e, s)


class Space:
    def __init__(self, name, units, run, bounds):
        """units: callable(tier) -> list of JSON-able; run(ctx, unit)."""
        self.name = name
        self.units = units
        self.run = run
        self.bounds = bounds


# ---------------------------------------------------------------------------
_SPACES = {}


def _alarm(signum, frame):
    raise UnitTimeout()


def _run_unit(space_name, unit, only=None):
    ctx = Ctx(space_name, unit, only)
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(UNIT_ALARM_S)
    try:
        _SPACES[space_name].run(ctx, unit)
    except UnitTimeout:
        ctx.violation("no answer within %d s: the call does not terminate" % UNIT_ALARM_S)
    except EnvTrouble:
        raise
    except Mismatch as e:
        ctx.violation(str(e))
    except Exception as e:  # noqa: BLE001 - set-up of a unit calls real code too
        ctx.violation("unexpected %s while setting up: %s" % (type(e).__name__, tb(e)))
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    return ctx.result()


def _worker(space_name, batch):
    out = []
    for unit in batch:
        try:
            out.append(_run_unit(space_name, unit))
        except EnvTrouble as e:
            return ("env", str(e))
    return ("ok", out)


def _init_worker():
    signal.signal(signal.SIGINT, signal.SIG_IGN)


class Report:
    def __init__(self):
        self.states = set()
        self.outcomes = set()
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self.nviol = 0
        self.per_space = {}
        self.samples = []
        self.complete = True
        self.units = 0

    def add(self, r):
        self.units += 1
        self.states |= r["states"]
        self.outcomes |= r["outcomes"]
        self.transitions += r["transitions"]
        self.traces += r["traces"]
        self.nviol += r["nviol"]
        self.violations += r["violations"]
        p = self.per_space.setdefault(r["space"], {"units": 0, "executions": 0, "steps": 0})
        p["units"] += 1
        p["executions"] += r["traces"]
        p["steps"] += r["transitions"]
        if r["sample"] and p["units"] in (1, 2):
            self.samples.append("%s: %s" % (r["space"], r["sample"]))


def explore(spaces, tier, jobs=None, log=print, known=lambda v: None):
    _SPACES.clear()
    for s in spaces:
        _SPACES[s.name] = s
    jobs = jobs or int(os.environ.get("VMC_JOBS", "0")) or os.cpu_count() or 4
    rep = Report()
    todo = []
    for s in spaces:
        units = list(s.units(tier))
        # small batches keep all cores busy and bound the loss from a crash
        n = max(1, min(8, len(units) // (jobs * 6) or 1))
        for i in range(0, len(units), n):
            todo.append((s.name, units[i:i + n]))
    mpctx = mp.get_context("fork")
    crashed = []

    def unknown():
        return sum(1 for v in rep.violations if not known(v))

    if jobs == 1:
        for name, batch in todo:
            kind, res = _worker(name, batch)
            if kind == "env":
                raise EnvTrouble(res)
            for r in res:
                rep.add(r)
            if unknown() >= STOP_AFTER:
                rep.complete = False
                break
        return rep

    pending = list(todo)
    while pending:
        ex = cf.ProcessPoolExecutor(jobs, mp_context=mpctx, initializer=_init_worker)
        futs = {}
        it = iter(pending)
        done_idx = set()
        broken = False
        stop = False

        def submit():
            try:
                w = next(it)
            except StopIteration:
                return False
            futs[ex.submit(_worker, *w)] = w
            return True

        try:
            for _ in range(jobs * 3):
                if not submit():
                    break
            inflight = set(futs)
            while inflight:
                done, inflight = cf.wait(inflight, return_when=cf.FIRST_COMPLETED)
                for f in done:
                    w = futs[f]
                    try:
                        kind, res = f.result()
                    except BrokenProcessPool:
                        broken = True
                        continue
                    if kind == "env":
                        raise EnvTrouble(res)
                    done_idx.add(id(w))
                    for r in res:
                        rep.add(r)
                if broken:
                    break
                if unknown() >= STOP_AFTER:
                    stop = True
                    rep.complete = False
                    break
                while len(inflight) < jobs * 3:
                    before = len(futs)
                    if not submit():
                        break
                    inflight |= set(list(futs)[before:])
        finally:
            ex.shutdown(wait=not (broken or stop), cancel_futures=True)
            if stop or broken:
                for p in list((getattr(ex, "_processes", None) or {}).values()):
                    p.kill()
        if stop:
            break
        if broken:
            # an interpreter died (segfault in a C extension): find the unit
            suspects = [w for w in futs.values() if id(w) not in done_idx]
            for w in suspects:
                for unit in w[1]:
                    rc = _isolated(w[0], unit)
                    if rc < 0:
                        crashed.append((w[0], unit, rc))
                        rep.nviol += 1
                        rep.violations.append(
                            {"space": w[0], "unit": unit, "case": None, "message": "the process died with signal %d" % -rc}
                        )
                        break
                if crashed:
                    break
            if crashed:
                rep.complete = False
                break
            raise EnvTrouble("a worker process died and the death does not reproduce")
        pending = []
    return rep


def _isolated(name, unit):
    pid = os.fork()
    if pid == 0:
        try:
            _run_unit(name, unit)
        except BaseException:  # noqa: BLE001
            os._exit(3)
        os._exit(0)
    _, st = os.waitpid(pid, 0)
    return -os.WTERMSIG(st) if os.WIFSIGNALED(st) else os.WEXITSTATUS(st)


# ---------------------------------------------------------------------------
# comparison helpers (shared by the oracles)

def expect(cond, msg, *a):
    if not cond:
        raise Mismatch(msg % a if a else msg)


def as_list(v):
    """Masked/plain array -> nested python list with None for masked."""
    if isinstance(v, np.ma.MaskedArray):
        return v.tolist()
    return np.asarray(v).tolist()


def same(a, b, tol=1e-9):
    """Structural equality of nested lists of numbers/None/nan."""
    if isinstance(a, (list, tuple)) or isinstance(b, (list, tuple)):
        if not (isinstance(a, (list, tuple)) and isinstance(b, (list, tuple))) or len(a) != len(b):
            return False
        return all(same(x, y, tol) for x, y in zip(a, b))
    if a is None or b is None:
        return a is None and b is None
    if isinstance(a, str) or isinstance(b, str):
        return a == b
    a = float(a)
    b = float(b)
    if a != a or b != b:
        return a != a and b != b
    return abs(a - b) <= tol * max(1.0, abs(a), abs(b))


def expect_same(got, want, what, tol=1e-9):
    g = as_list(got) if not isinstance(got, (list, tuple, int, float, type(None))) else got
    w = as_list(want) if isinstance(want, np.ndarray) else want
    if not same(g, w, tol):
        raise Mismatch("%s: got %s, expected %s" % (what, short(g), short(w)))


def short(x, n=600):
    s = repr(x)
    return s if len(s) <= n else s[:n] + "..."


def raises(exc, fn, *a, **k):
    """Call fn; return True if it raises `exc`, False if it returns."""
    try:
        fn(*a, **k)
    except exc:
        return True
    return False
