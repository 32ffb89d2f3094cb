"""Runs operations of the system under test inside the simulator and records what happened."""
import random
import sys

import numpy as np

from . import core, world as W
from .core import Violation


class Outcome:
    """ok: returned normally with no injected error; fault: the injected error came out unchanged;
    swallowed: an error was injected, yet the call returned; error: some other error came out."""
    __slots__ = ("kind", "value", "exc", "ctx", "replaced")

    def __init__(self, kind, value, exc, ctx, replaced=False):
        self.kind = kind
        self.value = value
        self.exc = exc
        self.ctx = ctx
        self.replaced = replaced

    @property
    def returned(self):
        return self.kind in ("ok", "swallowed")

    @property
    def clean(self):
        """Returned and no fault that may legitimately spoil values was fired."""
        return self.kind == "ok" and not any(f == "nan" for f in self.ctx.fired)


def short(e):
    s = "%s: %s" % (type(e).__name__, e)
    return s if len(s) < 300 else s[:300]


class Run:
    def __init__(self, plan, sim):
        self.plan = plan
        self.sim = sim
        self.probes = sim.stats
        self.worlds = [W.build_frame(s) for s in plan.get("worlds", [])]
        self.grids = [W.Grid(s) for s in plan.get("worlds", [])]
        self.codes = [g.codes(f) for g, f in zip(self.grids, self.worlds)]
        self.models = []
        for k, m in enumerate(plan.get("models", [])):
            self.models.append(W.SimModel(m, plan["worlds"][m["world"]], m.get("keep", False), ident=k))
        self.sig = []

    def note(self, *x):
        self.sig.append(x)
        self.sim.event(*x)

    def probe(self, name):
        self.probes["probe:" + name] += 1

    def begin(self, faults=(), label="", call_cap=60000, line_cap=30000000):
        return core.Ctx(faults, call_cap=call_cap, line_cap=line_cap, label=label)

    def attempt(self, fn, faults=(), label="", call_cap=60000, line_cap=30000000, task=None):
        """Run fn() as one operation under the given faults."""
        sim = self.sim
        ctx = self.begin(faults, label, call_cap, line_cap)
        if task is not None:
            task.ctx = ctx
        else:
            sim.ctx = ctx
        sim.stats["operations"] += 1
        value = exc = None
        old = None
        if task is None:
            old = sys.stderr
            sys.stderr = core.STREAM
        try:
            value = fn()
        except (core.SimStop, core.SimDeadlock):
            raise
        except core.SimHang as e:
            raise Violation("liveness", "%s: %s" % (label, e))
        except Violation:
            raise
        except BaseException as e:      # noqa: B902
            exc = e
        finally:
            if task is not None:
                task.ctx = None
            else:
                sim.ctx = None
                sys.stderr = old
        if exc is None:
            kind = "ok" if ctx.injected is None else "swallowed"
        elif any(exc is e for e in ctx.all_injected):
            kind = "fault"
        elif isinstance(exc, RuntimeError) and isinstance(exc.__cause__, StopIteration) and any(exc.__cause__ is e for e in ctx.all_injected):
            kind = "fault"                     # what Python itself makes of a StopIteration that crosses a generator expression
        else:
            kind = "error"
        sim.event("op", label, kind, type(exc).__name__ if exc is not None else None, ctx.calls, ctx.rows)
        return Outcome(kind, value, exc, ctx)

    def must(self, out, what):
        """A fault-free valid operation has to succeed; an operation under fault may only fail with the injected error."""
        if out.kind == "error":
            if out.ctx.injected is not None:
                raise Violation("error-replaced", "%s: injected %s, caller got %s" % (what, short(out.ctx.injected), short(out.exc)))
            if any(f == "nan" for f in out.ctx.fired):
                return
            raise Violation("unexpected-error", "%s raised %s" % (what, short(out.exc)))
        if out.kind == "fault" and out.ctx.injected is None:
            raise Violation("unexpected-error", "%s raised %s" % (what, short(out.exc)))


def run_threads(run, plan, body):
    """Run plan["threads"] as concurrent callers under the seeded scheduler; body(ops, task)."""
    sched = core.Scheduler(run.sim, plan["sched"])
    run.switches = sched.switches
    for ops in plan["threads"]:
        sched.spawn(lambda task, ops=ops: body(ops, task))
    old = sys.stderr
    sys.stderr = core.STREAM
    try:
        errors = sched.run()
    finally:
        sys.stderr = old
    run.sim.stats["threaded_sections"] += 1
    for e in errors:
        if isinstance(e, Violation):
            raise e
    for e in errors:
        if e is not None:
            raise e
    return sched


def reseed_globals(sim):
    random.seed(sim.rng.getrandbits(64))
    np.random.seed(sim.rng.getrandbits(32))


# ----------------------------------------------------------------- fault generation
RAISES = ["ModelDown", "ModelGone", "ModelAbort", "ValueError", "KeyError", "IndexError", "TypeError", "OSError",
          "TimeoutError", "MemoryError", "KeyboardInterrupt", "RuntimeError", "AttributeError", "ZeroDivisionError",
          "FloatingPointError", "NotImplementedError", "AssertionError", "StopIteration", "SystemExit", "RecursionError", "UserWarning", "EOFError"]


def low(rng, n):
    """1..n, biased to small values."""
    n = max(1, n)
    r = rng.random()
    if r < 0.35:
        return rng.randint(1, min(3, n))
    if r < 0.5:
        return n
    return rng.randint(1, n)


def gen_fault(rng, kinds, max_call=6, max_line=120):
    k = rng.choice(list(kinds))
    if k == "raise":
        return {"kind": "raise", "call": low(rng, max_call), "exc": rng.choice(RAISES)}
    if k == "nan":
        lo = rng.choice([0.0, 0.0, 0.25, 0.5, 0.9])
        return {"kind": "nan", "call": low(rng, max_call), "lo": lo, "hi": min(1.0, lo + rng.choice([0.01, 0.3, 1.0]))}
    if k == "slow":
        return {"kind": "slow", "call": low(rng, max_call), "dt": rng.choice([0.5, 60.0, 86400.0])}
    if k == "clockjump":
        return {"kind": "clockjump", "call": low(rng, max_call), "dt": rng.choice([-3600.0, -1e9, 1e6, -0.5])}
    if k == "interrupt":
        if rng.random() < 0.35:
            return {"kind": "interrupt", "call": None, "line": int(2 ** rng.uniform(0, 11)), "exc": "KeyboardInterrupt"}
        return {"kind": "interrupt", "call": rng.randint(0, max_call), "line": int(2 ** rng.uniform(0, 1 + np.log2(max_line))),
                "exc": rng.choice(["KeyboardInterrupt", "KeyboardInterrupt", "MemoryError"])}
    if k == "stderr":
        return {"kind": "stderr", "write": rng.randint(1, 4)}
    raise ValueError(k)


def gen_faults(rng, kinds, p=0.4, **kw):
    if not kinds or rng.random() >= p:
        return []
    n = 1 if rng.random() < 0.85 else 2
    return [gen_fault(rng, kinds, **kw) for _ in range(n)]


def swarm(rng, kinds):
    """Random subset of fault kinds for one run."""
    s = [k for k in kinds if rng.random() < 0.6]
    return s


def batchsizes(rng, n):
    return rng.choice([1, 2, max(1, n - 1), n, n + 1, 2 * n, 3 * n - 1, n * n, 7 * n, 2000, 2000, 100000])


# ----------------------------------------------------------------- snapshots of caller-owned objects
def frame_state(df):
    cols = []
    for j in range(df.shape[1]):
        s = df.iloc[:, j]
        cols.append((str(s.dtype), tuple(repr(v) for v in s.tolist())))
    return (type(df).__name__, repr(df.index.names), repr(df.columns.names), repr(df.attrs), tuple(map(repr, df.columns.tolist())), str(df.index.dtype), type(df.index).__name__,
            tuple(map(repr, df.index.tolist())), tuple(cols))


def any_state(o):
    import pandas as pd
    if o is None:
        return None
    if isinstance(o, pd.DataFrame):
        return frame_state(o)
    if isinstance(o, pd.Series):
        return ("Series", str(o.dtype), repr(o.name), repr(o.index.names), repr(o.attrs), tuple(map(repr, o.index.tolist())), tuple(map(repr, o.tolist())))
    if isinstance(o, np.ndarray):
        return ("ndarray", str(o.dtype), o.shape, tuple(map(repr, o.ravel().tolist())))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(any_state(x) for x in o))
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), any_state(v)) for k, v in o.items()))
    return (type(o).__name__, repr(o))
