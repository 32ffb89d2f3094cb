"""The simulator: clock, randomness, locks, threads, interruption points, event log."""
import _thread
import zlib
import hashlib
import os
import random
import sys
import threading
import time as _time_mod
from collections import Counter

ARTEMIS_DIR = os.path.realpath(os.environ.get("ARTSIM_REPO", "/repo") + "/artemis") + os.sep

REAL_TIME = _time_mod.time
REAL_MONO = _time_mod.monotonic
REAL_SLEEP = _time_mod.sleep
REAL_LOCK = threading.Lock
REAL_RLOCK = threading.RLock
REAL_STDERR = sys.stderr


# ----------------------------------------------------------------- errors
class ModelDown(RuntimeError):
    """The simulated model fails."""


class ModelGone(Exception):
    """Unrelated exception type raised by the simulated model."""


class ModelAbort(BaseException):
    """Non-Exception error raised by the simulated model."""


class SimHang(BaseException):
    """Step or call budget of one operation exhausted (bounded liveness)."""


class SimDeadlock(BaseException):
    """No task can run."""


class SimStop(BaseException):
    """Tasks are told to unwind (run is over)."""


class Violation(Exception):
    def __init__(self, rule, detail):
        self.rule = rule
        self.detail = detail
        super().__init__("%s: %s" % (rule, detail))


EXC_TYPES = {
    "ModelDown": ModelDown, "ModelGone": ModelGone, "ModelAbort": ModelAbort,
    "ValueError": ValueError, "KeyError": KeyError, "IndexError": IndexError, "TypeError": TypeError,
    "AttributeError": AttributeError, "ZeroDivisionError": ZeroDivisionError, "OSError": OSError,
    "TimeoutError": TimeoutError, "MemoryError": MemoryError,
    "KeyboardInterrupt": KeyboardInterrupt, "RuntimeError": RuntimeError, "FloatingPointError": FloatingPointError,
    "NotImplementedError": NotImplementedError, "AssertionError": AssertionError,
    "StopIteration": StopIteration, "SystemExit": SystemExit, "RecursionError": RecursionError, "UserWarning": UserWarning, "EOFError": EOFError,
}


# ----------------------------------------------------------------- operation context
class Ctx:
    """What one running operation has done so far, and the faults planned for it."""

    __slots__ = ("faults", "calls", "lines", "since", "fired", "rows", "delivered_rows", "call_log", "call_cap",
                 "line_cap", "injected", "all_injected", "calls_after_raise", "writes", "tag", "label", "delivered_calls")

    def __init__(self, faults=(), call_cap=60000, line_cap=30000000, label=""):
        self.faults = [dict(f) for f in faults]
        self.calls = 0
        self.lines = 0
        self.since = 0
        self.fired = []
        self.rows = 0
        self.delivered_rows = 0
        self.delivered_calls = 0
        self.call_log = []
        self.call_cap = call_cap
        self.line_cap = line_cap
        self.injected = None          # latest injected error
        self.all_injected = []
        self.calls_after_raise = 0
        self.writes = 0
        self.tag = None
        self.label = label


    def inject(self, e):
        self.injected = e
        self.all_injected.append(e)


class Sim:
    """One simulated run. All nondeterminism the code can meet is derived from `seed`."""

    def __init__(self, seed, log_events=True):
        self.seed = seed
        self.rng = random.Random("artsim-env-%s" % seed)
        self.entropy = random.Random("artsim-entropy-%s" % seed)
        self.clock = 1.0e9 + self.rng.randrange(10 ** 6)
        self.t0 = self.clock
        self.jumped = 0.0
        self.log_hash = hashlib.sha1()
        self.n_events = 0
        self.tail = []
        self.stats = Counter()
        self.ctx = None           # single-task mode
        self.sched = None         # Scheduler in multi-task mode
        self.on_call = None       # callback(ctx, model, df)
        self.fig_events = None

    # -- events
    def event(self, *what):
        s = repr(what)
        self.n_events += 1
        self.log_hash.update(s.encode())
        self.tail.append(s)
        if len(self.tail) > 400:
            del self.tail[:200]

    def current_ctx(self):
        if self.sched is not None:
            t = self.sched.current_task()
            if t is not None:
                return t.ctx
        return self.ctx

    # -- clock
    def now(self):
        self.clock += 1e-6
        return self.clock

    def advance(self, dt):
        self.clock += dt

    def jump(self, dt):
        self.clock += dt
        self.jumped += dt

    # -- seams called by the system under test
    def line(self, code, lineno):
        ctx = self.current_ctx()
        if ctx is None:
            return
        ctx.lines += 1
        ctx.since += 1
        if ctx.lines > ctx.line_cap:
            raise SimHang("operation exceeded %d source lines" % ctx.line_cap)
        if ctx.faults:
            for f in ctx.faults:
                if f["kind"] == "interrupt" and not f.get("done") and (
                        (f["call"] == ctx.calls and f["line"] == ctx.since) if f["call"] is not None else f["line"] == ctx.lines):
                    f["done"] = True
                    self.fire(ctx, "interrupt:" + f["exc"])
                    e = EXC_TYPES[f["exc"]]("simulated interruption")
                    ctx.inject(e)
                    raise e
        if self.sched is not None:
            self.sched.yield_point(code, lineno)

    def fire(self, ctx, kind):
        ctx.fired.append(kind)
        self.stats["fault:" + kind] += 1
        self.event("fault", ctx.label, kind, ctx.calls, ctx.since)


SIM = None            # current Sim
_TOOL = 4


def set_sim(sim):
    global SIM
    SIM = sim


# ----------------------------------------------------------------- seam implementations
def _entropy_bits(n):
    if SIM is not None:
        SIM.stats["entropy_draws"] += 1
        return SIM.entropy.getrandbits(n)
    return random.SystemRandom().getrandbits(n)


def _mk_clock(scale, real):
    def f():
        if SIM is not None and _from_sut(sys._getframe(1)):
            t = SIM.now()
            return int(t * 1e9) if scale else t
        return real()
    return f


def _from_sut(frame):
    fn = frame.f_code.co_filename
    return fn.startswith(ARTEMIS_DIR) or "/tqdm/" in fn


def _sim_sleep(dt):
    if SIM is not None and _from_sut(sys._getframe(1)):
        SIM.advance(max(0.0, dt))
        SIM.stats["sleeps"] += 1
        if SIM.sched is not None:
            SIM.sched.yield_point()
        return
    REAL_SLEEP(dt)


class SimLock:
    """Cooperative lock for artemis code: blocking is a scheduling decision of the simulator."""

    def __init__(self, reentrant):
        self.reentrant = reentrant
        self.owner = None
        self.count = 0

    def _me(self):
        return threading.get_ident()

    def acquire(self, blocking=True, timeout=-1):
        me = self._me()
        while self.owner is not None and not (self.reentrant and self.owner == me):
            if not blocking:
                return False
            sim = SIM
            sched = sim.sched if sim is not None else None
            if sched is None or sched.current_task() is None:
                if timeout is not None and timeout >= 0:
                    return False
                raise SimDeadlock("lock already held and no other task can release it")
            sched.block_on(self)
        self.owner = me
        self.count += 1
        return True

    def release(self):
        if self.owner is None:
            raise RuntimeError("release unlocked lock")
        self.count -= 1
        if self.count == 0:
            self.owner = None

    def locked(self):
        return self.owner is not None

    __enter__ = acquire

    def __exit__(self, *a):
        self.release()

    def __reduce__(self):
        raise TypeError("cannot pickle lock")


def _lock_factory(real, reentrant):
    def make(*a, **k):
        if sys._getframe(1).f_code.co_filename.startswith(ARTEMIS_DIR):
            return SimLock(reentrant)
        return real(*a, **k)
    return make


class SimStream:
    """sys.stderr while an operation runs: swallows progress output, can fail."""

    encoding = "utf-8"
    errors = "replace"

    def __init__(self):
        self.n = 0

    def _step(self):
        sim = SIM
        ctx = sim.current_ctx() if sim is not None else None
        if ctx is None:
            return
        ctx.writes += 1
        for f in ctx.faults:
            if f["kind"] == "stderr" and not f.get("done") and ctx.writes >= f["write"]:
                f["done"] = True
                sim.fire(ctx, "stderr")
                e = BrokenPipeError(32, "simulated broken pipe")
                ctx.inject(e)
                raise e

    def write(self, s):
        self._step()
        return len(s)

    def flush(self):
        pass

    def isatty(self):
        return False

    def fileno(self):
        raise OSError("no fileno")


STREAM = SimStream()


def _on_start(code, off):
    if code.co_filename.startswith(ARTEMIS_DIR) or os.path.realpath(code.co_filename).startswith(ARTEMIS_DIR):
        sys.monitoring.set_local_events(_TOOL, code, sys.monitoring.events.LINE)
    return sys.monitoring.DISABLE


def _on_line(code, lineno):
    if SIM is not None:
        SIM.line(code, lineno)


_installed = False


def install_seams():
    global _installed
    if _installed:
        return
    _installed = True
    import numpy.random.bit_generator as bg
    if hasattr(bg, "randbits"):
        bg.randbits = _entropy_bits
    threading.Lock = _lock_factory(REAL_LOCK, False)
    threading.RLock = _lock_factory(REAL_RLOCK, True)
    for name in ("time", "monotonic", "perf_counter"):
        setattr(_time_mod, name, _mk_clock(False, getattr(_time_mod, name)))
        setattr(_time_mod, name + "_ns", _mk_clock(True, getattr(_time_mod, name + "_ns")))
    _time_mod.sleep = _sim_sleep
    import tqdm
    import tqdm.std
    tqdm.tqdm.monitor_interval = 0
    tqdm.std.time = _time_mod.time
    mon = sys.monitoring
    mon.use_tool_id(_TOOL, "artsim")
    mon.register_callback(_TOOL, mon.events.LINE, _on_line)
    mon.register_callback(_TOOL, mon.events.PY_START, _on_start)
    mon.set_events(_TOOL, mon.events.PY_START)


# ----------------------------------------------------------------- threads
class Task:
    def __init__(self, tid, fn):
        self.tid = tid
        self.fn = fn
        self.ctx = None
        self.gate = _thread.allocate_lock()
        self.gate.acquire()
        self.done = False
        self.error = None
        self.blocked_on = None
        self.ident = None


class Scheduler:
    """Real threads, exactly one released at a time; who runs next is decided here, from the seed or an explicit list.

    spec: {"mode": "random", "seed": s, "rate": r[, "hot": k]} (every k-th source line, chosen by the seed, is a favourite place to switch) or {"mode": "explicit", "switches": [[step, tid], ...]}
    """

    def __init__(self, sim, spec):
        self.sim = sim
        self.spec = spec
        self.tasks = []
        self.by_ident = {}
        self.step = 0
        self.switches = []
        self.main_gate = _thread.allocate_lock()
        self.main_gate.acquire()
        self.running = None
        self.stopping = False
        self.deadlock = False
        self.explicit = None
        self.hotness = None
        if spec["mode"] == "explicit":
            self.explicit = {int(s): int(t) for s, t in spec["switches"]}
        else:
            self.rng = random.Random("artsim-sched-%s" % spec["seed"])
            self.rate = spec["rate"]
            self.hotness = {} if spec.get("hot") else None

    def spawn(self, fn):
        t = Task(len(self.tasks), fn)
        self.tasks.append(t)
        return t

    def current_task(self):
        return self.by_ident.get(_thread.get_ident())

    def runnable(self):
        return [t for t in self.tasks if not t.done and (t.blocked_on is None or not t.blocked_on.locked())]

    def _body(self, t):
        t.gate.acquire()
        t.ident = _thread.get_ident()
        self.by_ident[t.ident] = t
        try:
            if not self.stopping:
                t.fn(t)
        except SimStop:
            pass
        except BaseException as e:          # noqa: B902  recorded, re-raised by run()
            t.error = e
        t.done = True
        self.by_ident.pop(t.ident, None)
        self._leave()

    def _leave(self):
        self.step += 1
        r = self.runnable()
        if not r:
            if any(not t.done for t in self.tasks):
                self.deadlock = True
                self.stopping = True
                for t in self.tasks:
                    if not t.done:
                        t.blocked_on = None
                        self.running = t
                        t.gate.release()
                        return
            self.main_gate.release()
            return
        nxt = self._pick(r, forced=True)
        self.running = nxt
        nxt.gate.release()

    def _pick(self, cands, forced):
        if self.explicit is not None:
            want = self.explicit.get(self.step)
            for t in cands:
                if t.tid == want:
                    return t
            return cands[0]
        t = cands[self.rng.randrange(len(cands))]
        if forced:
            self.switches.append([self.step, t.tid])
        return t

    def hot(self, code, lineno):
        """Whether this source line is one of those where the run likes to switch."""
        k = (code.co_name, lineno - code.co_firstlineno)
        h = self.hotness.get(k)
        if h is None:
            h = self.hotness[k] = zlib.crc32(("%s:%d:%s" % (k[0], k[1], self.spec["seed"])).encode()) % self.spec["hot"] == 0
        return h

    def yield_point(self, code=None, lineno=0):
        me = self.current_task()
        if me is None:
            return
        if self.stopping:
            raise SimStop()
        self.step += 1
        if self.explicit is not None:
            want = self.explicit.get(self.step)
            if want is None or want == me.tid:
                return
            cands = [t for t in self.runnable() if t.tid == want]
            if not cands:
                return
            self._switch(me, cands[0])
        else:
            if self.rng.random() >= (0.6 if self.hotness is not None and code is not None and self.hot(code, lineno) else self.rate):
                return
            cands = [t for t in self.runnable() if t is not me]
            if not cands:
                return
            nxt = self._pick(cands, False)
            self.switches.append([self.step, nxt.tid])
            self._switch(me, nxt)

    def _switch(self, me, nxt):
        self.sim.stats["context_switches"] += 1
        self.sim.event("switch", self.step, me.tid, nxt.tid)
        self.running = nxt
        nxt.gate.release()
        me.gate.acquire()
        if self.stopping:
            raise SimStop()

    def block_on(self, lock):
        me = self.current_task()
        me.blocked_on = lock
        self.step += 1
        cands = [t for t in self.runnable() if t is not me]
        if not cands:
            me.blocked_on = None
            self.deadlock = True
            raise SimDeadlock("all tasks blocked")
        nxt = self._pick(cands, True)
        self._switch(me, nxt)
        me.blocked_on = None

    def run(self, wall=120):
        threads = []
        for t in self.tasks:
            th = threading.Thread(target=self._body, args=(t,), daemon=True)
            th.start()
            threads.append(th)
        self.sim.sched = self
        first = self._pick(list(self.tasks), True)
        self.running = first
        first.gate.release()
        got = self.main_gate.acquire(True, wall)
        self.sim.sched = None
        if not got:
            self.stopping = True
            raise SimHang("tasks did not finish within the wall limit")
        for th in threads:
            th.join(10)
        if self.deadlock:
            raise SimDeadlock("deadlock between caller threads")
        return [t.error for t in self.tasks]
