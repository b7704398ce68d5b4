"""The simulated event loop, the simulation environment, and the single-run driver."""
import asyncio
import gc
import hashlib
import heapq
import os
import signal
import sys
import threading
import types
import traceback
from asyncio import events

from . import seams

REPO = os.environ.get("VERIF_REPO", "/repo")  # only tools/mutants.py sets it, to try scratch copies
sys.path.insert(0, REPO)
import aioreactive  # noqa: E402
from expression.core import aiotools  # noqa: E402

assert aioreactive.__file__ == os.path.join(REPO, "aioreactive/__init__.py"), aioreactive.__file__

CPU_LIMIT = 4.0  # CPU seconds one callback-to-callback stretch of a run may take before it counts as a hang


class Violation(Exception):
    def __init__(self, cls, msg):
        super().__init__(f"{cls}: {msg}")
        self.cls = cls
        self.msg = msg


class HarnessError(Exception):
    pass


class Hang(KeyboardInterrupt):
    """Raised asynchronously into code that never yields to the loop."""


class SimLoop(asyncio.BaseEventLoop):
    """Discrete-event asyncio loop.

    Ready callbacks run in FIFO order, as asyncio documents; all timers due at the current
    instant become ready together.  The order of timers with the same due time is not
    promised by asyncio and is chosen by the scenario (fifo, lifo or a seeded hash).
    Time advances only when nothing is ready, or by stall() inside a callback.
    """

    def __init__(self, tie="fifo"):
        super().__init__()
        self._now = 0.0
        self.wall_offset = 0.0
        self._heap = []
        self._tseq = 0
        self.tie = tie
        self.iters = 0
        self.steps = 0
        self.errors = []
        self._settlers = []
        self._epochs = []
        self._debug = False
        self.set_exception_handler(self._on_error)

    # --- clock
    def time(self):
        return self._now

    def stall(self, d):
        """The current callback blocks the loop for d seconds."""
        self._now += d

    def _write_to_self(self):
        pass

    def call_at(self, when, callback, *args, context=None):
        self._check_closed()
        timer = events.TimerHandle(when, callback, args, self, context)
        self._tseq += 1
        if self.tie == "fifo":
            key = self._tseq
        elif self.tie == "lifo":
            key = -self._tseq
        else:
            key = (self._tseq * 2654435761 ^ self.tie) & 0xFFFFFFFF
        heapq.heappush(self._heap, (when, key, self._tseq, timer))
        timer._scheduled = True
        return timer

    def call_later(self, delay, callback, *args, context=None):
        if delay is None:
            raise TypeError("delay must not be None")
        return self.call_at(self._now + delay, callback, *args, context=context)

    def _timer_handle_cancelled(self, handle):
        pass

    def _on_error(self, loop, ctx):
        exc = ctx.get("exception")
        self.errors.append((ctx.get("message"), exc))

    def settle(self):
        """Future resolved when nothing else is ready at the current instant."""
        f = self.create_future()
        self._settlers.append(f)
        return f

    def drive_until(self, flag, max_steps=200000):
        """Run until flag (a list) is non-empty."""
        return self.drive(max_steps, 1e18, flag)

    def drive(self, max_steps, horizon, flag=None):
        """Run to quiescence.  Returns 'quiet', 'horizon', 'livelock' or 'stop'."""
        ready = self._ready
        heap = self._heap
        steps = 0
        while True:
            if not ready:
                if self._settlers:
                    fs, self._settlers = self._settlers, []
                    for f in fs:
                        if not f.done():
                            f.set_result(None)
                    if ready:
                        continue
                while heap and heap[0][3]._cancelled:
                    heapq.heappop(heap)
                if not heap:
                    return "quiet"
                if heap[0][0] > horizon:
                    return "horizon"
                if heap[0][0] > self._now:
                    self._now = heap[0][0]
            # timers due now join the ready queue behind what is already there
            now = self._now + 1e-9
            while heap and heap[0][0] <= now:
                h = heapq.heappop(heap)[3]
                h._scheduled = False
                if not h._cancelled:
                    ready.append(h)
            self.iters += 1
            n = len(ready)
            for _ in range(n):
                h = ready.popleft()
                if h._cancelled:
                    continue
                steps += 1
                h._run()
            h = None
            self.steps = steps
            if flag:
                return "stop"
            if steps > max_steps:
                return "livelock"

    def run_forever(self):
        raise RuntimeError("SimLoop is driven by drive()")


_running = aiotools.__dict__.get("__running_tasks")


class Env:
    """Everything one simulated run shares: loop, history, counters, spawned actors."""

    def __init__(self, loop, ts=1.0):
        self.loop = loop
        self.ts = ts  # seconds of the loop's clock per unit of the scenario's time
        self.hist = []
        self.faults = {}
        self.probes = {}
        self.actor_errors = []
        self._errs = {}
        self._causes = {}
        self.tasks = []
        self.earlier = None  # the event loop this process used before, see earlier_loop
        self.pure = False  # user functions depend on their argument only, not on how often they were called
        self.stalls = []  # intervals in which the loop was blocked

    def push(self, t):
        """Latest time at which something due at t can start, given the recorded stalls."""
        for a, b in sorted(self.stalls):
            if a - 1e-9 <= t < b:
                t = b
        return t

    # --- history: one global sequence number per event, simulated time, loop iteration
    def log(self, *ev):
        h = self.hist
        n = len(h)
        h.append((n, round(self.loop._now / self.ts, 6), *ev))
        return n

    @property
    def now(self):
        return self.loop._now / self.ts

    def T(self, d):
        """A duration of the scenario in seconds of the loop's clock."""
        return d if self.ts == 1 else d * self.ts

    def sleep(self, d):
        return asyncio.sleep(self.T(d))

    def fault(self, kind, n=1):
        self.faults[kind] = self.faults.get(kind, 0) + n

    def probe(self, name, n=1):
        self.probes[name] = self.probes.get(name, 0) + n

    def settle(self):
        return self.loop.settle()

    def spawn(self, coro, name):
        async def runner():
            try:
                return await coro
            except asyncio.CancelledError:
                raise
            except Exception as ex:  # noqa: BLE001
                self.actor_errors.append((name, ex, traceback.format_exc()))

        t = self.loop.create_task(runner())
        self.tasks.append(t)
        return t

    def earlier_loop(self, coro, tie, max_steps, horizon, how):
        """Run coro on an event loop of its own, stop that loop at some point, and come back to the loop of this run.

        how: 'run' - what is left is cancelled, as asyncio.run does; 'gone' - the loop just stops turning.
        """
        # coroutines of an abandoned loop complain when they are collected
        sys.unraisablehook = lambda *_: None
        later = self.loop
        loop = self.loop = SimLoop(tie)
        seams.ACTIVE = loop
        later._thread_id = None
        loop._thread_id = threading.get_ident()
        events._set_running_loop(loop)
        asyncio.set_event_loop(loop)
        try:
            self.spawn(coro, "earlier")
            status = loop.drive(max_steps, horizon)
            left = [t for t in asyncio.all_tasks(loop) if not t.done()]
            if how == "run":
                for t in left:
                    t.cancel()
                loop.drive(20000, loop._now + 1)
                loop.create_task(loop.shutdown_asyncgens())
                loop.drive(2000, loop._now + 1)
            self.graveyard = [*left, *loop._ready, *(h[3] for h in loop._heap)]
            self.earlier = loop
            loop._ready.clear()
            loop._heap.clear()
            loop.set_exception_handler(lambda *_: None)
            loop._thread_id = None
            loop.close()
        finally:
            later._now = loop._now + self.ts
            later.wall_offset = loop.wall_offset
            self.loop = later
            seams.ACTIVE = later
            later._thread_id = threading.get_ident()
            events._set_running_loop(later)
            asyncio.set_event_loop(later)
        return status, len(left)

    def digest(self):
        m = hashlib.blake2b(digest_size=12)
        for ev in self.hist:
            m.update(repr(ev).encode())
        return m.hexdigest()


def lib_frames(ex):
    tb = ex.__traceback__
    while tb is not None:
        fn = tb.tb_frame.f_code.co_filename
        if "/aioreactive/" in fn or "/expression/" in fn:
            return True
        tb = tb.tb_next
    return False


class Result:
    __slots__ = ("violation", "digest", "steps", "iters", "simtime", "faults", "probes", "events", "status", "detail", "nontrivial")


def _on_alarm(signum, frame):
    raise Hang("CPU limit")


def simulate(prop, sc, keep=False):
    """Run one scenario.  A pure function of (code under test, property, scenario)."""
    loop = SimLoop(tie=sc.get("tie", "fifo"))
    env = Env(loop, sc.get("ts", 1.0))
    res = Result()
    res.violation = None
    old_loop = None
    signal.signal(signal.SIGVTALRM, _on_alarm)
    seams.activate(loop, sc.get("rseed", 0))
    events._set_running_loop(loop)
    asyncio.set_event_loop(loop)
    loop._thread_id = threading.get_ident()
    status = None
    hang = False
    try:
        try:
            signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
            if hasattr(prop, "before"):
                # an earlier event loop of the same process, see Env.earlier_loop
                prop.before(env, sc)
            env.spawn(prop.start(env, sc), "start")
            status = loop.drive(sc.get("max_steps", getattr(prop, "MAX_STEPS", 60000)), sc.get("horizon", getattr(prop, "HORIZON", 1e9)) * env.ts)
        except Hang:
            hang = True
            status = "hang"
        finally:
            signal.setitimer(signal.ITIMER_VIRTUAL, 0)
        env.status = status
        try:
            if hang:
                raise Violation("event-loop-hang", f"a callback never returned control to the event loop (>{CPU_LIMIT}s CPU) at t={env.now}")
            if status == "livelock":
                raise Violation("livelock", f"more than {loop.steps} callbacks without settling at t={env.now}")
            for name, ex, tb in env.actor_errors:
                # an actor is a user program: it fails inside the library or on what the library gave it,
                # unless the library's public names are not where the harness looks for them
                missing = isinstance(ex, ImportError) or isinstance(ex, AttributeError) and isinstance(getattr(ex, "obj", None), types.ModuleType)
                if lib_frames(ex) or not (missing or isinstance(ex, HarnessError)):
                    raise Violation("unexpected-exception", f"{name}: {type(ex).__name__}: {ex}")
                raise HarnessError(f"{name}: {tb}")
            prop.check(env, sc)
        except Violation as v:
            res.violation = v
        res.digest = env.digest()
        res.steps = loop.steps
        res.iters = loop.iters
        res.simtime = getattr(env, "simtime", env.now)
        res.faults = env.faults
        res.probes = env.probes
        res.events = len(env.hist)
        res.status = status
        res.detail = env.hist if (keep or res.violation) else None
        res.nontrivial = getattr(env, "nontrivial", res.events > 4)
        if keep or res.violation:
            res.detail = list(env.hist)
            for m, ex in loop.errors[:5]:
                res.detail.append(("loop-error", m, repr(ex)))
    finally:
        try:
            if env.earlier is not None:
                # let what was abandoned there end quietly
                env.earlier._closed = False
                events._set_running_loop(env.earlier)
                _teardown(env.earlier, hang)
                events._set_running_loop(loop)
            _teardown(loop, hang)
        finally:
            seams.deactivate()
            events._set_running_loop(None)
            asyncio.set_event_loop(None)
    return res


def _teardown(loop, hang):
    """Cancel whatever is left; nothing that happens here counts."""
    loop.set_exception_handler(lambda *_: None)
    try:
        signal.setitimer(signal.ITIMER_VIRTUAL, CPU_LIMIT)
        if not hang:
            for _ in range(3):
                pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
                if not pend:
                    break
                for t in pend:
                    t.cancel()
                loop._heap.clear()
                loop._settlers.clear()
                loop.drive(20000, loop._now + 1)
    except BaseException:  # noqa: BLE001
        pass
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)
    if _running is not None:
        _running.clear()
    loop._ready.clear()
    loop._heap.clear()
    loop._thread_id = None
    try:
        loop.close()
    except BaseException:  # noqa: BLE001
        pass


def collect():
    gc.collect()
