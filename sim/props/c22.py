"""C22: VirtualTimeEventLoop runs every program as a normal loop would."""
import asyncio
import threading
from asyncio import events

from aioreactive.testing import VirtualTimeEventLoop

from ..core import SimLoop, Violation

SCALE = False
QUICK = 60000
THOROUGH = 800000
PROBES = ["callbacks", "tasks", "many_timers", "mostly_cancelled", "cancelled_timer", "cancelled_soon", "past_due", "nested", "callback_raised", "second_phase", "task_cancelled", "wait_for_timeout", "threadsafe", "gather", "event_wakeup", "debug_mode"]
REAL = ["aioreactive.testing.VirtualTimeEventLoop as the event loop"]
STUB = ["nothing inside the virtual-time loop; the reference is the simulator's own loop"]
RULE = "Callback programs are checked against a reference order; task programs against the same program on the simulator's loop."
END = 5000.0


# ------------------------------------------------------------------ generation


class C:
    def __init__(self, rng):
        self.rng = rng
        self.id = 0
        self.timers = []
        self.all = []
        self.tasks = []

    def new(self):
        self.id += 1
        return self.id

    def dt(self, past=True):
        # unique fractions keep due times apart
        r = self.rng.random()
        if past and r < 0.1:
            return self.rng.choice([0, 0, -1.0, -0.5])
        return self.rng.choice([0, 0.25, 0.5, 1, 1, 2, 3, 7, 20, 100]) + (self.id * 2 + 1) / 2**22


def gen_block(c, depth, width):
    rng = c.rng
    out = []
    for _ in range(rng.randrange(0, width + 1)):
        r = rng.random()
        i = c.new()
        if r < 0.35:
            out.append(["soon" if rng.random() < 0.8 else "ts", i, gen_block(c, depth - 1, width) if depth else []])
            c.all.append(i)
        elif r < 0.6:
            out.append(["later", i, c.dt(), gen_block(c, depth - 1, width) if depth else []])
            c.all.append(i)
            c.timers.append(i)
        elif r < 0.75:
            out.append(["at", i, max(0.0, c.dt() + rng.choice([0, 1, 2, 5])), gen_block(c, depth - 1, width) if depth else []])
            c.all.append(i)
            c.timers.append(i)
        elif r < 0.95 and c.all:
            out.append(["cancel", rng.choice(c.all)])
        else:
            out.append(["raise", i])
    return out


def gen_steps(c, depth):
    rng = c.rng
    out = []
    for _ in range(rng.randrange(1, 6)):
        r = rng.random()
        c.new()
        if r < 0.3:
            out.append(["sleep", c.dt(False)])
        elif r < 0.5:
            out.append(["yield", rng.randrange(1, 4)])
        elif r < 0.6 and depth:
            i = c.new()
            c.tasks.append(i)
            out.append(["task", i, gen_steps(c, depth - 1)])
        elif r < 0.7:
            out.append(["wf", c.dt(False), rng.choice([0, 0.25, 1, 5]) + (c.id * 2 + 1) / 2**22])
        elif r < 0.78 and c.tasks:
            out.append(["kill", rng.choice(c.tasks)])
        elif r < 0.84 and c.tasks:
            out.append(["join", rng.choice(c.tasks)])
        elif r < 0.9:
            out.append(["set", rng.randrange(3)])
        elif r < 0.95:
            out.append(["wait", rng.randrange(3), rng.choice([0.5, 3, 9]) + (c.id * 2 + 1) / 2**22])
        else:
            a, b = c.dt(False), 0
            c.new()
            b = c.dt(False)
            out.append(["gather", a, b])
    return out


def gen(rng, idx, tier):
    c = C(rng)
    if idx % 2:
        phases = []
        for _ in range(rng.choice([1, 1, 2])):
            i = c.new()
            c.tasks.append(i)
            prog = [["task", i, gen_steps(c, 2)]]
            for _ in range(rng.randrange(0, 4)):
                i = c.new()
                c.tasks.append(i)
                prog.append(["task", i, gen_steps(c, 1)])
            phases.append(prog)
        return {"mode": "tasks", "phases": phases, "debug": int(rng.random() < 0.06)}
    phases = []
    for _ in range(rng.choice([1, 1, 1, 2])):
        b = gen_block(c, rng.choice([1, 2, 3]), rng.choice([3, 4, 5]))
        if rng.random() < 0.25:
            # hundreds of timers, most of them cancelled
            n = rng.choice([90, 101, 120, 260, 400])
            ids = []
            for _ in range(n):
                i = c.new()
                ids.append(i)
                c.all.append(i)
                b.append(["later", i, rng.choice([0.5, 1, 2, 3, 10]) + (i * 2 + 1) / 2**22, []])
            rng.shuffle(ids)
            kill = ids[: int(n * rng.choice([0.3, 0.55, 0.8, 0.95, 1.0]))]
            if rng.random() < 0.5:
                b += [["cancel", i] for i in kill]
            else:
                i = c.new()
                b.append(["later", i, 0.25 + (i * 2 + 1) / 2**22, [["cancel", x] for x in kill]])
                i = c.new()
                # more timers after the clean-up
                b.append(["later", i, 0.75 + (i * 2 + 1) / 2**22, gen_block(c, 1, 4)])
        phases.append(b)
    return {"mode": "callbacks", "phases": phases, "debug": int(rng.random() < 0.06)}


def valid(sc):
    try:
        return _ok(sc["phases"], sc["mode"]) and bool(sc["phases"])
    except (TypeError, IndexError, ValueError):
        return False


def _ok(phases, mode):
    ids = set()

    def block(b):
        for op in b:
            k = op[0]
            if k in ("soon", "ts", "later", "at", "task"):
                if op[1] in ids:
                    return False
                ids.add(op[1])
                if len(op) != {"soon": 3, "ts": 3, "later": 4, "at": 4, "task": 3}[k] or not block(op[-1]):
                    return False
            elif len(op) != {"cancel": 2, "raise": 2, "sleep": 2, "yield": 2, "wf": 3, "kill": 2, "join": 2, "set": 2, "wait": 3, "gather": 3}[k]:
                return False
        return True

    return all(block(p) for p in phases)


# ------------------------------------------------------------------ programs


class Run:
    """One execution of a program on some loop."""

    def __init__(self, loop):
        self.loop = loop
        self.log = []
        self.handles = {}
        self.sched = {}
        self.ran = {}
        self.cancelled = {}
        self.errors = []
        self.seq = 0
        self.tasks = {}
        self.probes = set()
        self.events = None
        loop.set_exception_handler(lambda _, ctx: self.errors.append(str(ctx.get("exception"))))

    def tick(self):
        self.seq += 1
        return self.seq

    # callbacks
    def block(self, ops):
        loop = self.loop
        for op in ops:
            k = op[0]
            if k == "raise":
                self.raised = getattr(self, "raised", 0) + 1
                self.probes.add("callback_raised")
                raise ValueError(f"r{op[1]}")
            if k == "cancel":
                h = self.handles.get(op[1])
                if h is not None:
                    if op[1] not in self.ran and op[1] not in self.cancelled:
                        self.cancelled[op[1]] = self.tick()
                        self.probes.add("cancelled_timer" if self.sched[op[1]][0] not in ("soon", "ts") else "cancelled_soon")
                    h.cancel()
                continue
            i = op[1]
            now = loop.time()
            if k == "soon":
                when = None
                h = loop.call_soon(self.cb, i, op[2])
            elif k == "ts":
                self.probes.add("threadsafe")
                when = None
                h = loop.call_soon_threadsafe(self.cb, i, op[2])
            elif k == "later":
                when = now + op[2]
                h = loop.call_later(op[2], self.cb, i, op[3])
            else:
                when = op[2]
                h = loop.call_at(op[2], self.cb, i, op[3])
            if when is not None and when <= now:
                self.probes.add("past_due")
            self.handles[i] = h
            self.sched[i] = (k, self.tick(), now, when)

    def cb(self, i, ops):
        self.ran.setdefault(i, []).append((self.tick(), self.loop.time()))
        if ops:
            self.probes.add("nested")
        self.block(ops)

    # tasks
    async def steps(self, i, steps):
        t = self.loop.time
        me = f"T{i}"
        try:
            for s in steps:
                k = s[0]
                self.log.append((me, k, round(t(), 7)))
                if k == "sleep":
                    await asyncio.sleep(s[1])
                elif k == "yield":
                    for _ in range(s[1]):
                        await asyncio.sleep(0)
                elif k == "task":
                    self.tasks[s[1]] = self.loop.create_task(self.steps(s[1], s[2]))
                elif k == "wf":
                    try:
                        r = await asyncio.wait_for(asyncio.sleep(s[1], "ok"), s[2])
                    except TimeoutError:
                        self.probes.add("wait_for_timeout")
                        r = "timeout"
                    self.log.append((me, r, round(t(), 7)))
                elif k == "kill":
                    x = self.tasks.get(s[1])
                    if x is not None and x is not asyncio.current_task():
                        self.probes.add("task_cancelled")
                        self.log.append((me, "kill", x.cancel()))
                elif k == "join":
                    x = self.tasks.get(s[1])
                    if x is not None and x is not asyncio.current_task():
                        done, _ = await asyncio.wait([x], timeout=50)
                        self.log.append((me, "joined", len(done), round(t(), 7)))
                elif k == "set":
                    self.events[s[1]].set()
                elif k == "wait":
                    try:
                        await asyncio.wait_for(self.events[s[1]].wait(), s[2])
                        self.probes.add("event_wakeup")
                        self.log.append((me, "woke", round(t(), 7)))
                        self.events[s[1]].clear()
                    except TimeoutError:
                        self.log.append((me, "timeout", round(t(), 7)))
                elif k == "gather":
                    self.probes.add("gather")
                    r = await asyncio.gather(asyncio.sleep(s[1], 1), asyncio.sleep(s[2], 2))
                    self.log.append((me, r, round(t(), 7)))
            self.log.append((me, "end", round(t(), 7)))
        except asyncio.CancelledError:
            self.log.append((me, "cancelled", round(t(), 7)))
            raise

    async def main_tasks(self, prog, until):
        if self.events is None:
            self.events = [asyncio.Event() for _ in range(3)]
        for _, i, steps in prog:
            self.tasks[i] = self.loop.create_task(self.steps(i, steps))
        await asyncio.sleep(until - self.loop.time())
        return ("result", until)

    async def main_callbacks(self, block, until):
        try:
            self.block(block)
        except ValueError:
            self.raised -= 1
        await asyncio.sleep(until - self.loop.time())
        return ("result", until)


async def start(env, sc):
    loop = VirtualTimeEventLoop()
    if sc.get("debug"):
        loop.set_debug(True)
        env.probe("debug_mode")
    run = Run(loop)
    outer = events._get_running_loop()
    events._set_running_loop(None)
    results = []
    try:
        for n, p in enumerate(sc["phases"]):
            until = END * (n + 1)
            main = run.main_tasks if sc["mode"] == "tasks" else run.main_callbacks
            results.append((loop.run_until_complete(main(p, until)), loop.time()))
            if n:
                env.probe("second_phase")
        pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
        for t in pend:
            t.cancel()
        if pend:
            loop.run_until_complete(asyncio.gather(*pend, return_exceptions=True))
        loop.close()
    finally:
        events._set_running_loop(outer)
        asyncio.set_event_loop(outer)
    env.simtime = loop.time()
    env.fault("callback_cancelled", len(run.cancelled))
    env.fault("callback_raises", getattr(run, "raised", 0))
    env.run = run
    env.results = results
    for x in run.log:
        env.log(*x)
    for i, r in run.ran.items():
        env.log("cb", i, r)
    if sc["mode"] == "tasks":
        env.ref = reference(env, sc)


def reference(env, sc):
    """The same program on the simulator's loop.  None if two timers fell on one instant."""
    loop = SimLoop("fifo")
    run = Run(loop)
    outer = events._get_running_loop()
    events._set_running_loop(loop)
    loop._thread_id = threading.get_ident()
    due = {}
    orig = loop.call_at

    def call_at(when, *a, **k):
        # due times closer than the loop's clock resolution count as the same instant
        due[round(when * 2**23)] = due.get(round(when * 2**23), 0) + 1
        return orig(when, *a, **k)

    loop.call_at = call_at
    try:
        for n, p in enumerate(sc["phases"]):
            t = loop.create_task(run.main_tasks(p, END * (n + 1)))
            t.add_done_callback(lambda _: stop.append(1))
            stop = []
            while not stop:
                if loop.drive_until(stop) != "stop":
                    break
        pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
        for t in pend:
            t.cancel()
        loop.drive(10000, loop._now)
    finally:
        events._set_running_loop(outer)
        loop._thread_id = None
        loop._ready.clear()
        loop._heap.clear()
        loop.close()
    if any(v > 1 for v in due.values()):
        return None
    return run


def check(env, sc):
    run = env.run
    for p in run.probes:
        env.probe(p)
    env.probe(sc["mode"])
    for n, (res, t) in enumerate(env.results):
        until = END * (n + 1)
        if res != ("result", until) or t != until:
            raise Violation("wrong-result", f"run_until_complete gave {res} at virtual time {t}, expected {until}")
    if sc["mode"] == "tasks":
        env.nontrivial = len(run.log) > 2
        ref = env.ref
        if ref is None:
            env.nontrivial = False
            env.probe("tie_skipped")
            return
        if run.log != ref.log:
            k = next((i for i, (a, b) in enumerate(zip(run.log, ref.log)) if a != b), min(len(run.log), len(ref.log)))
            raise Violation("differs", f"step {k}: virtual-time loop {run.log[k : k + 3]}, reference loop {ref.log[k : k + 3]}")
        if run.errors != ref.errors:
            raise Violation("differs", f"errors {run.errors} vs {ref.errors}")
        return
    env.nontrivial = len(run.ran) > 1
    if len(run.sched) > 101:
        env.probe("many_timers")
        if len(run.cancelled) > len(run.sched) / 2:
            env.probe("mostly_cancelled")
    prev_t = 0.0
    order = sorted((r[0], i, r[1]) for i, rs in run.ran.items() for r in rs)
    for _, i, t in order:
        if t < prev_t:
            raise Violation("time-went-back", f"callback {i} ran at {t} after {prev_t}")
        prev_t = t
    if getattr(run, "raised", 0) != len(run.errors):
        raise Violation("lost-error", f"{getattr(run, 'raised', 0)} callbacks raised, handler saw {run.errors}")
    horizon = END * len(sc["phases"])
    for i, (kind, seq, now, when) in run.sched.items():
        rs = run.ran.get(i, [])
        if len(rs) > 1:
            raise Violation("ran-twice", f"callback {i} ({kind}) ran {len(rs)} times")
        if i in run.cancelled:
            if rs:
                raise Violation("cancelled-ran", f"callback {i} ({kind}) ran although it had been cancelled")
            continue
        due = now if when is None else max(now, when)
        if not rs:
            if due < horizon - 1:
                raise Violation("never-ran", f"callback {i} ({kind}) due at {due} never ran")
            continue
        if rs[0][1] != due:
            raise Violation("wrong-time", f"callback {i} ({kind}) due at {due} ran at {rs[0][1]}")
    # FIFO among call_soon; timers by due time; nothing ready is overtaken by a timer scheduled later
    soon = sorted((run.sched[i][1], i) for i in run.ran if run.sched[i][0] in ("soon", "ts"))
    got = [i for _, i, _ in order if run.sched[i][0] in ("soon", "ts")]
    if got != [i for _, i in soon]:
        raise Violation("not-fifo", f"call_soon order {[i for _, i in soon]}, ran {got}")
    tim = [(run.ran[i][0][0], i) for i in run.ran if run.sched[i][0] in ("later", "at")]
    tim.sort()
    for (sa, a), (sb, b) in zip(tim, tim[1:]):
        wa, wb = run.sched[a][3], run.sched[b][3]
        # b was already scheduled when a ran, and due earlier
        if wb < wa and run.sched[b][1] < sa:
            raise Violation("timer-order", f"timer {a} due {wa} ran before timer {b} due {wb}")
    for s, i in soon:
        ri = run.ran[i][0][0]
        for st, j in tim:
            if run.sched[j][1] > s and st < ri:
                raise Violation("overtaken", f"timer {j} ran before callback {i} that was ready when the timer was scheduled")
