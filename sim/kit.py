"""Instrumented sources, observers, values and user functions (the simulated outside world)."""
import asyncio
import random
import zlib

import aioreactive as rx
from aioreactive.notification import OnCompleted, OnNext
from expression import Nothing, Some
from expression.system import AsyncDisposable, ObjectDisposedException, OperationCanceledError

from .core import Violation

# ---------------------------------------------------------------- values


class Opaque:
    """A value with identity equality only."""

    def __init__(self, n):
        self.n = n

    def __repr__(self):
        return f"Opaque({self.n})"


class Wait(Opaque):
    """A value that happens to be awaitable; nobody should await it."""

    def __await__(self):
        raise AssertionError("a value of the stream was awaited")


class Call(Opaque):
    """A value that happens to be callable."""

    def __call__(self, *a, **k):
        raise AssertionError("a value of the stream was called")


class Stern(Opaque):
    """A value that can be handed on, and hardly anything else."""

    def _no(self, *a):
        raise AssertionError("a value of the stream was examined")

    __str__ = __bool__ = __len__ = __iter__ = __hash__ = __format__ = __getitem__ = __contains__ = __lt__ = _no


def falsy(v):
    return not isinstance(v, Stern) and not v


class Boom(Exception):
    pass


class Crash(RuntimeError):
    pass


class FalsyError(Exception):
    """An exception object that is falsy."""

    def __bool__(self):
        return False

    def __len__(self):
        return 0


class EqError(Exception):
    """Exceptions comparing equal to each other."""

    def __eq__(self, o):
        return isinstance(o, EqError)

    def __hash__(self):
        return 1


ERRS = {
    "Exception": Exception,
    "ValueError": ValueError,
    "TypeError": TypeError,
    "KeyError": KeyError,
    "IndexError": IndexError,
    "AttributeError": AttributeError,
    "RuntimeError": RuntimeError,
    "LookupError": LookupError,
    "AssertionError": AssertionError,
    "OSError": OSError,
    "TimeoutError": TimeoutError,
    "ZeroDivisionError": ZeroDivisionError,
    "NotImplementedError": NotImplementedError,
    "InvalidState": asyncio.InvalidStateError,
    "Boom": Boom,
    "Crash": Crash,
    "FalsyError": FalsyError,
    "EqError": EqError,
    "ObjectDisposed": lambda i: ObjectDisposedException(),
    "OperationCanceled": OperationCanceledError,
}
ERR_NAMES = list(ERRS)


def dec(v):
    """JSON token -> value.  ints, strings, None, bools, floats are themselves."""
    if isinstance(v, list):
        return tuple(dec(x) for x in v)
    if isinstance(v, dict):
        if "L" in v:
            return [dec(x) for x in v["L"]]
        if "E" in v:
            return ERRS.get(v["E"], Boom)(v.get("i", 0))
        if "D" in v:
            return {"k": dec(v["D"])}
        if "O" in v:
            return OPAQUE[v["O"] % len(OPAQUE)]
    return v


OPAQUE = [Opaque(i) for i in range(4)] + [Some(0), Nothing, Some(None), OnNext(1), OnCompleted(), StopIteration, float("nan"), Wait(11), Call(12), asyncio.CancelledError("value"), Ellipsis, NotImplemented, Stern(13), Stern(14)]


def tok(v):
    """Canonical text of a value: distinguishes 1, True and 1.0."""
    if isinstance(v, tuple):
        return "(" + ",".join(tok(x) for x in v) + ")"
    if isinstance(v, list):
        return "[" + ",".join(tok(x) for x in v) + "]"
    if isinstance(v, BaseException):
        return f"{type(v).__name__}{v.args}"
    if isinstance(v, rx.AsyncObservable):
        return "<observable>"
    return repr(v)


def crc(v):
    return zlib.crc32(tok(v).encode())


SPECIAL = [None, 0, False, "", 1, True, 0.0, 1.0, -1, [], {"L": []}, {"L": [1]}, [1, 2], {"E": "ValueError", "i": 7}, {"D": 1}, "x", 10**20, {"O": 1}, {"O": 2}, {"O": 4}, {"O": 5}, {"O": 6}, {"O": 7}, {"O": 8}, {"O": 9}, {"O": 10}, {"O": 11}, {"O": 12}, {"O": 13}, {"O": 14}, {"O": 15}, {"O": 16}, {"O": 17}]


def tail(rng, n, lo, hi, p=0.03):
    """n, or now and then something much larger."""
    return rng.randrange(lo, hi) if rng.random() < p else n


def gen_values(rng, n, mode=None):
    mode = mode or rng.choice(["uniq", "uniq", "uniq", "small", "special", "mix"])
    if mode == "uniq":
        base = rng.choice([0, 1, 100])
        return [base + i for i in range(n)]
    if mode == "small":
        return [rng.randrange(3) for _ in range(n)]
    if mode == "special":
        return [rng.choice(SPECIAL) for _ in range(n)]
    return [rng.choice(SPECIAL) if rng.random() < 0.4 else 50 + i for i in range(n)]


def gen_len(rng, big=True):
    r = rng.random()
    if r < 0.08:
        return 0
    if r < 0.2:
        return 1
    if r < 0.85 or not big:
        return rng.randrange(2, 8)
    if r < 0.97:
        return rng.randrange(8, 30)
    return rng.randrange(30, 160)


def gen_err(rng):
    return {"E": rng.choice(ERR_NAMES), "i": rng.randrange(1000)}


# ---------------------------------------------------------------- pauses (the schedule)

# A pause is a list of steps: int n -> n trips round the ready queue, float s -> sleep s seconds,
# ["stall", s] -> block the loop for s seconds, ["wall", s] -> wall clock jumps by s.


async def pause(env, p):
    if not p:
        return
    if isinstance(p, int):
        for _ in range(p):
            await asyncio.sleep(0)
        return
    if isinstance(p, float):
        await env.sleep(p)
        return
    for s in p:
        if isinstance(s, int):
            for _ in range(s):
                await asyncio.sleep(0)
        elif isinstance(s, float):
            await env.sleep(s)
        elif s == "settle":
            await env.settle()
        elif s[0] == "stall":
            env.fault("loop_stall")
            t = env.now
            env.loop.stall(env.T(s[1]))
            env.stalls.append((t, env.now))
        elif s[0] == "wall":
            env.fault("wall_clock_jump")
            env.loop.wall_offset += s[1]


def gen_pause(rng, style):
    """style: none | yield | sleep | mixed."""
    if style == "none":
        return 0
    r = rng.random()
    if style == "yield":
        return rng.choice([0, 0, 1, 1, 2, 3, 4, 5, 7, 10, 15])
    if style == "sleep":
        return rng.choice([0, 0.125, 0.25, 0.5, 1.0, 2.0]) or 0
    if r < 0.4:
        return 0
    if r < 0.75:
        return rng.randrange(1, 9)
    return rng.choice([0.125, 0.25, 0.5, 1.0, 3.0])


def gen_style(rng):
    return rng.choice(["none", "none", "yield", "yield", "sleep", "mixed"])


class Cycle:
    """Per-call pause list; past the end the last is 0 (fast)."""

    def __init__(self, ps):
        self.ps = ps or []
        self.i = 0

    def next(self, key=None):
        i = self.i
        self.i += 1
        return self.ps[i] if i < len(self.ps) else 0


class KeyCycle:
    """Pause chosen by the value handled, not by call count (for functions shared by several subscriptions)."""

    def __init__(self, ps):
        self.ps = ps or []

    def next(self, key=None):
        return self.ps[crc(key) % len(self.ps)] if self.ps else 0


# ---------------------------------------------------------------- observers


def was_cancelled():
    """Is the CancelledError being handled due to a cancel() of this very task?"""
    t = asyncio.current_task()
    return t is None or t.cancelling() > 0


class Obs(rx.AsyncObserver):
    """Recording observer with scripted slowness and faults."""

    def __init__(self, env, name="obs", pauses=None, raise_at=None, err=None, on_event=None):
        self.env = env
        self.name = name
        self.cyc = Cycle(pauses)
        self.events = []  # [kind, payload, t_begin, t_end, seq_begin, seq_end]
        self.busy = 0
        self.overlaps = []
        self.cut = []  # calls that were cancelled half-way
        self.raise_term = None
        self.raise_at = raise_at
        self.err = err
        self.nvals = 0
        self.on_event = on_event

    async def _ev(self, kind, payload):
        env = self.env
        e = [kind, payload, env.now, None, env.log(self.name, kind, tok(payload)), None]
        if self.busy:
            self.overlaps.append((kind, tok(payload), env.now))
        self.busy += 1
        self.events.append(e)
        try:
            if self.on_event is not None:
                await self.on_event(self, kind, len(self.events) - 1)
            p = self.cyc.next()
            if p:
                if self.env is env:
                    env.fault("slow_observer")
                await pause(env, p)
            if kind == "N":
                k = self.nvals
                self.nvals += 1
                if self.raise_at is not None and k == self.raise_at:
                    env.fault("observer_raises")
                    raise self.err
            elif self.raise_term is not None:
                env.fault("observer_terminal_raises")
                raise self.raise_term
        except asyncio.CancelledError:
            self.cut.append(e)
            raise
        finally:
            self.busy -= 1
            e[3] = env.now
            e[5] = env.log(self.name, "end", kind)

    async def asend(self, value):
        await self._ev("N", value)

    async def athrow(self, error):
        await self._ev("E", error)

    async def aclose(self):
        await self._ev("C", None)

    # --- views
    @property
    def values(self):
        return [e[1] for e in self.events if e[0] == "N"]

    @property
    def terminal(self):
        for e in self.events:
            if e[0] != "N":
                return e
        return None

    def text(self):
        return " ".join(f"{e[0]}:{tok(e[1])}@{e[2]:g}" if e[0] != "C" else f"C@{e[2]:g}" for e in self.events)


def subscribe(obs, observable, form="obj"):
    """Subscribe with an observer object or with three functions."""
    if form == "obj":
        return observable.subscribe_async(obs)
    if form == "fns":
        return observable.subscribe_async(obs.asend, obs.athrow, obs.aclose)
    if form == "anon":
        return observable.subscribe_async(rx.AsyncAnonymousObserver(obs.asend, obs.athrow, obs.aclose))
    if form == "pipe":
        return rx.subscribe_async(obs)(observable)
    if form == "notif":  # an observer of notifications, which dispatches them to the real one

        async def each(n):
            await n.accept_observer(obs)

        return observable.subscribe_async(rx.AsyncNotificationObserver(each))
    if form == "accept":

        async def each3(n):
            await n.accept(obs.asend, obs.athrow, obs.aclose)

        return observable.subscribe_async(rx.AsyncNotificationObserver(each3))
    if form == "iterable":
        return rx.to_async_iterable(observable).subscribe_async(obs)
    if form == "chained":
        return rx.as_chained(observable).subscribe_async(obs)
    if form == "chained_fns":
        return rx.as_async_observable(rx.as_chained(observable)).subscribe_async(obs.asend, obs.athrow, obs.aclose)
    raise ValueError(form)


FORMS = ["obj"] * 5 + ["fns", "anon", "pipe", "notif", "accept", "iterable", "chained", "chained_fns"]

# ---------------------------------------------------------------- sources


class Sub:
    __slots__ = ("src", "k", "observer", "active", "done", "sub_seq", "disp_seq", "sub_t", "disp_t", "returned")

    def __init__(self, src, k, observer, seq, t):
        self.src = src
        self.k = k
        self.observer = observer
        self.active = True
        self.done = False  # source sent its terminal on this subscription
        self.sub_seq = seq
        self.sub_t = t
        self.disp_seq = None
        self.disp_t = None
        self.returned = False

    @property
    def live(self):
        return self.active and not self.done


class Src(rx.AsyncObservable):
    """Instrumented observable.

    hot: events are pushed by producer actors through emit().
    script: cold, every subscription gets its own player task.
    during: events sent while subscribe_async is still running.
    """

    def __init__(self, env, name, script=None, during=None, sub_pause=0, disp_pause=0, sub_err=None, rude=False, scripts=None, sync=None, late_err=None):
        self.env = env
        self.name = name
        self.script = script
        self.scripts = scripts
        self.sync = sync  # per subscription: play its script while subscribing
        self.during = during
        self.sub_pause = sub_pause
        self.disp_pause = disp_pause
        self.sub_err = sub_err
        self.first_err = []  # raised by the first subscribe calls
        self.late_err = late_err  # raised by subscribe_async after the events have begun to flow
        self.rude = rude
        self.subs = []
        self.sent = []  # (kind, payload, t_begin, seq_begin, seq_end)  for hot emits
        self.send_errors = []

    async def subscribe_async(self, send=None, throw=None, close=None):
        observer = send if isinstance(send, rx.AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)
        env = self.env
        k = len(self.subs)
        seq = env.log(self.name, "sub", k)
        sub = Sub(self, k, observer, seq, env.now)
        if self.sub_err is not None:
            env.fault("subscribe_raises")
            raise self.sub_err
        if self.first_err:
            env.fault("subscribe_raises")
            raise self.first_err.pop(0)
        self.subs.append(sub)
        try:
            if self.sub_pause:
                await pause(env, self.sub_pause)
            sync = bool(self.sync and self.sync[min(k, len(self.sync) - 1)])
            script = self.script
            if self.scripts is not None:
                script = self.scripts[min(k, len(self.scripts) - 1)]
            if sync:
                env.fault("emit_during_subscribe")
                await self.play(sub, script)
                script = None
            if self.during:
                env.fault("emit_during_subscribe")
                await self.play(sub, self.during)
        except asyncio.CancelledError:
            # a subscribe that is cancelled half-way cleans up after itself
            sub.active = False
            env.log(self.name, "sub-cancelled", k)
            raise
        if script is not None:
            env.spawn(self.play(sub, script), f"{self.name}.player{k}")
        if self.late_err is not None:
            env.fault("subscribe_raises_late")
            sub.active = False
            raise self.late_err

        async def dispose():
            if sub.active:
                sub.active = False
                sub.disp_seq = env.log(self.name, "disp", k)
                sub.disp_t = env.now
            if self.disp_pause:
                await pause(env, self.disp_pause)

        sub.returned = True
        return AsyncDisposable.create(dispose)

    async def play(self, sub, script):
        """script: list of [pause, kind, payload]."""
        for p, kind, payload in script:
            await pause(self.env, p)
            if not self.rude and not sub.live:
                return
            await self._to(sub, kind, payload)

    async def _to(self, sub, kind, payload):
        env = self.env
        v = env.errors_of(payload) if kind == "E" else (payload if isinstance(payload, rx.AsyncObservable) else dec(payload))
        b = env.log(self.name, "emit", sub.k, kind, tok(v))
        rec = [kind, v, env.now, b, None, sub.k]
        self.sent.append(rec)
        try:
            if kind == "N":
                await sub.observer.asend(v)
            elif kind == "E":
                sub.done = True
                await sub.observer.athrow(v)
            else:
                sub.done = True
                await sub.observer.aclose()
        except asyncio.CancelledError as ex:
            if was_cancelled():
                rec.append("cancelled")
                raise
            self.send_errors.append((kind, v, ex, env.now))  # somebody else's cancellation
            env.log(self.name, "send-raised", "CancelledError")
        except Exception as ex:  # raised out of the producer's awaited send
            self.send_errors.append((kind, v, ex, env.now))
            env.log(self.name, "send-raised", tok(ex))
        finally:
            rec[4] = env.log(self.name, "emitted", sub.k)

    async def emit(self, kind, payload):
        """Push one event to every live subscription, as a well-behaved hot source."""
        for sub in list(self.subs):
            if self.rude or sub.live:
                await self._to(sub, kind, payload)

    @property
    def live(self):
        return [s for s in self.subs if s.live]


def errors_of(env, spec):
    """One exception instance per (run, spec)."""
    if isinstance(spec, BaseException):
        return spec
    key = tok(spec["E"]) + str(spec.get("i", 0))
    e = env._errs.get(key)
    if e is None:
        i = spec.get("i", 0)
        e = env._errs[key] = ERRS.get(spec["E"], Boom)(i)
        if i % 10 == 7 and spec["E"] != "ObjectDisposed":
            e.args = (i, "more")
        if i % 3 == 1:  # raised from another error
            e.__cause__ = StopIteration() if i % 2 else StopAsyncIteration() if i % 4 else Boom(f"cause of {key}")
        elif i % 3 == 2:
            e.__context__ = Boom(f"context of {key}")
            e.add_note("note")
        env._causes[key] = e.__cause__
    return e


def check_errors(env, what):
    """An error is handed on as it is: the error object a user raised still says what caused it."""
    for key, e in env._errs.items():
        if e.__cause__ is not env._causes[key]:
            raise Violation("error-altered", f"{what}: the cause of {tok(e)} was {env._causes[key]!r} and is now {e.__cause__!r}")


from .core import Env  # noqa: E402

Env.errors_of = errors_of


async def produce(env, src, script):
    """Actor driving a hot source: list of [pause, kind, payload]."""
    for p, kind, payload in script:
        await pause(env, p)
        await src.emit(kind, payload)


def term_ev(rng, allow_none=True, p_err=0.3):
    r = rng.random()
    if r < p_err:
        return ["E", gen_err(rng)]
    if allow_none and r < p_err + 0.1:
        return None
    return ["C", None]


def gen_script(rng, vals, style, term):
    s = [[gen_pause(rng, style), "N", v] for v in vals]
    if term:
        s.append([gen_pause(rng, style), term[0], term[1]])
    return s


# ---------------------------------------------------------------- checks shared by properties


def same(a, b):
    return a is b or tok(a) == tok(b)


def check_grammar(obs):
    term = None
    for e in obs.events:
        if term is not None:
            raise Violation("event-after-terminal", f"{obs.name} received {e[0]}:{tok(e[1])} after {term[0]}:{tok(term[1])}; saw {obs.text()}")
        if e[0] != "N":
            term = e


def check_serial(obs):
    if obs.overlaps:
        raise Violation("overlapping-calls", f"{obs.name}: call {obs.overlaps[0]} began while another was running; saw {obs.text()}")


def check_exact(obs, vals, term, what="", where=None):
    """Observer saw exactly vals then term ('C', ('E', exc), or None)."""
    got = obs.values
    if len(got) != len(vals) or not all(same(a, b) for a, b in zip(got, vals)):
        raise Violation("wrong-values", f"{what} {obs.name}: expected [{', '.join(map(tok, vals))}] got [{', '.join(map(tok, got))}] (saw {obs.text()})")
    check_term(obs, term, what)


def check_term(obs, term, what=""):
    t = obs.terminal
    if term is None:
        if t is not None:
            raise Violation("unexpected-terminal", f"{what} {obs.name}: no terminal event expected, saw {obs.text()}")
    elif term == "C":
        if t is None:
            raise Violation("missing-terminal", f"{what} {obs.name}: never completed; saw {obs.text()}")
        if t[0] != "C":
            raise Violation("wrong-terminal", f"{what} {obs.name}: completion expected, saw {obs.text()}")
    else:
        if t is None:
            raise Violation("missing-terminal", f"{what} {obs.name}: error {tok(term[1])} never delivered; saw {obs.text()}")
        if t[0] != "E" or t[1] is not term[1]:
            raise Violation("wrong-terminal", f"{what} {obs.name}: error {tok(term[1])} expected, saw {obs.text()}")


def is_rng(seed):
    return random.Random(seed)


# ---------------------------------------------------------------- feeds: a scripted event sequence behind some kind of source

FEED_KINDS = ["hot", "hot", "cold", "during", "iter", "aiter", "subject", "single_subject"]


def gen_feed(rng, vals, style, term, kinds=FEED_KINDS):
    """term: ["C", None] / ["E", err] / None."""
    kind = rng.choice(kinds)
    if kind == "iter" and (term is None or term[0] == "E"):
        kind = "hot"
    if kind == "aiter" and term is None:
        kind = "cold"
    return {"kind": kind, "script": gen_script(rng, vals, style, term)}


class Feed:
    """observable + the actor (if any) that drives it after subscription."""

    def __init__(self, env, spec, name="src"):
        self.env = env
        self.spec = spec
        self.kind = kind = spec["kind"]
        self.script = script = spec["script"]
        self.src = None
        self.send_errors = []
        if kind == "hot":
            self.src = self.xs = Src(env, name)
        elif kind == "cold":
            self.src = self.xs = Src(env, name, script=script)
        elif kind == "during":
            self.src = self.xs = Src(env, name, during=script)
        elif kind == "iter":
            self.xs = rx.from_iterable([dec(v) for _, k, v in script if k == "N"])
        elif kind == "aiter":
            self.xs = rx.from_async_iterable(AIter(env, name, script))
        elif kind == "subject":
            self.xs = rx.AsyncSubject()
        elif kind == "single_subject":
            self.xs = rx.AsyncSingleSubject()
        else:
            raise ValueError(kind)

    @property
    def values(self):
        return [dec(v) for _, k, v in self.script if k == "N"]

    @property
    def term(self):
        for _, k, v in self.script:
            if k == "C":
                return "C"
            if k == "E":
                return ("E", self.env.errors_of(v))
        return "C" if self.kind in ("iter", "aiter") else None

    async def drive(self):
        """Producer actor; only hot kinds need one."""
        env = self.env
        if self.kind == "hot":
            await produce(env, self.src, self.script)
        elif self.kind in ("subject", "single_subject"):
            for p, k, v in self.script:
                await pause(env, p)
                try:
                    if k == "N":
                        await self.xs.asend(dec(v))
                    elif k == "E":
                        await self.xs.athrow(env.errors_of(v))
                    else:
                        await self.xs.aclose()
                except asyncio.CancelledError:
                    raise
                except Exception as ex:  # noqa: BLE001
                    self.send_errors.append(ex)
                    env.log("send-raised", tok(ex))


class AIter:
    """Async iterable playing a script; records every pull."""

    def __init__(self, env, name, script):
        self.env = env
        self.name = name
        self.script = script
        self.pulls = 0
        self.iters = 0
        self.closed = 0
        self.yields = []  # (iteration, time) of every item handed out
        self.pull_log = []  # (iteration, seq, time)

    def __aiter__(self):
        self.iters += 1
        return self._gen(self.iters - 1)

    async def _gen(self, k):
        env = self.env
        try:
            for p, kind, v in self.script:
                self.pulls += 1
                self.pull_log.append((k, env.log(self.name, "pull", k), env.now))
                await pause(env, p)
                if kind == "E":
                    env.fault("iterable_raises")
                    raise env.errors_of(v)
                if kind == "C":
                    return
                if kind == "H":  # nothing ever comes again
                    env.fault("stalled_iterable")
                    await asyncio.Event().wait()
                self.yields.append((k, env.now))
                yield dec(v)
        finally:
            self.closed += 1
