"""C26: streams may be arbitrarily long: nothing recurses, gets lost or piles up with the number of events."""
import asyncio
import gc
import collections
import types
import weakref

import aioreactive as rx
from aioreactive import create as _create
from aioreactive import leave as _leave
from aioreactive import transform as _transform
from expression.system import AsyncDisposable

from .. import kit, ops
from ..core import Violation
from ..kit import pause, tok

SCALE = False
QUICK = 20000
THOROUGH = 300000
MAX_STEPS = 600000
HORIZON = 1e6
PROBES = ["over_1000_events", "burst", "paced_measured", "m_linear", "m_flat", "m_seq", "m_pair", "m_time", "m_retry", "m_iterate", "m_fanout", "m_run", "m_churn", "m_again"]
RULE = "A run is non-trivial when at least 30 events went through the pipeline. Growth is measured between two quiet instants of the same run, one half-way and one at the end, after a full garbage collection."
SLACK = 6  # a later instant may hold this many more items, tasks or timers than the earlier one
ROOM = 24  # and this many more entries in containers of any kind

WINDOW = ("take_last", "skip_last")
CHAIN = ["map", "map_async", "mapi", "mapi_async", "starmap", "starmap_async", "filter", "filter_async", "filteri", "starfilter", "choose", "choose_async", "scan", "scan_async", "take", "skip", "take_last", "skip_last", "slice", "distinct", "zip_seq", "identity"]
MODES = ["linear"] * 8 + ["flat"] * 4 + ["seq", "pair", "pair", "time", "time", "retry", "iterate", "fanout", "run", "churn"] + ["again"] * 2
FLAT = ["flat_map", "flat_map_async", "flat_mapi", "concat_map", "merge_inner", "flat_map_latest", "flat_map_latest_async", "switch_latest"]
INNER = ["single", "iter", "delay", "take1", "cold"]
CHURN = ["plain", "map", "filter", "scan", "choose", "take", "take9", "mapi", "distinct", "flat_map", "flat_map_latest", "concat_map", "combine_latest", "with_latest_from", "take_until", "merge", "catch", "retry"]  # not delay and debounce: expression itself keeps every task that was cancelled
AGAIN = ["iter", "aiter", "single", "empty", "interval", "timer", "defer", "iterate", "anext", "run", "bridge", "async", "concat", "merge_iter", "retry", "catch", "take", "task"]
GAPS = ["settle", "settle", 0.125, 0.25, 0.5]


class Item:
    """A value whose lifetime can be observed; reads like the integer it carries."""

    __slots__ = ("n", "__weakref__")

    def __init__(self, live, n):
        self.n = n
        live.add(self)

    def __repr__(self):
        return repr(self.n)

    def __eq__(self, o):
        return (o.n if isinstance(o, Item) else o) == self.n

    __hash__ = object.__hash__


class Live:
    """Weak references by identity."""

    def __init__(self):
        self.refs = []

    def add(self, x):
        self.refs.append(weakref.ref(x))

    def count(self):
        self.refs = [r for r in self.refs if r() is not None]
        return len(self.refs)


class Push(rx.AsyncObservable):
    """Hot source that keeps nothing of what it sends."""

    def __init__(self):
        self.obs = []

    async def subscribe_async(self, send=None, throw=None, close=None):
        o = send if isinstance(send, rx.AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)
        self.obs.append(o)

        async def dispose():
            if o in self.obs:
                self.obs.remove(o)

        return AsyncDisposable.create(dispose)

    async def asend(self, v):
        for o in list(self.obs):
            await o.asend(v)

    async def aclose(self):
        for o in list(self.obs):
            await o.aclose()


class Rec(rx.AsyncObserver):
    """Remembers the text of what it saw, never the values."""

    def __init__(self, env, every=0, p=0):
        self.env, self.every, self.p = env, every, p
        self.got = []
        self.term = None
        self.late = 0

    async def asend(self, v):
        if self.term is not None:
            self.late += 1
        self.got.append(tok(v))
        self.env.log(self.got[-1])
        if self.every and len(self.got) % self.every == 0:
            self.env.fault("slow_observer")
            await pause(self.env, self.p)

    async def athrow(self, e):
        self.env.log("E")
        self.term = self.term or ("E", tok(e))

    async def aclose(self):
        self.env.log("C")
        self.term = self.term or "C"


def gen(rng, idx, tier):
    mode = MODES[idx % len(MODES)]
    big = rng.random() < 0.12
    burst = rng.random() < 0.4
    n = rng.choice([rng.randrange(1050, 1350)] * 9 + [rng.randrange(2100, 4300)]) if big else rng.randrange(40, 160)
    sc = {"mode": mode, "burst": int(burst), "gaps": [rng.choice(GAPS) for _ in range(rng.choice([1, 2, 3, 5]))], "every": rng.choice([0, 0, 0, 1, 7]), "opz": rng.choice([1, 2, 3])}
    if mode == "linear":
        cop = ops.gen_op(rng, [CHAIN[(idx // len(MODES)) % len(CHAIN)]], n)
        chain = [cop] + [ops.gen_op(rng, CHAIN, n) for _ in range(rng.choice([0, 0, 1, 2]))]
        rng.shuffle(chain)
        for o in chain:
            if o["op"] in WINDOW:
                o["n"] = rng.choice([1, 2, 3, 5, 8])
            if o["op"] in ("take", "skip"):
                o["n"] = rng.choice([1, 2, n // 3, n - 1, n, n + 5])
            if o["op"] == "slice":
                o.update(rng.choice([{"start": 2, "stop": None, "step": 1}, {"start": 0, "stop": None, "step": 3}, {"start": 1, "stop": -2, "step": 1}, {"start": -3, "stop": None, "step": 1}, {"start": 5, "stop": n, "step": 2}]))
            if o["op"] == "zip_seq":
                o["seq"] = rng.choice([n, n + 3, n // 2])  # a range of that length
            if rng.random() < 0.3:
                o["ch"] = 1
            if o["op"] in ops.ASYNC:
                o["pz"] = [rng.choice([0, 1, 2]) for _ in range(5)]
        sc["ops"] = chain
        sc["src"] = rng.choice(["push", "push", "subject", "single", "aiter", "iter"])
        sc["dup"] = rng.choice([1, 1, 2, 3])
    elif mode == "flat":
        sc["op"] = rng.choice(FLAT)
        sc["inner"] = rng.choice(INNER)
        sc["k"] = rng.choice([1, 2, 3, 0])
        n = min(n, rng.randrange(200, 330))
        if "latest" in sc["op"]:
            sc["burst"] = 0
    elif mode == "seq":
        sc["op"] = rng.choice(["concat_seq", "merge_seq", "concat_seq"])
        sc["inner"] = rng.choice(INNER)
        n = min(n, 450)
    elif mode == "pair":
        sc["op"] = rng.choice(["combine_latest", "with_latest_from", "take_until", "merge"])
        sc["ratio"] = rng.choice([1, 2, 5])
        sc["burst"] = 0
    elif mode == "time":
        sc["op"] = rng.choice(["delay", "delay", "debounce", "interval", "delay2"])
        sc["d"] = rng.choice([0.125, 0.5, 1.0, 2.0])
        sc["gaps"] = [rng.choice([0.125, 0.25, 0.5, 3.0]) for _ in range(4)]
    elif mode == "retry":
        sc["op"] = rng.choice(["retry", "catch"])
        sc["burst"] = 0
        n = min(n, 700)
    elif mode == "iterate":
        sc["src"] = rng.choice(["push", "subject", "iter", "aiter"])
        sc["slow"] = rng.choice([0, 0, 1, 3])
    elif mode == "fanout":
        sc["subs"] = rng.choice([1, 2, 3, 5])
        sc["single"] = int(rng.random() < 0.4)
    elif mode == "run":
        sc["src"] = rng.choice(["iter", "aiter"])
        sc["chain"] = rng.randrange(3)
    elif mode == "churn":
        sc["op"] = rng.choice(CHURN)
        n = min(n, 400)
    elif mode == "again":
        sc["op"] = rng.choice(AGAIN)
        sc["stop"] = rng.choice([0, 1]) if sc["op"] in ("aiter", "bridge", "single", "empty", "take") else 0  # not the others: expression itself keeps every task that was cancelled
        n = min(n, 400)
    sc["n"] = n
    return sc


def valid(sc):
    if sc["n"] < 2 or not sc["gaps"] or sc["opz"] < 0 or any(g == 0 for g in sc["gaps"]):
        return False
    if sc["mode"] == "pair" and sc["ratio"] < 1 or sc["mode"] == "fanout" and sc["subs"] < 1 or sc["mode"] == "time" and sc["d"] <= 0:
        return False
    for o in sc.get("ops", []):
        if o["op"] == "slice":
            a, b = o["start"], o["stop"]
            if b == 0 or (b is not None and b > 0 and (a or 0) < 0) or (b is not None and b > 0 and b <= (a or 0)):
                return False
            if o["step"] is None or o["step"] < 1:
                return False
        if o["op"] in ("take", "skip", *WINDOW) and o["n"] < 1:
            return False
        if o.get("m", 1) < 1:
            return False
    return sc.get("dup", 1) >= 1 and not (sc.get("stop") and sc["op"] not in ("aiter", "bridge", "single", "empty", "take"))


CONTAINERS = (list, dict, set, frozenset, tuple, collections.deque)


def census(env, roots):
    """Entries of all containers reachable from here, not counting code, types and what the harness holds."""
    skip = (types.ModuleType, type, types.CodeType, types.BuiltinFunctionType, str, bytes, int, float)
    seen = {id(env), id(env.loop)}
    todo = list(roots)
    total = 0
    while todo:
        o = todo.pop()
        if id(o) in seen or isinstance(o, skip):
            continue
        seen.add(id(o))
        if isinstance(o, types.FunctionType):
            todo.append(o.__closure__)
            todo.append(o.__defaults__)
            continue
        if isinstance(o, (Rec, Live, Item)):
            continue
        if isinstance(o, CONTAINERS):
            total += len(o)
        todo.extend(gc.get_referents(o))
    return total


def sample(env, what):
    gc.collect()
    loop = env.loop
    tasks = [t for t in asyncio.all_tasks(loop) if not t.done()]
    timers = sum(1 for h in loop._heap if not h[3]._cancelled)
    me = asyncio.current_task()
    entries = census(env, [env.keep, [t for t in tasks if t is not me], [h[3]._args for h in loop._heap if not h[3]._cancelled]])
    env.samples.append({"at": what, "entries": entries, "items": env.live.count(), "tasks": len(tasks), "timers": timers})


async def gap(env, sc, i):
    if sc["burst"]:
        return
    g = sc["gaps"][i % len(sc["gaps"])]
    if g == "settle":
        await env.settle()
    else:
        await asyncio.sleep(g)


async def measure(env, sc, i):
    """Called when items 0..i-1 have been sent; samples half-way and at the end."""
    n = sc["n"]
    if not sc["burst"] and i in (n // 2, n):
        await asyncio.sleep(4.0 + n / 8)  # anything due or queued has happened
        await env.settle()
        sample(env, i)


def item(env, sc, i):
    return Item(env.live, i // sc.get("dup", 1))


async def push_all(env, sc, dst):
    n = sc["n"]
    for i in range(n):
        await gap(env, sc, i)
        await dst.asend(item(env, sc, i))
        await measure(env, sc, i + 1)
    await dst.aclose()


def agen(env, sc):
    async def g():
        for i in range(sc["n"]):
            await gap(env, sc, i)
            yield item(env, sc, i)
            await measure(env, sc, i + 1)

    class It:
        def __aiter__(self):
            return g()

    return It()


def source(env, sc):
    """(observable, driver or None)."""
    k = sc.get("src", "push")
    if k == "iter":
        return rx.from_iterable([i // sc.get("dup", 1) for i in range(sc["n"])]), None
    if k == "aiter":
        return rx.from_async_iterable(agen(env, sc)), None
    s = Push() if k == "push" else rx.AsyncSubject() if k == "subject" else rx.AsyncSingleSubject()

    async def drive():
        try:
            await push_all(env, sc, s)
        except kit.ObjectDisposedException:
            # an AsyncSingleSubject whose only subscription reached its limit
            if k != "single":
                raise

    return s, drive


class Cold(rx.AsyncObservable):
    """One value, then the terminal, from its own task."""

    def __init__(self, env, make, p, err=None):
        self.env, self.make, self.p, self.err = env, make, p, err

    async def subscribe_async(self, send=None, throw=None, close=None):
        o = send if isinstance(send, rx.AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)

        async def play():
            await pause(self.env, self.p)
            v, err = self.make()
            await o.asend(v)
            await pause(self.env, self.p)
            if err is None:
                await o.aclose()
            else:
                await o.athrow(err)

        t = self.env.loop.create_task(play())

        async def dispose():
            if t is not asyncio.current_task():
                t.cancel()

        return AsyncDisposable.create(dispose)


class Ever(rx.AsyncObservable):
    """One value while subscribing, then nothing."""

    def __init__(self, env):
        pass

    async def subscribe_async(self, send=None, throw=None, close=None):
        o = send if isinstance(send, rx.AsyncObserver) else rx.AsyncAnonymousObserver(send, throw, close)
        await o.asend(0)
        return AsyncDisposable.empty()


def inner_of(env, sc):
    k = sc["inner"]
    if k == "single":
        return rx.single
    if k == "iter":
        return lambda x: rx.from_iterable([x])
    if k == "delay":
        return lambda x: rx.pipe(rx.single(x), rx.delay(0.0625))
    if k == "take1":
        return lambda x: rx.pipe(rx.from_iterable([x, x, x]), rx.take(1))
    return lambda x: Cold(env, lambda: (x, None), 1)


async def start(env, sc):
    env.samples = []
    env.live = Live()
    env.obs = []
    env.expect = None
    env.any_order = False
    env.keep = []
    await globals()["s_" + sc["mode"]](env, sc)


def rec(env, sc):
    r = Rec(env, sc["every"], sc["opz"])
    env.obs.append(r)
    return r


async def s_linear(env, sc):
    chain = [dict(o) for o in sc["ops"]]
    for o in chain:
        if o["op"] == "zip_seq":
            o["seq"] = list(range(o["seq"]))
    xs, drive = source(env, sc)
    ys = ops.apply_chain(env, xs, chain)
    vals, term = ops.model_chain(chain, [i // sc["dup"] for i in range(sc["n"])], "C")
    env.expect = [tok(v) for v in vals]
    env.keep += [ys, await ys.subscribe_async(rec(env, sc))]
    if drive:
        await drive()


async def s_flat(env, sc):
    n = sc["n"]
    s = Push()
    f = inner_of(env, sc)

    async def fa(x):
        return f(x)

    op = sc["op"]
    m = {
        "flat_map": lambda: rx.flat_map(f),
        "flat_map_async": lambda: rx.flat_map_async(fa),
        "flat_mapi": lambda: rx.flat_mapi(lambda x, i: f(x)),
        "concat_map": lambda: _transform.concat_map(f),
        "merge_inner": lambda: rx.compose(rx.map(f), rx.merge_inner(sc["k"])),
        "flat_map_latest": lambda: _transform.flat_map_latest(f),
        "flat_map_latest_async": lambda: rx.flat_map_latest_async(fa),
        "switch_latest": lambda: lambda xs: rx.pipe(xs, rx.map(f), rx.switch_latest()),
    }
    if op == "merge_inner":
        ys = rx.pipe(s, rx.map(f), rx.merge_inner(sc["k"]))
    else:
        ys = rx.pipe(s, m[op]())
    env.expect = [tok(i) for i in range(n)]
    env.any_order = op not in ("concat_map",) and not (op == "merge_inner" and sc["k"] == 1)
    if "latest" in op and (sc["inner"] in ("delay", "cold") or sc["every"]):
        # every inner ends before the next outer value
        sc = dict(sc, gaps=[0.5])
    env.keep += [ys, await ys.subscribe_async(rec(env, sc))]
    await push_all(env, sc, s)


async def s_seq(env, sc):
    n = sc["n"]
    f = inner_of(env, sc)
    xs = [f(i) for i in range(n)]
    env.expect = [tok(i) for i in range(n)]
    env.any_order = sc["op"] == "merge_seq"
    await (rx.concat_seq(xs) if sc["op"] == "concat_seq" else rx.merge_seq(xs)).subscribe_async(rec(env, sc))


async def s_pair(env, sc):
    n, op = sc["n"], sc["op"]
    a, b = Push(), Push()
    ys = rx.pipe(a, getattr(rx, op)(b)) if op != "merge" else rx.pipe(a, rx.merge(b))
    exp = []
    la = lb = None
    env.keep += [ys, await ys.subscribe_async(rec(env, sc))]
    for i in range(n):
        await gap(env, sc, i)
        v = item(env, sc, i)
        if op == "take_until" or i % (sc["ratio"] + 1):
            await a.asend(v)
            la = i
            if op in ("take_until", "merge"):
                exp.append(tok(i))
            elif lb is not None:
                exp.append(tok((la, lb)))
        else:
            await b.asend(v)
            lb = i
            if op == "merge":
                exp.append(tok(i))
            elif op == "combine_latest" and la is not None:
                exp.append(tok((la, lb)))
        del v
        await env.settle()
        await asyncio.sleep(0.0625)
        await measure(env, sc, i + 1)
    await env.settle()
    await a.aclose()
    if op == "merge":
        await b.aclose()
    env.expect = exp


async def s_time(env, sc):
    n, op, d = sc["n"], sc["op"], sc["d"]
    env.expect = [tok(i) for i in range(n)]
    if op == "interval":
        sc2 = dict(sc, burst=0)

        async def seen(x):
            await measure(env, sc2, x + 1)
            return x

        ys = rx.pipe(rx.interval(d, d), rx.map_async(seen), rx.take(n))
        env.keep += [ys, await ys.subscribe_async(rec(env, sc))]
        return
    s = Push()
    if op == "debounce":
        ys = rx.pipe(s, rx.debounce(d))
        if sc["burst"]:
            env.expect = env.expect[-1:]
        else:
            g = [sc["gaps"][(i + 1) % len(sc["gaps"])] for i in range(n)]
            keep = [i for i in range(n) if g[i] > d or i in (n // 2 - 1, n - 1)]
            if any(g[i] == d for i in range(n)):
                keep = None  # a gap of exactly the quiet time may go either way
            env.expect = [tok(i) for i in keep] if keep is not None else None
        sc = dict(sc, every=0)
    else:
        ys = rx.pipe(s, rx.delay(d)) if op == "delay" else rx.pipe(s, rx.delay(d), rx.delay(0.25))
    env.keep += [ys, await ys.subscribe_async(rec(env, sc))]
    if sc["burst"] and op == "debounce":
        for i in range(n):
            await s.asend(item(env, sc, i))
        await asyncio.sleep(2 * d)
        await s.aclose()
    else:
        await push_all(env, sc, s)


async def s_retry(env, sc):
    n = sc["n"]
    count = [0]

    def make():
        count[0] += 1
        i = count[0]
        if i in (n // 2, n - 1):
            env.spawn(later(i), "sampler")
        env.fault("source_fails") if i < n else None
        return Item(env.live, i), (kit.Boom(i) if i < n else None)

    async def later(i):
        sample(env, i)

    src = Cold(env, make, 0.25 if "settle" not in sc["gaps"] else 2)
    ys = rx.pipe(src, rx.retry(n + 3)) if sc["op"] == "retry" else rx.pipe(src, rx.catch(lambda e: src))
    env.expect = [tok(i + 1) for i in range(n)]
    env.keep += [ys, await ys.subscribe_async(rec(env, sc))]


async def s_iterate(env, sc):
    xs, drive = source(env, sc)
    r = rec(env, sc)
    env.expect = [tok(i) for i in range(sc["n"])]

    async def loop():
        i = 0
        async for x in rx.to_async_iterable(xs):
            r.got.append(tok(x))
            env.log(r.got[-1])
            del x
            i += 1
            if sc["slow"] and i % 5 == 0:
                await pause(env, sc["slow"])
        r.term = "C"

    env.spawn(loop(), "iterating")
    await env.settle()
    if drive:
        # the iterator takes its items one by one: a producer may have to wait for it
        await drive()


async def s_fanout(env, sc):
    env.expect = [tok(i) for i in range(sc["n"])]
    if sc["single"]:
        s = rx.AsyncSingleSubject()
        senders = env.spawn(push_all(env, dict(sc, burst=1), s), "sender")
        await env.settle()
        env.keep += [s, await s.subscribe_async(rec(env, sc))]
        await senders
        return
    s = rx.AsyncSubject()
    for _ in range(sc["subs"]):
        env.keep += [s, await s.subscribe_async(rec(env, sc))]
    await push_all(env, sc, s)


async def s_run(env, sc):
    xs, _ = source(env, dict(sc, src=sc["src"]))
    for _ in range(sc["chain"]):
        xs = rx.pipe(xs, rx.map(lambda x: x))
    r = rec(env, sc)
    v = await rx.run(xs, timeout=1e7)
    r.got.append(tok(v))
    env.log(sc["src"], r.got[-1])
    r.term = "C"
    env.expect = [tok(sc["n"] - 1)]


async def s_churn(env, sc):
    """n short-lived subscriptions to one long-lived source."""
    n, op = sc["n"], sc["op"]
    s = rx.AsyncSubject()
    watch = Live()
    ys = {
        "plain": lambda: s,
        "map": lambda: rx.pipe(s, rx.map(lambda x: x)),
        "filter": lambda: rx.pipe(s, rx.filter(lambda x: True)),
        "scan": lambda: rx.pipe(s, rx.scan(lambda a, x: x, 0)),
        "choose": lambda: rx.pipe(s, rx.choose(ops.Some)),
        "take": lambda: rx.pipe(s, rx.take(1)),
        "take9": lambda: rx.pipe(s, rx.take(9)),
        "mapi": lambda: rx.pipe(s, rx.mapi(lambda x, i: x)),
        "distinct": lambda: rx.distinct_until_changed(s),
        "flat_map": lambda: rx.pipe(s, rx.flat_map(rx.single)),
        "flat_map_latest": lambda: rx.pipe(s, _transform.flat_map_latest(rx.single)),
        "concat_map": lambda: rx.pipe(s, _transform.concat_map(rx.single)),
        "combine_latest": lambda: rx.pipe(s, rx.combine_latest(Ever(env)), rx.map(lambda p: p[0])),
        "with_latest_from": lambda: rx.pipe(s, rx.with_latest_from(Ever(env)), rx.map(lambda p: p[0])),
        "take_until": lambda: rx.pipe(s, rx.take_until(rx.never())),
        "merge": lambda: rx.pipe(s, rx.merge(rx.never())),
        "catch": lambda: rx.pipe(s, rx.catch(lambda e: s)),
        "retry": lambda: rx.pipe(s, rx.retry(2)),
    }[op]()
    total = 0
    env.keep += [s, ys]
    for i in range(n):
        o = Rec(env)
        watch.add(o)
        sub = await ys.subscribe_async(o)
        await asyncio.sleep(0.015625)  # operators that subscribe in the background have done so
        await s.asend(Item(env.live, i))
        await asyncio.sleep(0.25)
        total += o.got == [tok(i)]
        env.log(total)
        await sub.dispose_async()
        del o, sub
        await gap(env, dict(sc, burst=0), i)
        if i + 1 in (n // 2, n):
            await asyncio.sleep(60.0)
            await env.settle()
            sample(env, i + 1)
            env.samples[-1]["observers"] = watch.count()
    r = rec(env, sc)
    r.got = [tok(total)]
    r.term = "C"
    env.expect = [tok(n)]


async def s_again(env, sc):
    """The same cold observable subscribed to n times, to its end or disposed of half-way."""
    n, op = sc["n"], sc["op"]

    async def g():
        yield 1
        await asyncio.sleep(0.125)
        yield 2

    class It:
        def __aiter__(self):
            return g()

    async def one():
        await asyncio.sleep(0.125)
        return 1

    two = rx.from_iterable([1, 2])
    fails = [0]

    async def flaky(obv):
        fails[0] += 1
        await obv.asend(1)
        if fails[0] % 2:
            await obv.athrow(kit.Boom(1))
        else:
            await obv.aclose()
        return AsyncDisposable.empty()

    ys = {
        "iter": lambda: two,
        "aiter": lambda: rx.from_async_iterable(It()),
        "single": lambda: rx.single(1),
        "empty": lambda: rx.empty(),
        "interval": lambda: rx.pipe(_create.interval(0.125, 0.125), rx.take(2)),
        "timer": lambda: _create.timer(0.125),
        "defer": lambda: _create.defer(lambda: rx.from_iterable([1, 2])),
        "iterate": lambda: two,
        "anext": lambda: rx.from_async_iterable(It()),
        "run": lambda: two,
        "bridge": lambda: rx.to_observable(rx.from_async_iterable(It())) if hasattr(rx, "to_observable") else _leave.to_observable(rx.from_async_iterable(It())),
        "async": lambda: _create.defer(lambda: _create.of_async(one())),
        "concat": lambda: rx.pipe(two, rx.concat(rx.from_async_iterable(It()))),
        "merge_iter": lambda: rx.pipe(two, rx.merge(rx.from_async_iterable(It()))),
        "retry": lambda: rx.pipe(rx.AsyncAnonymousObservable(flaky), rx.retry(3)),
        "catch": lambda: rx.pipe(rx.AsyncAnonymousObservable(flaky), rx.catch(lambda e: two)),
        "take": lambda: rx.pipe(rx.from_async_iterable(It()), rx.take(1)),
        "task": lambda: _create.of_async_worker(lambda obv, token: obv.aclose()),
    }[op]()
    env.keep += [two, ys]
    total = 0
    watch = Live()
    for i in range(n):
        o = Rec(env)
        watch.add(o)
        ok = False
        if op in ("iterate", "anext"):
            got = []
            it = rx.to_async_iterable(ys)
            async for x in it:
                got.append(x)
            ok = got == [1, 2]
            del it
        elif op == "run":
            ok = await rx.run(ys) == 2
        elif op == "bridge":
            seen = []
            sub = ys.subscribe(seen.append, None, lambda: seen.append("C"))
            await asyncio.sleep(0.0625 if sc["stop"] else 0.5)
            sub.dispose()
            await env.settle()
            ok = seen == ([1] if sc["stop"] else [1, 2, "C"])
            del sub
        else:
            sub = await ys.subscribe_async(o)
            await asyncio.sleep(0.0625 if sc["stop"] else 1.0)
            ok = sc["stop"] or o.term == "C"
            await sub.dispose_async()
            del sub
        del o
        total += bool(ok)
        env.log(total)
        if i + 1 in (n // 2, n):
            await asyncio.sleep(60.0)
            await env.settle()
            sample(env, i + 1)
            env.samples[-1]["observers"] = watch.count()
    r = rec(env, sc)
    r.got = [tok(total)]
    r.term = "C"
    env.expect = [tok(n)]


def check(env, sc):
    n, mode = sc["n"], sc["mode"]
    env.nontrivial = n >= 30
    env.probe("m_" + mode)
    if n > 1000:
        env.probe("over_1000_events")
    if sc["burst"]:
        env.probe("burst")
    what = f"{mode}/{sc.get('op') or ops.describe(sc.get('ops', []))} n={n}"
    for r in env.obs:
        if env.expect is not None:
            got, exp = (sorted(r.got), sorted(env.expect)) if env.any_order else (r.got, env.expect)
            if got != exp:
                k = next((i for i, (a, b) in enumerate(zip(got, exp)) if a != b), min(len(got), len(exp)))
                raise Violation("wrong-values", f"{what}: {len(exp)} values expected, {len(got)} received; first difference at {k}: expected {exp[k : k + 3]}, got {got[k : k + 3]}; terminal {r.term}")
        if r.term != "C":
            raise Violation("missing-terminal" if r.term is None else "wrong-terminal", f"{what}: completion expected after {len(r.got)} values, saw {r.term}")
        if r.late:
            raise Violation("event-after-terminal", f"{what}: {r.late} values after the terminal event")
    if len(env.samples) >= 2:
        env.probe("paced_measured")
        a, b = env.samples[0], env.samples[-1]
        for key in ("items", "tasks", "timers", "observers", "entries"):
            if b.get(key, 0) > a.get(key, 0) + (ROOM if key == "entries" else SLACK):
                raise Violation("growth", f"{what}: {key} still held grew from {a.get(key, 0)} after {a['at']} events to {b[key]} after {b['at']} (garbage collected, nothing in flight)")
