"""C19: run returns the last value and always releases the subscription."""
import asyncio

import aioreactive as rx
from aioreactive.observers import AsyncAwaitableObserver

from .. import kit
from ..core import Violation
from ..kit import Feed, dec, pause, same, tok

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
PROBES = ["value", "error", "empty", "timeout", "default_timeout", "cancelled", "cancelled_subscribing", "observer_given", "awaitable", "during", "terminal_at_timeout", "slow_observer", "limited", "delayed", "none_value", "subscribe_failed", "direct", "direct_after_end", "direct_disposed", "direct_cancelled", "direct_several"]


def gen(rng, idx, tier):
    mode = ["run", "run", "await", "run", "run", "await", "direct"][idx % 7]
    if mode == "direct":
        return gen_direct(rng)
    style = rng.choice(["none", "yield", "sleep", "sleep", "mixed"])
    n = kit.tail(rng, rng.choice([0, 1, 1, 2, 3, 5, 8]), 9, 40)
    kind = rng.choice(["hot", "cold", "cold", "during", "subject"])
    sc = {
        "mode": mode,
        "feed": kit.gen_feed(rng, kit.gen_values(rng, n), style if kind != "during" else rng.choice(["none", "yield"]), kit.term_ev(rng), [kind]),
        "op": rng.choice(["none", "none", "map", "take", "delay", "filter"]),
        "k": rng.randrange(1, 4),
        "d": rng.choice([0, 0.125, 0.5, 3.0]),
        "obs": rng.randrange(2),
        "sp": rng.choice([0, 0, 1, 0.25]) if kind != "subject" else 0,
        "dp": rng.choice([0, 0, 1, 3]),
    }
    if sc["op"] == "delay" or kind == "during":
        sc["sp"] = 0
    if rng.random() < 0.6:
        sc["timeout"] = rng.choice([0, 0.125, 0.25, 0.5, 1, 1.0625, 2.5625, 5.0625, 10, 100, 4000])
    os = rng.choice(["none", "none", "yield", "sleep"])
    sc["opz"] = [kit.gen_pause(rng, os) for _ in range(8)] if sc["obs"] and os != "none" else []
    if kind == "during":
        sc["opz"] = []
    if rng.random() < 0.3:
        sc["cancel"] = [rng.choice([0, 0, 0.125, 0.1875, 0.25, 0.5625, 1.0, 2.0]), rng.randrange(0, 8)]
    if rng.random() < 0.05 and kind != "subject":
        sc["suberr"] = kit.gen_err(rng)
    return sc


def gen_direct(rng):
    """Events sent straight into an awaitable observer, also after its end."""
    style = kit.gen_style(rng)
    np = rng.choice([1, 1, 2])
    sc = {"mode": "direct", "prods": [], "feed": {"kind": "hot", "script": []}}
    for p in range(np):
        s = []
        for i in range(rng.choice([0, 1, 2, 3, 4, 6])):
            k = rng.choice("NNNNCE")
            s.append([kit.gen_pause(rng, style), k, [p, i] if k == "N" else kit.gen_err(rng) if k == "E" else None])
        sc["prods"].append(s)
    sc["cbs"] = [rng.randrange(2) for _ in range(3)]
    os = kit.gen_style(rng)
    sc["opz"] = [kit.gen_pause(rng, os) for _ in range(8)] if os != "none" else []
    if rng.random() < 0.2:
        sc["dispose"] = [rng.choice([0, 0.0625, 0.1875, 0.5625]), rng.randrange(4)]
    if rng.random() < 0.2:
        sc["cancel"] = [rng.choice([0, 0.0625, 0.1875, 0.5625]), rng.randrange(4)]
    return sc


async def start_direct(env, sc):
    env.probe("direct")
    cyc = kit.Cycle(sc["opz"])
    env.calls = []
    env.sends = []
    env.result = None
    env.disposed = env.cancelled = None

    async def on(kind, v=None):
        rec = [kind, v, env.log("cb", kind, tok(v)), None]
        env.calls.append(rec)
        await pause(env, cyc.next())
        rec[3] = env.log("cb-end", kind)

    async def asend(v):
        await on("N", v)

    async def athrow(e):
        await on("E", e)

    async def aclose():
        await on("C")

    kw = {n: f for n, f, c in zip(("asend", "athrow", "aclose"), (asend, athrow, aclose), sc["cbs"]) if c}
    obv = env.obv = AsyncAwaitableObserver(**kw)

    async def waiter():
        try:
            env.result = ("value", await obv)
        except asyncio.CancelledError:
            env.result = ("cancelled", None)
        except Exception as ex:  # noqa: BLE001
            env.result = ("raised", ex)
        env.log("result", env.result[0], tok(env.result[1]))

    w = env.spawn(waiter(), "waiter")

    async def producer(script):
        for p, k, v in script:
            await pause(env, p)
            v = env.errors_of(v) if k == "E" else dec(v)
            rec = [k, v, env.log("send", k, tok(v)), None]
            env.sends.append(rec)
            await (obv.asend(v) if k == "N" else obv.athrow(v) if k == "E" else obv.aclose())
            rec[3] = env.log("sent")

    async def disposer():
        await pause(env, sc["dispose"][0] or 0)
        await pause(env, sc["dispose"][1])
        env.disposed = env.log("dispose")
        obv.dispose()

    async def canceller():
        await pause(env, sc["cancel"][0] or 0)
        await pause(env, sc["cancel"][1])
        if not w.done() and not obv.done():
            env.fault("task_cancelled")
            env.cancelled = env.log("cancel")
            w.cancel()

    for s in sc["prods"]:
        env.spawn(producer(s), "prod")
    if "dispose" in sc:
        env.spawn(disposer(), "disposer")
    if "cancel" in sc:
        env.spawn(canceller(), "canceller")


def check_direct(env, sc):
    inf = float("inf")
    disp = inf if env.disposed is None else env.disposed
    canc = inf if env.cancelled is None else env.cancelled
    term = next((s for s in env.sends if s[0] != "N" and s[2] < disp), None)
    live = [s for s in env.sends if s[2] < disp and (term is None or s[2] <= term[2])]
    if len(sc["prods"]) > 1:
        env.probe("direct_several")
    if len(live) < len(env.sends):
        env.probe("direct_after_end")
    if disp < inf:
        env.probe("direct_disposed")
    if canc < inf:
        env.probe("direct_cancelled")
    env.nontrivial = bool(env.sends)
    shown = [(s[0], tok(s[1])) for s in env.sends]
    want = [s for s in live if sc["cbs"]["NEC".index(s[0])]]
    got = env.calls
    if [(c[0], tok(c[1])) for c in got] != [(s[0], tok(s[1])) for s in want] or any(c[0] == "E" and c[1] is not s[1] for c, s in zip(got, want)):
        raise Violation("wrong-callbacks", f"sent {shown}; callbacks should see {[(s[0], tok(s[1])) for s in want]}, saw {[(c[0], tok(c[1])) for c in got]}")
    for s in env.sends:
        if s[3] is None:
            raise Violation("stuck", f"send of {s[0]}:{tok(s[1])} never returned")
    for c, s in zip(got, want):
        if c[3] is None or s[3] < c[3]:
            raise Violation("returned-early", f"send of {s[0]}:{tok(s[1])} returned before its callback had finished")
    r = env.result
    vals = [s[1] for s in live if s[0] == "N"]
    if canc < inf and (term is None or canc < term[2]):
        ok, exp = r is not None and r[0] == "cancelled", "cancellation"
    elif term is None:
        ok, exp = r is None, "nothing"
    elif term[0] == "E":
        ok, exp = r is not None and r[0] == "raised" and r[1] is term[1], tok(term[1])
    elif vals:
        ok, exp = r is not None and r[0] == "value" and same(r[1], vals[-1]), tok(vals[-1])
    else:
        ok, exp = r is not None and r[0] == "cancelled", "cancellation"
    if not ok:
        raise Violation("wrong-result", f"sent {shown}; awaiting the observer should give {exp}, gave {r}")


def valid(sc):
    if sc["mode"] == "direct":
        return all(len(e) == 3 and e[1] in ("N", "C", "E") for p in sc["prods"] for e in p) and len(sc["cbs"]) == 3
    return all(len(e) == 3 and e[1] in ("N", "C", "E") for e in sc["feed"]["script"])


async def start(env, sc):
    if sc["mode"] == "direct":
        return await start_direct(env, sc)
    env.feed = f = Feed(env, sc["feed"], "s")
    env.events = []
    env.done = None
    env.emits = []
    if f.src is not None:
        f.src.sub_pause = sc["sp"]
        f.src.disp_pause = sc["dp"]
        if sc.get("suberr"):
            f.src.sub_err = env.errors_of(sc["suberr"])
    xs = f.xs
    op = sc["op"]
    if op == "map":
        xs = rx.pipe(xs, rx.map(lambda x: x))
    elif op == "filter":
        xs = rx.pipe(xs, rx.filter(lambda x: True))
    elif op == "take":
        xs = rx.pipe(xs, rx.take(sc["k"]))
    elif op == "delay":
        xs = rx.pipe(xs, rx.delay(env.T(sc["d"])))
    cyc = kit.Cycle(sc["opz"])

    async def on(kind, v=None):
        env.events.append((kind, v, env.now))
        env.log("obs", kind, tok(v))
        p = cyc.next()
        if p:
            env.fault("slow_observer")
        await pause(env, p)

    async def asend(v):
        await on("N", v)

    async def athrow(e):
        await on("E", e)

    async def aclose():
        await on("C")

    obv = AsyncAwaitableObserver(asend, athrow, aclose) if sc["obs"] else None

    async def go():
        env.t0 = env.now
        try:
            if sc["mode"] == "run":
                kw = {} if "timeout" not in sc else {"timeout": env.T(sc["timeout"])}
                r = await (rx.run(xs, obv, **kw) if obv is not None else rx.run(xs, **kw))
            else:
                o = obv if obv is not None else AsyncAwaitableObserver()
                async with await xs.subscribe_async(o):
                    r = await o
            env.done = ("value", r, env.now, env.log("done", "value", tok(r)))
        except asyncio.CancelledError as ex:
            env.done = ("cancelled", ex, env.now, env.log("done", "cancelled"))
        except BaseException as ex:  # noqa: BLE001
            env.done = ("raised", ex, env.now, env.log("done", "raised", tok(ex)))

    task = env.spawn(go(), "runner")

    async def drive():
        if f.kind == "subject":
            for p, k, v in f.script:
                await pause(env, p)
                v = env.errors_of(v) if k == "E" else dec(v)
                env.emits.append([k, v, env.now])
                await (f.xs.asend(v) if k == "N" else f.xs.athrow(v) if k == "E" else f.xs.aclose())
        else:
            await f.drive()

    env.cancel_t = None

    async def canceller():
        await pause(env, sc["cancel"][0] or 0)
        await pause(env, sc["cancel"][1])
        if not task.done():
            env.fault("task_cancelled")
            env.cancel_t = env.now
            env.log("cancel")
            task.cancel()

    if "cancel" in sc:
        env.spawn(canceller(), "canceller")
    if f.kind in ("hot", "subject"):
        await env.settle()
        await pause(env, sc["sp"])
        await env.settle()
        env.spawn(drive(), "prod")


def check(env, sc):
    if sc["mode"] == "direct":
        return check_direct(env, sc)
    f = env.feed
    done = env.done
    what = f"{sc['mode']} op={sc['op']}"
    if f.src is not None and f.src.live:
        if done is not None:
            raise Violation("not-released", f"{what}: source still subscribed after {done[:2]}")
    sent = [[r[0], r[1], r[2]] for r in f.src.sent] if f.src is not None else env.emits
    env.nontrivial = bool(sent)
    shown = [(k, tok(v), t) for k, v, t in sent]
    if sc.get("suberr"):
        env.probe("subscribe_failed")
        if done is None or done[0] == "value" or (done[0] == "raised" and done[1] is not f.src.sub_err):
            raise Violation("wrong-result", f"{what}: subscribing failed but run gave {done}")
        return
    # what the pipeline owes: (kind, value, time)
    exp = []
    k = 0
    for kind, v, t in sent:
        exp.append((kind, v, t + (sc["d"] if sc["op"] == "delay" else 0)))
        if kind == "N":
            k += 1
            if sc["op"] == "take" and k == sc["k"]:
                exp.append(("C", None, t))
                env.probe("limited")
                break
        else:
            break
    if sc["op"] == "delay":
        env.probe("delayed")
    if sc["obs"]:
        env.probe("observer_given")
    slow = any(sc["opz"])
    if slow:
        env.probe("slow_observer")
    if f.kind == "during":
        env.probe("during")
    if sc["mode"] == "await":
        env.probe("awaitable")
    sp = sc["sp"] if isinstance(sc["sp"], float) else 0.0
    to = None
    if sc["mode"] == "run":
        if "timeout" not in sc:
            env.probe("default_timeout")
        to = env.t0 + sp + sc.get("timeout", 2 / env.ts)
    term = exp[-1] if exp and exp[-1][0] != "N" else None
    # a slow observer holds back what comes later; then only bounds on the time of the end are known
    t_lo = term[2] if term else None
    t_hi = term[2] if term and not slow else float("inf")
    ct = env.cancel_t
    outcomes = []  # (kind, value, lo, hi)
    last = [e for e in exp if e[0] == "N"]
    if term:
        if term[0] == "E":
            outcomes.append(("raised", term[1], t_lo, t_hi))
        elif last:
            outcomes.append(("value", last[-1][1], t_lo, t_hi))
        else:
            outcomes.append(("empty", None, t_lo, t_hi))
    if done is None:
        if ct is not None:
            raise Violation("stuck", f"{what}: cancelled at {ct:g} but never finished")
        if to is not None:
            raise Violation("stuck", f"{what}: neither result nor timeout by t={env.now:g}; timeout due {to:g}; sent {shown}")
        if term and not slow:
            raise Violation("stuck", f"{what}: stream ended but no result; sent {shown}")
        return
    t = done[2]
    ok = False
    why = []
    if to is not None and not (term and t_hi < to - 1e-6):
        why.append(f"timeout at {to:g}")
        if done[0] == "raised" and isinstance(done[1], TimeoutError) and abs(t - to) < 1e-6 and not (ct is not None and ct < to - 1e-6):
            ok = True
            env.probe("timeout")
    for kind, v, lo, hi in outcomes:
        if to is not None and lo > to + 1e-6:
            continue
        why.append(f"{kind} {tok(v)} at {lo:g}")
        if not lo - 1e-6 <= t <= hi + 1e-6:
            continue
        if kind == "value" and done[0] == "value" and same(done[1], v):
            ok = True
            env.probe("value")
            if v is None:
                env.probe("none_value")
        elif kind == "raised" and done[0] == "raised" and done[1] is v:
            ok = True
            env.probe("error")
        elif kind == "empty" and done[0] != "value":
            ok = True
            env.probe("empty")
        if to is not None and abs(lo - to) < 1e-6:
            env.probe("terminal_at_timeout")
    if ct is not None:
        why.append(f"cancelled at {ct:g}")
        if done[0] == "cancelled" and abs(t - ct) < 1e-6:
            ok = True
            env.probe("cancelled")
            if sp and ct < env.t0 + sp:
                env.probe("cancelled_subscribing")
    if not ok:
        raise Violation("wrong-result", f"{what}: got {done[0]} {tok(done[1])} at {t:g}; possible: {why}; sent {shown}")
    # an observer passed in sees every event that the stream delivered before run gave up
    if sc["obs"] and ct is None:
        end = min(t, to if to is not None else t)
        got = env.events
        must = [e for e in exp if e[2] < end - 1e-6 or (term and e is not None and done[0] != "raised" or (term and done[0] == "raised" and done[1] is term[1]))]
        if slow:
            # at least the prefix order must be right
            must = must[: len(got)]
        for i, e in enumerate(got):
            if i >= len(exp) or e[0] != exp[i][0] or not (e[1] is exp[i][1] or (e[0] == "N" and same(e[1], exp[i][1]))):
                raise Violation("observer-missed", f"{what}: observer saw {[(a, tok(b), c) for a, b, c in got]}; stream {shown}")
        if len(got) < len(must):
            raise Violation("observer-missed", f"{what}: observer saw only {[(a, tok(b), c) for a, b, c in got]}; stream {shown}")
