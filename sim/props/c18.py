"""C18: async iteration yields every item once, in order, with back-pressure."""
import asyncio

import aioreactive as rx
from aioreactive import AsyncRx
from aioreactive.observers import AsyncIteratorObserver

from .. import kit
from ..core import Violation
from ..kit import Feed, Src, pause, same, tok

QUICK = 60000
THOROUGH = 1500000
HORIZON = 1e6
PROBES = ["several_producers", "contended", "slow_consumer", "error", "complete", "unfinished", "abandoned", "pull_timeout", "producer_cancelled", "during", "library_source", "terminal_contended", "late_terminal_send", "raw_values", "pulled_after_end", "subscribe_failed", "iterated_twice"]


def gen(rng, idx, tier):
    sc = {"via": rng.choice(["iterable", "observer", "rx"])}
    kind = rng.choice(["hot", "hot", "hot", "cold", "during", "iter", "aiter", "subject"])
    style = kit.gen_style(rng)
    if kind == "hot":
        np = rng.choice([1, 2, 2, 3, 4])
        prods = []
        t = rng.randrange(np)
        for p in range(np):
            n = kit.tail(rng, rng.choice([0, 1, 2, 3, 5, 8]), 9, 40)
            raw = np == 1 and rng.random() < 0.5
            if raw:
                sc["raw"] = 1
            s = kit.gen_script(rng, [rng.choice(kit.SPECIAL) if raw else [p, i, rng.choice(kit.SPECIAL)] for i in range(n)], rng.choice([style, style, "none"]), None)
            if p == t or rng.random() < 0.1:
                term = kit.term_ev(rng)
                if term:
                    s.append([kit.gen_pause(rng, style), *term])
            prods.append(s)
        sc["prods"] = prods
        if rng.random() < 0.2:
            sc["rude"] = 1  # producers do not know that another one has ended the stream
        if rng.random() < 0.12:
            sc["cancel"] = [rng.randrange(np), rng.choice([0, 0.0625, 0.1875, 0.5625, 1.0625]), rng.randrange(0, 5)]
    else:
        term = kit.term_ev(rng)
        vals = kit.gen_values(rng, kit.gen_len(rng))
        if rng.random() < 0.5:
            sc["raw"] = 1
        else:
            vals = [[i, v] for i, v in enumerate(vals)]
        sc["feed"] = kit.gen_feed(rng, vals, style, term, [kind])
        if sc["feed"]["kind"] == "hot":
            sc["feed"]["kind"] = "cold"  # an iterable cannot stay open
        kind = sc["feed"]["kind"]
        if kind in ("cold", "during", "iter", "aiter") and sc["via"] != "observer" and rng.random() < 0.4:
            sc["twice"] = rng.choice([0, 0.25, 1.0, 100, 100])
    sc["kind"] = kind
    cs = rng.choice(["none", "none", "yield", "sleep", "mixed"])
    sc["cpz"] = [kit.gen_pause(rng, cs) for _ in range(14)] if cs != "none" else []
    sc["start"] = kit.gen_pause(rng, rng.choice(["none", "mixed"]))
    if rng.random() < 0.15:
        sc["stop_after"] = rng.randrange(0, 6)
    if rng.random() < 0.3:
        sc["again"] = rng.randrange(1, 4)
    if kind in ("hot", "cold", "during"):
        if rng.random() < 0.2:
            sc["sub_pause"] = kit.gen_pause(rng, rng.choice(["yield", "sleep"]))
        if rng.random() < 0.04:
            sc["sub_err"] = kit.gen_err(rng)
    if rng.random() < 0.2:
        sc["timeouts"] = [rng.choice([None, 0, 0.125, 0.25, 0.5]) for _ in range(10)]
    return sc


def valid(sc):
    s = sc["prods"] if "prods" in sc else [sc["feed"]["script"]]
    if "raw" in sc and "prods" in sc and len(sc["prods"]) != 1:
        return False
    if "feed" in sc and sc["feed"].get("kind") != sc["kind"]:
        return False
    return bool(s) and all(len(e) == 3 and e[1] in ("N", "C", "E") for p in s for e in p)


async def start(env, sc):
    env.taken = []
    env.outcome = None
    env.prods = []
    env.again = 0
    env.dispose_error = None
    env.endpull = None
    env.more = None
    if sc["kind"] == "hot":
        env.src = xs = Src(env, "s", rude=bool(sc.get("rude")))
    else:
        env.feed = Feed(env, sc["feed"], "s")
        env.src = env.feed.src
        xs = env.feed.xs
    if env.src is not None:
        env.src.sub_pause = sc.get("sub_pause", 0)
        if "sub_err" in sc:
            env.src.sub_err = env.errors_of(sc["sub_err"])
    env.twice = None
    if sc["via"] == "observer":
        it = aiter(AsyncIteratorObserver(xs))
    elif sc["via"] == "iterable":
        both = rx.to_async_iterable(xs)
        it = both.__aiter__()
    else:
        both = AsyncRx(xs).to_async_iterable()
        it = both.__aiter__()
    env.it = it
    cyc = kit.Cycle(sc["cpz"])
    tos = list(sc.get("timeouts", []))

    async def again():
        for _ in range(sc.get("again", 0)):
            await pause(env, cyc.next())
            env.again += 1
            try:
                env.more = ("item", await it.__anext__())
            except StopAsyncIteration:
                env.again -= 1
                env.probe("pulled_after_end")
                continue
            except Exception as ex:  # noqa: BLE001
                env.more = ("error", ex)
            return

    async def consumer():
        await pause(env, sc["start"])
        while True:
            if "stop_after" in sc and len(env.taken) >= sc["stop_after"]:
                env.probe("abandoned")
                env.quit = env.log("quit")
                try:
                    await it.dispose_async()
                except BaseException as ex:  # noqa: BLE001
                    env.dispose_error = ex
                env.outcome = ("abandoned", None)
                return
            b = env.log("pull")
            try:
                to = tos.pop(0) if tos else None
                if to is None:
                    v = await it.__anext__()
                else:
                    try:
                        v = await asyncio.wait_for(it.__anext__(), env.T(to))
                    except TimeoutError as ex:
                        if any(ex is x for x in env._errs.values()):
                            raise  # the source's own error
                        env.fault("pull_cancelled")
                        env.probe("pull_timeout")
                        env.log("timeout")
                        continue
            except StopAsyncIteration:
                env.endpull = b
                env.outcome = ("C", None, env.now)
                env.log("stop")
                await again()
                return
            except Exception as ex:  # noqa: BLE001
                env.endpull = b
                env.outcome = ("E", ex, env.now)
                env.log("raised", tok(ex))
                if "sub_err" not in sc:
                    await again()
                return
            env.taken.append((v, b, env.log("take", tok(v)), env.now))
            await pause(env, cyc.next())

    async def second():
        await env.sleep(sc["twice"])
        for _ in range(40):
            if env.src and not env.src.subs:
                await env.sleep(0.25)
        if env.src and not env.src.subs:
            return
        env.twice = [[], None]
        try:
            async for v in both:
                env.twice[0].append(v)
                await pause(env, cyc2.next())
            env.twice[1] = ("C", None)
        except Exception as ex:  # noqa: BLE001
            env.twice[1] = ("E", ex)

    env.spawn(consumer(), "consumer")
    if "twice" in sc:
        cyc2 = kit.Cycle(sc["cpz"][::-1])
        env.spawn(second(), "second")
    await env.settle()
    if sc["kind"] == "hot":
        for _ in range(200):
            if env.src.subs:
                break
            await env.sleep(0.25)
        if not env.src.subs:
            return
        for s in sc["prods"]:
            env.prods.append(env.spawn(kit.produce(env, env.src, s), "prod"))
        if "cancel" in sc:
            await env.sleep(sc["cancel"][1])
            await pause(env, sc["cancel"][2])
            t = env.prods[sc["cancel"][0]]
            if not t.done():
                env.fault("task_cancelled")
                env.probe("producer_cancelled")
                t.cancel()
    else:
        await env.sleep(20)  # consumer has subscribed
        await env.settle()
        if env.feed.kind == "subject":
            env.sends = []
            for p, k, v in sc["feed"]["script"]:
                await pause(env, p)
                v = env.errors_of(v) if k == "E" else kit.dec(v)
                rec = [k, v, env.now, env.log("emit", k, tok(v)), None, 0]
                env.sends.append(rec)
                await (xs.asend(v) if k == "N" else xs.athrow(v) if k == "E" else xs.aclose())
                rec[4] = env.log("emitted")


def check(env, sc):
    out = env.outcome
    got = env.taken
    if any(sc["cpz"]):
        env.probe("slow_consumer")
    if sc["kind"] == "hot" or (env.src is not None):
        recs = [r for r in env.src.sent if r[5] == 0 or "twice" not in sc]
    elif env.feed.kind == "subject":
        recs = getattr(env, "sends", [])
    else:
        recs = None
    env.nontrivial = bool(got)
    kit.check_errors(env, "iteration")
    if "raw" in sc:
        env.probe("raw_values")
    shown = [(r[0], tok(r[1]), r[2]) for r in recs] if recs is not None else sc["feed"]["script"]
    saw = [tok(g[0]) for g in got]
    if env.dispose_error is not None:
        raise Violation("dispose-raised", f"disposing the iterator raised {env.dispose_error!r}")
    if env.src is not None and env.src.send_errors:
        k, v, ex, t = env.src.send_errors[0]
        raise Violation("send-raised", f"sending {k}:{tok(v)} at {t:g} raised {ex!r}; sent {shown}; took {saw}")
    if out and out[0] == "abandoned":
        if env.src is not None and any(s.live for s in env.src.subs[: 1 if "twice" in sc else None]):
            raise Violation("not-released", "the iterator was disposed but its source subscription is still active")
    if env.again:
        what = "never returned" if env.more is None else f"gave {env.more[0]} {tok(env.more[1])}"
        raise Violation("not-ended", f"pulling again after the iteration ended {what} instead of stopping again; input {shown}; took {saw}")
    if env.twice and "sub_err" not in sc:
        env.probe("iterated_twice")
        got2, out2 = env.twice
        f = env.feed
        if len(got2) != len(f.values) or not all(same(a, b) for a, b in zip(f.values, got2)):
            raise Violation("wrong-items", f"iterating again took {[tok(v) for v in got2]}; input {shown}")
        if (out2 is None) != (f.term is None) or out2 and ((f.term == "C") != (out2[0] == "C") or f.term != "C" and out2[1] is not f.term[1]):
            raise Violation("wrong-end", f"iterating again ended with {out2 and out2[0]} {tok(out2[1]) if out2 else ''}; input {shown}")
    if "sub_err" in sc and not (out and out[0] == "abandoned"):
        env.probe("subscribe_failed")
        err = env.errors_of(sc["sub_err"])
        if out is None:
            raise Violation("stuck", "subscribing to the source failed but the iteration hangs")
        if out[0] != "E" or out[1] is not err:
            raise Violation("wrong-end", f"subscribing failed with {tok(err)} but the iteration ended with {out[0]} {tok(out[1])}")
        return
    if recs is None:
        env.probe("library_source")
        vals, term = env.feed.values, env.feed.term
        if out is None:
            raise Violation("stuck", f"iteration never ended; input {shown}; took {saw}")
        if out[0] == "abandoned":
            vals = vals[: len(got)]
        elif (term == "C") != (out[0] == "C") or (term != "C" and out[1] is not term[1]):
            raise Violation("wrong-end", f"iteration ended with {out[0]} {tok(out[1])}; input {shown}")
        if len(vals) != len(got) or not all(same(a, g[0]) for a, g in zip(vals, got)):
            raise Violation("wrong-items", f"input {shown}; took {saw}")
        return
    if sc["kind"] == "during":
        env.probe("during")
    cancelled = [r for r in recs if len(r) > 6]
    terms = [r for r in recs if r[0] != "N"]
    t0 = min((r[3] for r in terms), default=float("inf"))
    t1 = min((r[3] for r in terms if len(r) == 6), default=float("inf"))
    np = len(sc["prods"]) if "prods" in sc else 1
    if np > 1:
        env.probe("several_producers")
    # every item taken was sent, once
    pos = {}
    byv = {}
    for r in recs:
        if r[0] == "N":
            byv.setdefault(tok(r[1]), r)
    sentn = [r for r in recs if r[0] == "N"]
    for i, g in enumerate(got):
        r = byv.get(tok(g[0])) if "raw" not in sc else sentn[i] if i < len(sentn) else None
        if r is None or not same(r[1], g[0]):
            raise Violation("wrong-items", f"took {tok(g[0])} which was never sent; sent {shown}")
        if id(r) in pos:
            raise Violation("duplicate", f"took {tok(g[0])} twice; sent {shown}; took {saw}")
        if g[2] < r[3]:
            raise Violation("wrong-items", f"took {tok(g[0])} before it was sent")
        pos[id(r)] = i
        # back-pressure: the send may return only once the iterator has asked for the item
        if len(r) == 6 and r[4] is not None and (r[4] < g[1]):
            raise Violation("no-back-pressure", f"send of {tok(g[0])} returned before the iterator asked for it; sent {shown}; took {saw}")
    vals = [r for r in recs if r[0] == "N"]
    ended = out is not None
    for r in vals:
        i = pos.get(id(r))
        if i is None:
            if len(r) > 6 or (r[4] is None and out and out[0] == "abandoned"):
                continue
            if r[4] is None and r[3] < t0:
                raise Violation("stuck", f"send of {tok(r[1])} never returned; sent {shown}; took {saw}")
            if r[4] is None:
                raise Violation("stuck", f"send of {tok(r[1])} never returned after the iteration ended; sent {shown}; took {saw}")
            if t0 < r[4] or getattr(env, "quit", float("inf")) < r[4]:
                continue  # overlapped with or followed the terminal event
            raise Violation("lost", f"{tok(r[1])} was sent but never taken; sent {shown}; took {saw}")
        if r[4] is None and not (out and out[0] == "abandoned"):
            raise Violation("stuck", f"send of {tok(r[1])} never returned although it was taken; sent {shown}; took {saw}")
        if r[3] > t1 and any(t[3] == t1 and t[4] is not None and t[4] < r[3] for t in terms):
            raise Violation("item-after-end", f"{tok(r[1])} was sent after the terminal event and taken; {saw}")
        # served in turn
        passed = sum(1 for q in vals if id(q) in pos and pos[id(q)] < i and q[3] > r[3])
        if passed:
            raise_at = np + 1
            if passed > raise_at:
                raise Violation("starved", f"{passed} items sent later than {tok(r[1])} were taken before it; sent {shown}; took {saw}")
        if any(q is not r and q[3] < r[3] < (q[4] or 0) for q in recs):
            env.probe("contended")
    order = sorted((pos[id(r)], r) for r in vals if id(r) in pos)
    for a in range(len(order)):
        for b in range(a + 1, len(order)):
            ra, rb = order[a][1], order[b][1]
            if rb[4] is not None and rb[4] < ra[3]:
                raise Violation("reordered", f"{tok(rb[1])} was sent before {tok(ra[1])} but taken after; took {saw}")
    for r in terms:
        if any(q[0] == "N" and q[3] < r[3] < (q[4] or 0) for q in recs):
            env.probe("terminal_contended")
        if len(r) == 6 and r[4] is None and not (out and out[0] == "abandoned"):
            raise Violation("stuck", f"{'aclose' if r[0] == 'C' else 'athrow'} never returned; sent {shown}; took {saw}; outcome {out}")
        if len(terms) == 1 and len(r) == 6 and env.endpull is not None and r[4] < env.endpull:
            raise Violation("no-back-pressure", f"{'aclose' if r[0] == 'C' else 'athrow'} returned before the iterator asked for the next item; sent {shown}; took {saw}")
        if r[3] > t0:
            env.probe("late_terminal_send")
    live_terms = [r for r in terms if len(r) == 6]
    if live_terms and not ended:
        raise Violation("stuck", f"iteration did not end; sent {shown}; took {saw}")
    if not terms:
        env.probe("unfinished")
        if ended and out[0] != "abandoned":
            raise Violation("wrong-end", f"iteration ended with {out[0]} {tok(out[1])} though the source never did; sent {shown}; took {saw}")
    elif ended and out[0] in "CE":
        ok = any(r[0] == out[0] and (r[0] == "C" or r[1] is out[1]) and not any(q is not r and q[4] is not None and q[4] < r[3] and len(q) == 6 for q in terms) for r in terms)
        env.probe("error" if out[0] == "E" else "complete")
        if not ok:
            raise Violation("wrong-end", f"iteration ended with {out[0]} {tok(out[1])}; sent {shown}; took {saw}")
