"""C25: the testing toolkit emits at the requested time and records every event once."""
import asyncio
from asyncio import events

from aioreactive.notification import OnCompleted, OnError, OnNext
from aioreactive.testing import AsyncTestObserver, AsyncTestSingleSubject, AsyncTestSubject, VirtualTimeEventLoop

from .. import kit
from ..core import Violation
from ..kit import dec, same, tok

SCALE = False
QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
REAL = ["aioreactive.testing: AsyncTestSubject, AsyncTestSingleSubject, AsyncTestObserver; VirtualTimeEventLoop in half of the runs"]
PROBES = ["virtual_loop", "simulated_loop", "single", "several_observers", "late_subscriber", "disposed", "slow_callback", "scheduled", "at", "later", "past_due", "dropped_after_end", "resolved", "failed", "cancelled_empty", "unfinished"]
KINDS = {"N": "asend", "E": "athrow", "C": "aclose"}


def gen(rng, idx, tier):
    single = rng.random() < 0.35
    sc = {"loop": rng.choice(["sim", "vtl"]), "single": int(single), "calls": [], "obs": []}
    n = rng.choice([0, 1, 2, 3, 4, 6, 9])
    end = rng.randrange(n + 1) if rng.random() < 0.6 else n
    for i in range(n):
        kind = "N" if i != end else rng.choice("CCE")
        if rng.random() < 0.05:
            kind = rng.choice("CE")
        how = rng.choice(["at", "later", "sched"])
        # odd fractions, different for every call, keep all due times apart
        t = rng.choice([0, 0, 0.5, 1, 1, 2, 3, 5, 10]) + (2 * i + 1) / 2**12
        if how == "at":
            t += rng.choice([0, 0, 1, 4, 8])
        payload = [i, rng.choice(kit.SPECIAL)] if kind == "N" else kit.gen_err(rng) if kind == "E" else None
        sc["calls"].append([rng.choice([0, 0, 0, 1.0, 2.5]), how, kind, t, payload])
    if rng.random() < 0.5:
        sc["calls"].sort(key=lambda c: c[3])
    for j in range(1 if single else rng.choice([1, 1, 2, 3])):
        o = {"dur": rng.choice([0, 0, 0, 0.75, 2.0]) and rng.choice([0.75, 2.0]) + (j + 1) / 2**16, "form": rng.choice(["obj", "obj", "fns"]), "cb": rng.random() < 0.7}
        if rng.random() < 0.25:
            o["sub"] = rng.choice([0.25, 1.25, 3.25, 6.25]) + (j + 1) / 2**18
        if not single and rng.random() < 0.25:
            o["dispose"] = o.get("sub", 0) + rng.choice([0.25, 1.25, 3.25, 8.25]) + (j + 1) / 2**18
        sc["obs"].append(o)
    return sc


def valid(sc):
    return bool(sc["obs"]) and all(len(c) == 5 for c in sc["calls"])


class Spec:
    pass


async def program(env, sc, now, spawn):
    st = env.st
    st.subject = AsyncTestSingleSubject() if sc["single"] else AsyncTestSubject()
    st.obs = []
    st.calls = {}
    st.returns = []

    for j, o in enumerate(sc["obs"]):
        st.calls[j] = []

        def cbs(j=j, o=o):
            async def asend(v):
                st.calls[j].append(("N", v, now()))

            async def athrow(e):
                st.calls[j].append(("E", e, now()))

            async def aclose():
                st.calls[j].append(("C", None, now()))

            return asend, athrow, aclose

        st.obs.append(AsyncTestObserver(*cbs()) if o["cb"] else AsyncTestObserver())

        async def life(j=j, o=o):
            obs = st.obs[j]
            if o.get("sub"):
                await asyncio.sleep(o["sub"])
            if o["dur"]:
                # the observer is slow: whoever sends waits for it

                async def slow(call, *args):
                    await call(*args)
                    await asyncio.sleep(o["dur"])

                async def asend(v):
                    await slow(obs.asend, v)

                async def athrow(e):
                    await slow(obs.athrow, e)

                async def aclose():
                    await slow(obs.aclose)

                d = await st.subject.subscribe_async(asend, athrow, aclose)
            elif o["form"] == "obj":
                d = await st.subject.subscribe_async(obs)
            else:
                d = await st.subject.subscribe_async(obs.asend, obs.athrow, obs.aclose)
            if "dispose" in o:
                await asyncio.sleep(o["dispose"] - now())
                env.fault("dispose")
                await d.dispose_async()

        spawn(life())
    await asyncio.sleep(0)
    await asyncio.sleep(0)
    for p, how, kind, t, payload in sc["calls"]:
        if p:
            await asyncio.sleep(p)
        name = KINDS[kind]
        args = [] if kind == "C" else [env.errors_of(payload) if kind == "E" else dec(payload)]
        if how == "at":
            await getattr(st.subject, name + "_at")(t, *args)
        elif how == "later":
            await getattr(st.subject, name + "_later")(t, *args)
        else:
            name = "close" if kind == "C" else name
            await getattr(st.subject, name + "_later_scheduled")(t, *args)
        st.returns.append(now())


async def start(env, sc):
    env.st = Spec()
    if sc["loop"] == "sim":
        env.probe("simulated_loop")
        await program(env, sc, lambda: env.now, lambda c: env.spawn(c, "life"))
        return
    env.probe("virtual_loop")
    loop = VirtualTimeEventLoop()
    outer = events._get_running_loop()
    events._set_running_loop(None)
    asyncio.set_event_loop(loop)
    env.st.loop_errors = []
    loop.set_exception_handler(lambda _, c: env.st.loop_errors.append(c))
    tasks = []

    async def main():
        t = loop.create_task(program(env, sc, loop.time, lambda c: tasks.append(loop.create_task(c))))
        done, pend = await asyncio.wait([t], timeout=500)
        await asyncio.sleep(500)
        if done:
            t.result()
        for x in tasks:
            if x.done():
                x.result()

    try:
        loop.run_until_complete(main())
        pend = [t for t in asyncio.all_tasks(loop) if not t.done()]
        for t in pend:
            t.cancel()
        if pend:
            loop.run_until_complete(asyncio.gather(*pend, return_exceptions=True))
        loop.close()
    finally:
        events._set_running_loop(outer)
        asyncio.set_event_loop(outer)
    env.simtime = loop.time()


def expected(sc):
    """Per observer: [(time, kind, call index)], and the return time of every call."""
    obs = sc["obs"]
    wait = obs[0].get("sub", 0) if sc["single"] else 0
    # when the handling of one event started at t ends, and who gets it when
    cur = 0.0
    evs = []
    past = False

    def flow(t):
        out = []
        for j, o in enumerate(sorted(range(len(obs)), key=lambda j: obs[j].get("sub", 0))):
            o = obs[(k := o)]
            if o.get("sub", 0) > max(t0, wait) or o.get("dispose", 1e9) < t0:
                continue
            out.append((k, t))
            t += o["dur"]
        return out, t

    first_end = 1e9
    rets = []
    for i, (p, how, kind, t, _) in enumerate(sc["calls"]):
        cur += p
        due = max(t, cur) if how == "at" else cur + t
        if how == "at" and t < cur:
            past = True
        t0 = due
        evs.append((due, i, kind))
        if how == "later":
            # an earlier due terminal may have stopped the subject: resolved below
            rets.append(None)
            cur = due
            eff = max(due, wait)
            ended = any(k != "N" and d < due for d, _, k in evs[:-1])
            # later calls cannot fall due before this one except through "at"/"sched" made earlier
            cur = eff if ended else flow(eff)[1]
            rets[-1] = cur
        else:
            rets.append(cur)
    per = {j: [] for j in range(len(obs))}
    end = 1e9
    dropped = False
    for due, i, kind in sorted(evs):
        if end < due:
            dropped = True
            continue
        t0 = due
        for j, t in flow(max(due, wait))[0]:
            per[j].append((t, due, kind, i))
        if kind != "N":
            end = due
    return per, rets, past, dropped, evs


def check(env, sc):
    st = env.st
    per, rets, past, dropped, evs = expected(sc)
    dues = sorted(d for d, _, _ in evs)
    marks = sorted([o[k] for o in sc["obs"] for k in ("sub", "dispose") if o.get(k)])
    env.nontrivial = bool(st.calls) and any(per.values())
    for m, ex in env.loop.errors:
        if m and m.startswith("Exception in callback"):
            raise Violation("internal-error", f"{m}: {tok(ex)}")
    edges = sorted(dues + marks)
    if any(b - a < 1e-7 for a, b in zip(edges, edges[1:])) or any(o.get(k) == 0 for o in sc["obs"] for k in ("sub", "dispose")):
        return  # two events on one instant: their order is not promised
    for want in per.values():
        if any(k != "N" for *_, k, _ in sorted(want)[:-1]):
            return  # a value still on its way when the observer was closed takes no time to handle
    for k, name in (("at", "at"), ("later", "later"), ("sched", "scheduled")):
        if any(c[1] == k for c in sc["calls"]):
            env.probe(name)
    if past:
        env.probe("past_due")
    if dropped:
        env.probe("dropped_after_end")
    if sc["single"]:
        env.probe("single")
    if len(sc["obs"]) > 1:
        env.probe("several_observers")
    if marks:
        env.probe("late_subscriber")
    for j, o in enumerate(sc["obs"]):
        if "dispose" in o:
            env.probe("disposed")
        if o["dur"]:
            env.probe("slow_callback")
    desc = f"{'single ' if sc['single'] else ''}subject, calls {[(c[1], c[2], c[3], 'after', c[0]) for c in sc['calls']]}, observers {sc['obs']}"
    if len(st.returns) != len(rets) or any(abs(a - b) > 1e-6 for a, b in zip(st.returns, rets)):
        raise Violation("wrong-return", f"{desc}: calls should return at {rets}, returned at {st.returns}")
    twice = None
    for j, want in per.items():
        want = sorted(want, key=lambda w: (w[0], w[1]))
        if any(b[0] - a[0] < 1e-7 and b[1] - a[1] > 1e-7 for a, b in zip(want, want[1:])) and not sc["single"]:
            continue  # two events reach the observer on one instant
        obs = st.obs[j]
        got = []
        for t, n in obs.values:
            if isinstance(n, OnNext):
                got.append((t, "N", n.value))
            elif isinstance(n, OnError):
                got.append((t, "E", n.exception))
            elif isinstance(n, OnCompleted):
                got.append((t, "C", None))
            else:
                raise Violation("wrong-record", f"{desc}: recorded {n!r}")
        exp = []
        for t, _, kind, i in want:
            payload = sc["calls"][i][4]
            exp.append((t, kind, None if kind == "C" else env.errors_of(payload) if kind == "E" else dec(payload)))
        text = f"{desc}: observer {j} should record {[(t, k, tok(v)) for t, k, v in exp]}, recorded {[(t, k, tok(v)) for t, k, v in got]}"
        for x in got:
            env.log("rec", j, x[1], tok(x[2]), round(x[0], 6))
        if len(got) != len(exp):
            raise Violation("wrong-events", text)
        for a, b in zip(exp, got):
            if a[1] != b[1] or not same(a[2], b[2]) or (a[1] == "E" and a[2] is not b[2]):
                raise Violation("wrong-events", text)
            if abs(a[0] - b[0]) > 1e-6:
                raise Violation("wrong-time", text)
        # callbacks: once per event up to and including the first terminal
        if sc["obs"][j]["cb"]:
            need = []
            for x in exp:
                need.append(x)
                if x[1] != "N":
                    break
            calls = st.calls[j]
            if len(calls) >= 2 * len(need) > 0 and all(a[0] == b[0] and a[1] is b[1] and a[2] == b[2] for a, b in zip(calls[: 2 * len(need) : 2], calls[1 : 2 * len(need) : 2])):
                twice = f"{desc}: observer {j}: every callback was called twice: {[(k, tok(v), t) for k, v, t in calls]}"
                calls = calls[: 2 * len(need) : 2] + ([] if len(need) < len(exp) else calls[2 * len(need) :])
            if len(need) < len(exp):
                calls = calls[: len(need)]
            if [c[0] for c in calls] != [x[1] for x in need] or not all(same(c[1], x[2]) and abs(c[2] - x[0]) < 1e-6 for c, x in zip(calls, need)):
                raise Violation("wrong-callbacks", f"{text}; its callbacks were called with {[(k, tok(v), t) for k, v, t in st.calls[j]]}")
        # as an awaitable
        term = next((x for x in exp if x[1] != "N"), None)
        if term is None:
            env.probe("unfinished")
            if obs.done():
                raise Violation("wrong-result", f"{text}; resolved without a terminal event")
            continue
        if not obs.done():
            raise Violation("wrong-result", f"{text}; not resolved")
        before = [x[2] for x in exp[: exp.index(term)]]
        if term[1] == "E":
            env.probe("failed")
            ok = not obs.cancelled() and obs.exception() is term[2]
        elif before:
            env.probe("resolved")
            ok = not obs.cancelled() and obs.exception() is None and same(obs.result(), before[-1])
        else:
            env.probe("cancelled_empty")
            ok = obs.cancelled()
        if not ok:
            raise Violation("wrong-result", f"{text}; resolved to {obs!r}")
    if twice:
        raise Violation("callbacks-called-twice", twice)
