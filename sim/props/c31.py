"""C31: an observable outlives the event loop it was used on."""
import asyncio

import aioreactive as rx

from .. import kit, ops, pipe
from ..core import Violation
from ..kit import Obs, Src, pause, tok
from . import c20

QUICK = 60000
THOROUGH = 1000000
HORIZON = 100.0
PROBES = ["cut_at_step", "cut_at_time", "ran_out", "cancelled_all", "stopped_turning", "iterating", "running", "subscribed", "left_tasks", "pipeline", "operator_function", "subject", "built_outside", "built_inside", "feed", "flat", "merge", "concat", "switch", "comb", "time", "retry", "catch", "op", "iterated_after"]
RULE = "The oracle for each observer on the second loop is a new copy of the same pipeline subscribed at the same simulated moment."


def gen(rng, idx, tier):
    if idx % 8 == 7:
        style = kit.gen_style(rng)
        n = rng.choice([1, 2, 4, 7])
        return {
            "mode": "subject",
            "tie": rng.choice(["fifo", "lifo"]),
            "ops": ops.gen_chain(rng, ops.LINEAR, n, 3, style),
            "vals": [kit.gen_values(rng, n), kit.gen_values(rng, n)],
            "busy": rng.choice([0, 1, 1]),
            "opz": [kit.gen_pause(rng, style) for _ in range(6)],
            "term": kit.term_ev(rng),
            "cut": [rng.choice([20000, rng.randrange(1, 120)]), 20.0, rng.choice(["run", "gone"])],
        }
    while True:
        sc = c20.gen(rng, idx, tier)
        if sc["mode"] == "subs" or "fns2" not in sc:
            break
    for s in sc["subs"]:
        s["form"] = rng.choice(["sub", "sub", "sub", "iterate", "run"])
    r = rng.random()
    steps, t = 20000, 25.0
    if r < 0.55:
        steps = rng.choice([rng.randrange(1, 30), rng.randrange(1, 150), rng.randrange(1, 600)])
    elif r < 0.9:
        t = rng.choice([0, 0.0625, 0.3125, 0.5625, 1.0, 1.0625, 2.0625, 3.5])
    sc["cut"] = [steps, t, rng.choice(["run", "gone"])]
    sc["first"] = rng.randrange(1, len(sc["subs"]))
    sc["inside"] = rng.choice([0, 1])
    sc.pop("horizon", None)
    return sc


def valid(sc):
    c = sc["cut"]
    if len(c) != 3 or c[2] not in ("run", "gone") or c[0] < 1:
        return False
    if sc["mode"] == "subject":
        return len(sc["vals"]) == 2
    return 1 <= sc["first"] < len(sc["subs"]) and c20.valid(sc)


def make(env, sc, name):
    """The shared observables, one per subscriber; a maker of new ones for comparison."""
    subs = sc["subs"]
    if sc["mode"] == "subs":
        shared = pipe.Builder(env).build(sc["tree"])
        return [shared for _ in subs], lambda i: pipe.Builder(env).build(sc["tree"])
    f = c20.Fns(env, sc["spec"], "")
    fns = [c20.FN[n](f) for n in sc["fns"]]
    ys = [rx.pipe(Src(env, f"s{i}", script=s), *fns) for i, s in enumerate(sc["srcs"])]

    def ref(i):
        f = c20.Fns(env, sc["spec"], f"r{i}")
        return rx.pipe(Src(env, f"r{i}", script=sc["srcs"][i % 2]), *[c20.FN[n](f) for n in sc["fns"]])

    return [ys[i % 2] for i in range(len(subs))], ref


async def use(env, obs, xs, s):
    await pause(env, s["at"])
    if s["form"] == "sub":
        try:
            sub = await xs.subscribe_async(obs)
        except Exception as ex:  # noqa: BLE001
            obs.failed = tok(ex)
            return
        if s.get("dispose") is not None:
            await env.sleep(s["dispose"])
            env.fault("dispose")
            await sub.dispose_async()
        return
    try:
        if s["form"] == "iterate":
            async for x in rx.to_async_iterable(xs):
                await obs.asend(x)
            await obs.aclose()
        else:
            await obs.asend(await rx.run(xs, timeout=30))
            await obs.aclose()
    except Exception as ex:  # noqa: BLE001
        obs.failed = tok(ex)


def observer(env, sc, i, name):
    s = sc["subs"][i]
    o = Obs(env, name, pauses=s["opz"], raise_at=s.get("raise_at"), err=env.errors_of(s["err"]) if "err" in s else None)
    o.failed = None
    return o


def before(env, sc):
    env.pure = True
    steps, t, how = sc["cut"]
    env.first = []
    if sc["mode"] == "subject":
        coro = first_subject(env, sc)
    else:
        if not sc["inside"]:
            env.shared = make(env, sc, "")
        coro = first(env, sc)
    status, left = env.earlier_loop(coro, sc["tie"], steps, t * env.ts, how)
    # what happened there does not count, except that the observables were used
    env.actor_errors.clear()
    env.fault("loop_cancelled" if how == "run" else "loop_stopped")
    env.probe("cancelled_all" if how == "run" else "stopped_turning")
    env.probe({"livelock": "cut_at_step", "horizon": "cut_at_time"}.get(status, "ran_out"))
    if left:
        env.probe("left_tasks")
    env.hist.clear()
    env.stalls.clear()


async def first(env, sc):
    if sc["inside"]:
        env.shared = make(env, sc, "")
    for i in range(sc["first"]):
        o = observer(env, sc, i, f"first{i}")
        env.first.append(o)
        env.spawn(use(env, o, env.shared[0][i], sc["subs"][i]), o.name)


async def start(env, sc):
    env.pairs = []
    if sc["mode"] == "subject":
        return await second_subject(env, sc)
    if not hasattr(env, "shared"):
        env.shared = make(env, sc, "")  # the first loop stopped before it got there
    shared, ref = env.shared
    for i in range(sc["first"], len(sc["subs"])):
        a, b = observer(env, sc, i, f"again{i}"), observer(env, sc, i, f"new{i}")
        env.pairs.append((a, b))
        env.spawn(use(env, a, shared[i], sc["subs"][i]), a.name)
        env.spawn(use(env, b, ref(i), sc["subs"][i]), b.name)


async def first_subject(env, sc):
    env.subject = rx.AsyncSubject()
    env.pipeline = env.subject
    for o in sc["ops"]:
        env.pipeline = ops.build(env, o)(env.pipeline)
    o = Obs(env, "first", pauses=sc["opz"])
    o.failed = None
    sub = await env.pipeline.subscribe_async(o)
    for v in sc["vals"][0]:
        await env.subject.asend(kit.dec(v))
        if sc["busy"]:
            await asyncio.sleep(0)
    await sub.dispose_async()
    await env.settle()
    env.clean = True


async def second_subject(env, sc):
    if not getattr(env, "clean", False):
        return
    o = Obs(env, "again", pauses=sc["opz"])
    env.pairs.append((o, None))
    await env.pipeline.subscribe_async(o)
    for v in sc["vals"][1]:
        await env.subject.asend(kit.dec(v))
        await env.settle()
    await env.sleep(40.0)
    if sc["term"]:
        k, e = sc["term"]
        env.term = "C" if k == "C" else ("E", env.errors_of(e))
        await (env.subject.aclose() if k == "C" else env.subject.athrow(env.term[1]))
    else:
        env.term = None


def check(env, sc):
    env.probe({"subs": "pipeline", "opfn": "operator_function", "subject": "subject"}[sc["mode"]])
    if sc["mode"] == "subject":
        env.nontrivial = bool(env.pairs)
        for o, _ in env.pairs:
            vals, term = ops.model_chain(sc["ops"], [kit.dec(v) for v in sc["vals"][1]], env.term)
            kit.check_exact(o, vals, term, what=ops.describe(sc["ops"]) + " on a subject used on an earlier loop")
        return
    env.probe("built_inside" if sc["inside"] else "built_outside")
    if sc["mode"] == "subs":
        for n in pipe.walk(sc["tree"]):
            if n["k"] != "lib":
                env.probe(n["k"])
    for s in sc["subs"][: sc["first"]]:
        env.probe({"sub": "subscribed", "iterate": "iterating", "run": "running"}[s["form"]])
    desc = pipe.describe(sc["tree"]) if sc["mode"] == "subs" else "|".join(sc["fns"])
    env.nontrivial = bool(env.first) and any(b.events for _, b in env.pairs)
    for (a, b), s in zip(env.pairs, sc["subs"][sc["first"] :]):
        if s["form"] != "sub":
            env.probe("iterated_after")
        ea = [(e[0], tok(e[1]), round(e[2], 6)) for e in a.events]
        eb = [(e[0], tok(e[1]), round(e[2], 6)) for e in b.events]
        if ea != eb or a.failed != b.failed:
            raise Violation("influenced", f"{desc}: after {sc['first']} use(s) on an earlier event loop ({sc['cut']}) {a.name} saw [{a.text()}] {a.failed or ''}, with a new observable {b.name} saw [{b.text()}] {b.failed or ''}")
