"""C28: a subscription that could not be established holds nothing."""
import asyncio

from .. import kit, ops, pipe
from ..core import Violation
from ..kit import Obs
from .c27 import FOCUS, inner

QUICK = 100000
THOROUGH = 1500000
HORIZON = 80.0
PROBES = ["raised", "cancelled", "raised_late", "again", "others_released", "nested", "time_ops", "slow_subscribe", "events_before", "library_source"]
RULE = "Only runs whose subscribe_async raised or was cancelled are judged; the rest count as trivial."


def direct(tree):
    """The sources subscribed before subscribe_async of the whole returns."""
    yield tree
    for k in ("c", "a", "b"):
        if isinstance(tree.get(k), dict) and "k" in tree[k]:
            yield from direct(tree[k])


def gen_again(rng, idx):
    """A cold pipeline whose source cannot be subscribed to the first time."""
    g = pipe.G(rng, kinds=["cold", "cold", "cold", "iter", "aiter"], safe_handler=True, boom=0.1)
    name = FOCUS[(idx // 4) % len(FOCUS)]
    if name in ops.LINEAR:
        tree = {"k": "op", "op": pipe.gen_linear(g, [name]), "c": pipe.gen_node(g, rng.randrange(0, 3))}
    else:
        tree = pipe.gen_many(g, rng.randrange(1, 3), name)
    first = [n for n in direct(tree) if n["k"] == "feed" and n["kind"] == "cold"]
    for n in first[-2:]:
        if n is first[-1] or rng.random() < 0.3:
            n["first_err"] = [kit.gen_err(rng) for _ in range(rng.choice([1, 1, 2]))]
    ostyle = kit.gen_style(rng)
    return {"mode": "again", "tree": tree, "tie": rng.choice(["fifo", "lifo"]), "horizon": 40.0, "wait": kit.gen_pause(rng, "mixed"), "opz": [kit.gen_pause(rng, ostyle) for _ in range(6)] if ostyle != "none" else []}


def valid(sc):
    return sc["mode"] != "again" or sc["tie"] in ("fifo", "lifo")


def gen(rng, idx, tier):
    mode = ["raise", "again", "late", "cancel"][idx % 4]
    if mode == "again":
        return gen_again(rng, idx)
    g = pipe.G(rng)
    g.src_err = 0.1
    g.never = rng.choice([0.1, 0.5])
    g.kinds = ["hot", "hot", "hot", "cold", "cold", "during", "iter", "aiter", "subject"]
    g.style = rng.choice(["none", "yield", "sleep", "sleep", "mixed"])
    name = FOCUS[(idx // 4) % len(FOCUS)]
    depth = rng.randrange(0, 3)
    if name in ops.LINEAR:
        tree = {"k": "op", "op": pipe.gen_linear(g, [name]), "c": pipe.gen_node(g, depth)}
    else:
        tree = pipe.gen_many(g, depth + 1, name)
    if rng.random() < 0.3:
        tree = {"k": "op", "op": pipe.gen_linear(g, ops.LINEAR), "c": tree}
    srcs = [n for n in pipe.walk(tree) if n["k"] == "feed" and n["kind"] in ("hot", "cold", "during")]
    ostyle = kit.gen_style(rng)
    sc = {"mode": mode, "tree": tree, "form": rng.choice(kit.FORMS), "opz": [kit.gen_pause(rng, ostyle) for _ in range(6)] if ostyle != "none" else []}
    for n in srcs:
        n.pop("dp", None)
        if rng.random() < 0.5:
            n["sp"] = kit.gen_pause(rng, rng.choice(["yield", "sleep", "mixed"]))
    first = [n for n in direct(tree) if n["k"] == "feed" and n["kind"] in ("hot", "cold", "during")]
    if mode == "cancel":
        sc["cancel"] = [rng.choice([0, 0, 0.125, 0.25, 0.5, 1.0]), rng.randrange(0, 12)]
        if first and rng.random() < 0.8:
            rng.choice(first)["sp"] = rng.choice([rng.randrange(3, 16), 0.25, 1.0, 2.0, [3, 0.5], [0.125, 6]])
    elif srcs:
        if first and rng.random() < 0.8:
            srcs = first
        for n in rng.sample(srcs, rng.choice([1, 1, 2]) if len(srcs) > 1 else 1):
            n["sub_err" if mode == "raise" else "late_err"] = kit.gen_err(rng)
    return sc


def without_failures(node):
    if isinstance(node, dict):
        return {k: without_failures(v) for k, v in node.items() if k != "first_err"}
    return [without_failures(x) for x in node] if isinstance(node, list) else node


async def start_again(env, sc):
    env.pure = True
    env.failed = None
    b = env.b = pipe.Builder(env)
    xs = b.build(sc["tree"])
    for _ in range(6):
        try:
            await xs.subscribe_async(Obs(env, "early"))
            break
        except Exception as ex:  # noqa: BLE001
            env.failed = ("raised", ex, env.log("raised", kit.tok(ex)), env.now)
            await kit.pause(env, sc["wait"])
    if not env.failed:
        return
    ref = pipe.Builder(env).build(without_failures(sc["tree"]))
    env.again = [Obs(env, "again", pauses=sc["opz"]), Obs(env, "fresh", pauses=sc["opz"])]
    for o, ys in zip(env.again, (xs, ref)):

        async def go(o=o, ys=ys):
            try:
                await ys.subscribe_async(o)
                o.failed = None
            except Exception as ex:  # noqa: BLE001
                o.failed = kit.tok(ex)

        env.spawn(go(), o.name)


def check_again(env, sc):
    env.probe("again")
    a, b = env.again
    ea, eb = ([(e[0], kit.tok(e[1]), round(e[2], 6)) for e in o.events] for o in (a, b))
    if ea != eb or a.failed != b.failed:
        raise Violation("not-as-new", f"{pipe.describe(sc['tree'])}: subscribing failed, and subscribing again gives [{a.text()}] {a.failed or ''}, a new observable gives [{b.text()}] {b.failed or ''}")


async def start(env, sc):
    if sc["mode"] == "again":
        return await start_again(env, sc)
    b = env.b = pipe.Builder(env)
    xs = b.build(sc["tree"])
    env.failed = None
    obs = env.obs = Obs(env, pauses=sc["opz"])
    env.snap = None

    async def go():
        try:
            env.sub = await kit.subscribe(obs, xs, sc["form"])
        except asyncio.CancelledError:
            env.failed = ("cancelled", None, env.log("cancelled"), env.now)
        except Exception as ex:  # noqa: BLE001
            env.failed = ("raised", ex, env.log("raised", kit.tok(ex)), env.now)
        if env.failed:
            await env.settle()
            # while an inner source is still busy subscribing, releasing waits for it
            busy = any(not x.returned for s in b.srcs for x in s.live)
            env.snap = [] if busy else [(s.name, x.k) for s in b.srcs for x in s.live]
            env.log("settled")

    t = env.spawn(go(), "subscriber")
    await env.settle()
    b.start_drivers()
    if sc["mode"] == "cancel":
        await kit.pause(env, sc["cancel"])
        if not t.done():
            env.fault("task_cancelled")
            t.cancel()


def slow(sc):
    """An event may be on its way through a user function, or waiting for the observer."""
    return any(isinstance(p, float) for n in [sc, *[x.get("op", x) for x in pipe.walk(sc["tree"])]] for p in [*n.get("opz", []), *n.get("pz", [])] for p in (p if isinstance(p, list) else [p]))


def check(env, sc):
    f = env.failed
    env.nontrivial = bool(f)
    if not f:
        return
    if sc["mode"] == "again":
        return check_again(env, sc)
    what = f"{pipe.describe(sc['tree'])}: subscribe_async {f[0]} {kit.tok(f[1]) if f[1] else ''} at t={f[3]:g}"
    env.probe(f[0] + ("_late" if sc["mode"] == "late" else ""))
    tree = sc["tree"]
    if len(list(pipe.walk(tree))) > 3:
        env.probe("nested")
    if any(n["k"] == "time" for n in pipe.walk(tree)):
        env.probe("time_ops")
    if any(n["k"] == "lib" for n in pipe.walk(tree)):
        env.probe("library_source")
    if any(x.disp_seq is not None for s in env.b.srcs for x in s.subs):
        env.probe("others_released")
    if any(r[3] < f[2] for s in env.b.srcs for r in s.sent):
        env.probe("events_before")
    if any(x.sub_t < f[3] for s in env.b.srcs for x in s.subs):
        env.probe("slow_subscribe")
    if f[1] is not None and not any(f[1] is e for e in env._errs.values()):
        raise Violation("other-error", f"{what}, which no source raised")
    if env.snap is None:
        raise Violation("stuck", what)
    if env.snap:
        raise Violation("left-subscribed", f"{what}, yet these subscriptions stay open: {env.snap}")
    live = [(s.name, x.k) for s in env.b.srcs for x in s.live]
    if live:
        raise Violation("left-subscribed", f"{what}, yet these subscriptions were opened afterwards: {live}")
    late = [e for e in env.obs.events if e[2] > f[3] + 1e-6]
    if late and not slow(sc):
        raise Violation("signalled", f"{what}, yet the observer saw {env.obs.text()}")
    if env.status == "horizon":
        raise Violation("still-running", f"{what}, yet timers keep firing")
    mine = set(env.tasks)
    left = [t for t in asyncio.all_tasks(env.loop) if not t.done() and t not in mine]
    if left:
        raise Violation("task-left-behind", f"{what}, yet {len(left)} background task(s) stay pending: {', '.join(sorted({inner(t) for t in left}))}")
