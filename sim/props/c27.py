"""C27: a subscription that is over leaves no task and no timer behind."""
import asyncio

from .. import kit, ops, pipe
from ..core import Violation
from ..kit import Obs
from . import c05

QUICK = 100000
THOROUGH = 1500000
HORIZON = 80.0
PROBES = ["ended_terminal", "ended_disposed", "disposed_in_handler", "observer_raised", "boom", "early", "nested", "time_ops", "timers_running", "slow_observer", "stalled_source"]
RULE = "At the end of a run nothing is ready and no timer is pending, so a task of the library that is still pending would stay so for ever."

FOCUS = ops.LINEAR + ["merge", "concat", "flat", "switch", "comb", "time", "catch", "retry"]


def gen(rng, idx, tier):
    g = pipe.G(rng)
    g.boom = rng.choice([0, 0, 0.2, 0.4])
    g.src_err = rng.choice([0.0, 0.1, 0.25])
    g.never = rng.choice([0.1, 0.4])
    g.kinds = ["hot", "hot", "hot", "cold", "cold", "during", "iter", "aiter", "subject"]
    g.style = rng.choice(["none", "yield", "sleep", "sleep", "mixed"])
    name = FOCUS[idx % len(FOCUS)]
    depth = rng.randrange(0, 3)
    if name in ops.LINEAR:
        tree = {"k": "op", "op": pipe.gen_linear(g, [name]), "c": pipe.gen_node(g, depth)}
    else:
        tree = pipe.gen_many(g, depth + 1, name)
    r = rng.random()
    if r < 0.2:
        tree = {"k": "op", "op": pipe.gen_linear(g, c05.EARLY + ["map", "scan"]), "c": tree}
    elif r < 0.3:
        tree = {"k": "flat", "f": rng.choice(pipe.FLATS), "c": pipe.gen_feed(g), "cs": [tree], "pz": []}
    ostyle = kit.gen_style(rng)
    sc = {"tree": tree, "form": rng.choice(kit.FORMS), "opz": [kit.gen_pause(rng, ostyle) for _ in range(6)] if ostyle != "none" else []}
    if rng.random() < 0.15:
        sc["raise_at"] = rng.randrange(3)
        sc["err"] = kit.gen_err(rng)
    r = rng.random()
    if r < 0.45:
        sc["dispose"] = [rng.choice([0, 0, 0.125, 0.25, 0.5, 1.0, 3.0]), rng.randrange(0, 14)]
    elif r < 0.6:
        sc["in_handler"] = rng.randrange(0, 4)
        sc["dispose"] = [8.0]
    elif r < 0.85:
        sc["dispose"] = [20.0]  # long after the sources have ended
    for n in pipe.walk(tree):
        if n["k"] == "feed" and n["kind"] == "aiter" and rng.random() < 0.4:
            n["script"].insert(rng.randrange(len(n["script"]) + 1), [rng.randrange(0, 3), "H", None])
        if n["k"] == "lib" and n["name"] == "from_async" and rng.random() < 0.4:
            n["hang"] = 1
        if n["k"] == "feed" and n["kind"] == "during":
            # subscribing must not itself wait: neither for the source, nor for user functions or the observer
            if any(isinstance(p, float) for p in sc["opz"]) or g.fstyle in ("sleep", "mixed"):
                n["kind"] = "cold"
            for s in n["script"]:
                if isinstance(s[0], float):
                    s[0] = rng.randrange(0, 4)
    return sc


async def start(env, sc):
    b = env.b = pipe.Builder(env)
    xs = b.build(sc["tree"])
    env.over = None
    state = {"sub": None, "done": False}
    err = env.errors_of(sc["err"]) if "err" in sc else None

    async def dispose():
        if state["done"] or state["sub"] is None:
            return
        state["done"] = True
        env.fault("dispose")
        await state["sub"].dispose_async()
        env.log("dispose-returned")
        env.over = env.over or "disposed"

    async def on_event(obs, kind, i):
        if kind != "N":
            env.over = env.over or "terminal"
        if sc.get("in_handler") == i and not state["done"] and state["sub"] is not None:
            env.probe("disposed_in_handler")
            await dispose()

    obs = env.obs = Obs(env, pauses=sc["opz"], on_event=on_event, raise_at=sc.get("raise_at"), err=err)
    try:
        state["sub"] = await kit.subscribe(obs, xs, sc["form"])
    except Exception as ex:  # noqa: BLE001
        env.log("subscribe-raised", kit.tok(ex))
        return
    b.start_drivers()
    if "dispose" in sc:
        await kit.pause(env, sc["dispose"])
        await dispose()


def check(env, sc):
    over = getattr(env, "over", None)
    env.nontrivial = bool(over)
    if not over:
        return
    obs = env.obs
    what = pipe.describe(sc["tree"])
    env.probe("ended_" + over)
    if env.faults.get("observer_raises"):
        env.probe("observer_raised")
    if env.faults.get("user_function_raises"):
        env.probe("boom")
    if any(x.disp_seq is not None and not x.done for s in env.b.srcs for x in s.subs):
        env.probe("early")
    if len(list(pipe.walk(sc["tree"]))) > 3:
        env.probe("nested")
    if any(n["k"] == "time" for n in pipe.walk(sc["tree"])):
        env.probe("time_ops")
    if any(n["k"] == "lib" and n["name"] in ("interval", "timer") for n in pipe.walk(sc["tree"])):
        env.probe("timers_running")
    if env.faults.get("stalled_iterable") or env.faults.get("stalled_workflow"):
        env.probe("stalled_source")
    if env.faults.get("slow_observer"):
        env.probe("slow_observer")
    if env.status == "horizon":
        raise Violation("still-running", f"{what}: {over}, yet timers keep firing; observer saw {obs.text()}")
    mine = set(env.tasks)
    left = [t for t in asyncio.all_tasks(env.loop) if not t.done() and t not in mine]
    if left:
        names = sorted({inner(t) for t in left})
        raise Violation("task-left-behind", f"{what}: {over}, and nothing is left to happen, yet {len(left)} background task(s) stay pending: {', '.join(names)}; observer saw {obs.text()}")


def inner(t):
    """Name of the innermost library coroutine a pending task is suspended in."""
    c, best = t.get_coro(), "?"
    while c is not None:
        code = getattr(c, "cr_code", None) or getattr(c, "gi_code", None)
        if code is not None and "/aioreactive/" in code.co_filename:
            best = f"{code.co_filename.rsplit('/', 1)[1]}:{code.co_qualname}"
        c = getattr(c, "cr_await", None) or getattr(c, "gi_yieldfrom", None)
        if not (hasattr(c, "cr_code") or hasattr(c, "gi_code")):
            break
    return best
