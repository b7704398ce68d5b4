"""C04: dispose at any moment cuts the pipeline off from every source."""
from .. import kit, pipe
from ..core import Violation
from ..kit import Obs

QUICK = 100000
THOROUGH = 1500000
HORIZON = 40.0
PROBES = ["disposed_live", "disposed_in_handler", "disposed_twice", "timer_pending_ops", "events_before", "nested", "slow_observer", "interval_running"]


def gen(rng, idx, tier):
    g = pipe.G(rng)
    g.fstyle = rng.choice(["none", "yield"])
    g.boom = rng.choice([0, 0, 0, 0.2])
    g.src_err = rng.choice([0.0, 0.1, 0.25])
    g.never = 0.3
    g.kinds = ["hot", "hot", "hot", "cold", "cold", "during", "iter", "aiter", "subject"]
    g.style = rng.choice(["yield", "sleep", "sleep", "mixed"])
    tree = pipe.gen_node(g, rng.randrange(1, 5))
    fast = rng.random() < 0.75
    sc = {
        "tree": tree,
        "form": rng.choice(kit.FORMS),
        "opz": [] if fast else [kit.gen_pause(rng, rng.choice(["yield", "sleep", "mixed"])) for _ in range(6)],
        "dispose": [rng.choice([0, 0, 0.125, 0.25, 0.375, 0.5, 1.0, 2.0]), rng.randrange(0, 14)],
        "twice": rng.choice([0, 0, 1, 2]),
    }
    if rng.random() < 0.35:
        sc["in_handler"] = rng.randrange(0, 4)
    for n in pipe.walk(tree):
        if n["k"] == "feed" and n["kind"] == "during":
            # subscribing must not itself wait: neither for the source nor for the observer
            if any(isinstance(p, float) for p in sc["opz"]):
                n["kind"] = "cold"
            for s in n["script"]:
                if isinstance(s[0], float):
                    s[0] = rng.randrange(0, 4)
    return sc


async def start(env, sc):
    b = env.b = pipe.Builder(env)
    xs = b.build(sc["tree"])
    env.snap = None
    state = {"sub": None, "done": False}

    async def snapshot():
        await env.settle()
        env.snap = {
            "live": [(s.name, x.k) for s in b.srcs for x in s.live],
            "nsubs": sum(len(s.subs) for s in b.srcs),
            "nev": len(env.obs.events),
            "t": env.now,
        }
        env.log("snapshot")

    async def dispose():
        if state["done"] or state["sub"] is None:
            return
        state["done"] = True
        env.fault("dispose")
        env.log("dispose")
        if any(s.live for s in b.srcs):
            env.probe("disposed_live")
        await state["sub"].dispose_async()
        env.log("dispose-returned")
        env.spawn(snapshot(), "snapshot")
        if sc["twice"]:
            await kit.pause(env, sc["twice"] - 1)
            await state["sub"].dispose_async()
            env.probe("disposed_twice")

    async def on_event(obs, kind, i):
        if sc.get("in_handler") == i and not state["done"] and state["sub"] is not None:
            env.probe("disposed_in_handler")
            await dispose()

    obs = env.obs = Obs(env, pauses=sc["opz"], on_event=on_event if "in_handler" in sc else None)
    try:
        state["sub"] = await kit.subscribe(obs, xs, sc["form"])
    except Exception as ex:  # noqa: BLE001
        env.log("subscribe-raised", kit.tok(ex))
        return
    b.start_drivers()
    await kit.pause(env, sc["dispose"])
    await dispose()


def check(env, sc):
    obs = getattr(env, "obs", None)
    snap = getattr(env, "snap", None)
    if snap is None:
        env.nontrivial = False
        return
    what = pipe.describe(sc["tree"])
    env.nontrivial = True
    names = pipe.kinds(sc["tree"])
    if snap["nev"]:
        env.probe("events_before")
    if names & {"time"}:
        env.probe("timer_pending_ops")
    if any(n["k"] == "lib" and n["name"] == "interval" for n in pipe.walk(sc["tree"])):
        env.probe("interval_running")
    if len(list(pipe.walk(sc["tree"]))) > 3:
        env.probe("nested")
    if snap["live"]:
        raise Violation("not-released", f"{what}: still subscribed to {snap['live']} after dispose returned and the loop settled")
    n = sum(len(s.subs) for s in env.b.srcs)
    if n != snap["nsubs"]:
        late = [(s.name, x.k, x.sub_t) for s in env.b.srcs for x in s.subs if x.sub_seq is not None]
        raise Violation("subscribed-after-dispose", f"{what}: {n - snap['nsubs']} new source subscription(s) after dispose: {late}")
    if env.status == "horizon":
        raise Violation("still-running", f"{what}: timers are still firing {40.0 - snap['t']:g}s after dispose")
    if sc["opz"]:
        env.probe("slow_observer")
    elif len(obs.events) > snap["nev"]:
        e = obs.events[snap["nev"]]
        raise Violation("event-after-dispose", f"{what}: observer got {e[0]}:{kit.tok(e[1])} at t={e[2]:g}, dispose finished at t={snap['t']:g}")
