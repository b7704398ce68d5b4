"""C05: once the observer has its terminal event, nothing upstream stays subscribed."""
from .. import kit, ops, pipe
from ..core import Violation
from ..kit import Obs

QUICK = 100000
THOROUGH = 1500000
HORIZON = 60.0
PROBES = ["terminal_E", "terminal_C", "early", "observer_raised", "boom", "emit_during_subscribe", "infinite_source", "subscribe_raised", "terminal_handler_raised"]
EARLY = ["take", "take", "zip_seq", "slice"]


def gen(rng, idx, tier):
    g = pipe.G(rng)
    g.boom = rng.choice([0, 0, 0.2, 0.4])
    g.src_err = rng.choice([0.0, 0.1, 0.25])
    g.never = rng.choice([0.1, 0.4])
    g.sub_err = rng.choice([0, 0, 0.08])
    g.kinds = ["hot", "hot", "hot", "cold", "cold", "during", "iter", "aiter", "subject"]
    g.style = rng.choice(["none", "yield", "sleep", "sleep", "mixed"])
    raising = False
    r = rng.random()
    tree = pipe.gen_node(g, rng.randrange(1, 4))
    if r < 0.35:
        tree = {"k": "op", "op": pipe.gen_linear(g, EARLY), "c": tree}
    elif r < 0.5:
        tree = {"k": "comb", "f": rng.choice(["take_until", "take_until", "combine_latest", "with_latest_from"]), "ch": rng.randrange(2), "a": tree, "b": pipe.gen_node(g, rng.randrange(0, 2))}
    elif r < 0.65:
        # one operator that fails or ends early, directly over a source that would go on
        g.boom = 1.0
        g.never, g.sub_err = 0.8, 0
        g.kinds = ["hot", "cold", "during", "during"]
        tree = {"k": "op", "op": pipe.gen_linear(g, rng.choice([EARLY, sorted(ops.FALLIBLE)])), "c": pipe.gen_feed(g, rng.randrange(1, 6))}
    elif r < 0.69:
        # events delivered by the operator's own task, over a source that would go on
        g.never, g.sub_err = 0.8, 0
        g.kinds = ["hot", "cold"]
        tree = pipe.gen_many(g, 1, "time")
        tree["c"] = pipe.gen_feed(g, rng.randrange(1, 6))
        raising = True
    elif r < 0.8:
        tree = pipe.gen_many(g, rng.randrange(1, 4), rng.choice(["merge", "flat", "switch", "concat", "comb"]))
    if rng.random() < 0.25:
        tree = {"k": "op", "op": pipe.gen_linear(g, ["map", "filter", "scan", "map_async", "scan_async", "skip", "distinct", "take"]), "c": tree}
    ostyle = kit.gen_style(rng)
    sc = {"tree": tree, "form": rng.choice(kit.FORMS), "opz": [kit.gen_pause(rng, ostyle) for _ in range(6)] if ostyle != "none" else []}
    if rng.random() < (0.7 if raising else 0.2):
        sc["raise_at"] = rng.randrange(3)
        sc["err"] = kit.gen_err(rng)
    if rng.random() < (0.4 if "raise_at" in sc else 0.1):
        sc["raise_term"] = kit.gen_err(rng)
    for n in pipe.walk(tree):
        if n["k"] == "feed" and n["kind"] == "during":
            # subscribing must not itself wait: neither for the source, nor for user functions or the observer
            if any(isinstance(p, float) for p in sc["opz"]) or g.fstyle in ("sleep", "mixed"):
                n["kind"] = "cold"
            for s in n["script"]:
                if isinstance(s[0], float):
                    s[0] = rng.randrange(0, 4)
    return sc


async def start(env, sc):
    b = env.b = pipe.Builder(env)
    xs = b.build(sc["tree"])
    env.snap = None
    err = env.errors_of(sc["err"]) if "err" in sc else None

    async def snapshot(obs):
        while obs.busy:
            await env.settle()
            if obs.busy:
                await env.sleep(0.0625)
        await env.settle()
        env.snap = {
            "live": [(s.name, x.k) for s in b.srcs for x in s.live],
            "nsubs": sum(len(s.subs) for s in b.srcs),
            "t": env.now,
        }
        env.log("snapshot")

    async def on_event(obs, kind, i):
        if kind != "N" and env.snap is None:
            env.snap = False
            if any(s.live for s in b.srcs):
                env.probe("live_at_terminal")
            env.spawn(snapshot(obs), "snapshot")

    obs = env.obs = Obs(env, pauses=sc["opz"], on_event=on_event, raise_at=sc.get("raise_at"), err=err)
    if "raise_term" in sc:
        obs.raise_term = env.errors_of(sc["raise_term"])
    try:
        await kit.subscribe(obs, xs, sc["form"])
    except Exception as ex:  # noqa: BLE001
        env.log("subscribe-raised", kit.tok(ex))
        return
    b.start_drivers()


def check(env, sc):
    snap = getattr(env, "snap", None)
    if not snap:
        env.nontrivial = False
        return
    obs = env.obs
    what = pipe.describe(sc["tree"])
    env.nontrivial = True
    env.probe("terminal_" + obs.terminal[0])
    if env.faults.get("observer_raises"):
        env.probe("observer_raised")
    if env.faults.get("user_function_raises"):
        env.probe("boom")
    if env.faults.get("observer_terminal_raises"):
        env.probe("terminal_handler_raised")
    if env.faults.get("emit_during_subscribe"):
        env.probe("emit_during_subscribe")
    if env.faults.get("subscribe_raises"):
        env.probe("subscribe_raised")
    if env.probes.get("live_at_terminal") or any(x.disp_seq is not None and not x.done for s in env.b.srcs for x in s.subs):
        env.probe("early")
    if any(n["k"] == "lib" and n["name"] == "interval" for n in pipe.walk(sc["tree"])):
        env.probe("infinite_source")
    if snap["live"]:
        raise Violation("not-released", f"{what}: still subscribed to {snap['live']} after the observer received {obs.text()} and the loop settled")
    n = sum(len(s.subs) for s in env.b.srcs)
    if n != snap["nsubs"]:
        raise Violation("subscribed-after-terminal", f"{what}: {n - snap['nsubs']} new source subscription(s) after the terminal event; observer saw {obs.text()}")
    if env.status == "horizon":
        raise Violation("still-running", f"{what}: timers are still firing {60.0 - snap['t']:g}s after the terminal event")
