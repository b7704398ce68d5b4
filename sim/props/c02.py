"""C02: no overlapping calls behind queueing operators and library sources."""
from .. import kit, pipe
from ..kit import Obs

QUICK = 100000
THOROUGH = 1500000
HORIZON = 40.0
PROBES = ["concurrent_emissions", "backlog", "observer_raised", "library_source", "delay", "terminal_E", "terminal_C"]
LIBS = ["single", "from_async", "timer", "interval", "fail", "defer", "iter", "aiter"]


def gen(rng, idx, tier):
    g = pipe.G(rng)
    g.boom = rng.choice([0, 0, 0.3])
    mode = rng.choice(["guard", "guard", "guard", "lib", "delay"])
    if mode == "guard":
        g.multi = rng.random() < 0.8
        g.rude = rng.random() < 0.2
        tree = pipe.gen_guarded(g, rng.randrange(1, 4))
    elif mode == "delay":
        g.multi = True
        tree = {"k": "time", "f": "delay", "d": rng.choice([0, 0.125, 0.5, 1.0]), "ch": rng.randrange(2), "c": pipe.gen_node(g, rng.randrange(0, 3))}
    else:
        g.kinds = ["iter", "aiter"]
        tree = pipe.gen_lib(g) if rng.random() < 0.6 else pipe.gen_feed(g)
        if tree["k"] == "feed" and tree["kind"] not in ("iter", "aiter"):
            tree["kind"] = "aiter"
    if mode != "guard":
        for _ in range(rng.choice([0, 0, 1, 2])):
            tree = {"k": "op", "op": pipe.gen_linear(g, ["map", "map_async", "filter", "filter_async", "starmap", "choose", "scan", "scan_async"]), "c": tree}
    ostyle = rng.choice(["yield", "yield", "sleep", "mixed"])
    sc = {
        "mode": mode,
        "tree": tree,
        "opz": [kit.gen_pause(rng, ostyle) or 1 for _ in range(rng.randrange(2, 14))],
        "form": rng.choice(kit.FORMS),
    }
    if rng.random() < 0.2:
        sc["raise_at"] = rng.randrange(4)
        sc["err"] = kit.gen_err(rng)
    if rng.random() < 0.15:
        sc["dispose"] = [rng.choice([0, 0.125, 0.25, 0.5, 1.0, 2.0]), rng.randrange(0, 12)]
    return sc


async def start(env, sc):
    b = env.b = pipe.Builder(env)
    xs = b.build(sc["tree"])
    err = env.errors_of(sc["err"]) if "err" in sc else None
    obs = env.obs = Obs(env, pauses=sc["opz"], raise_at=sc.get("raise_at"), err=err)
    try:
        sub = await kit.subscribe(obs, xs, sc["form"])
    except Exception as ex:  # noqa: BLE001  a source that cannot be subscribed
        env.log("subscribe-raised", kit.tok(ex))
        return
    b.start_drivers()
    if "dispose" in sc:
        await kit.pause(env, sc["dispose"])
        env.fault("dispose")
        env.log("dispose")
        await sub.dispose_async()


def check(env, sc):
    if not hasattr(env, "obs"):
        return
    obs = env.obs
    env.nontrivial = len(obs.events) > 1
    env.probe({"lib": "library_source", "delay": "delay"}.get(sc["mode"], "guarded"))
    if obs.terminal:
        env.probe("terminal_" + obs.terminal[0])
    if env.faults.get("observer_raises"):
        env.probe("observer_raised")
    if env.faults.get("concurrent_producers"):
        env.probe("concurrent_emissions")
    ev = obs.events
    if any(b[2] == a[3] and a[3] > a[2] for a, b in zip(ev, ev[1:])):
        env.probe("backlog")  # an event was waiting for the observer to finish
    kit.check_serial(obs)
