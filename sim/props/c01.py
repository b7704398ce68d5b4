"""C01: observer grammar for random pipelines."""
import aioreactive as rx

from .. import kit, ops, pipe
from ..kit import Obs, dec, pause

QUICK = 100000
THOROUGH = 1500000
HORIZON = 40.0
PROBES = ["terminal_E", "terminal_C", "no_terminal", "rude", "disposed", "observer_raised", "boom", "swarm"]
STEP = ["map", "filter", "starmap", "starfilter", "choose", "scan", "scan"]


def gen(rng, idx, tier):
    mode = rng.choice(["clean", "clean", "faulty", "faulty", "rude", "rude"])
    if rng.random() < 0.08:
        return gen_swarm(rng)
    g = pipe.G(rng)
    if mode != "clean":
        g.boom = rng.choice([0, 0.2, 0.5])
        g.sub_err = 0.05
    if mode == "rude":
        g.rude = rng.random() < 0.7
        g.multi = not g.rude or rng.random() < 0.5
        tree = pipe.gen_guarded(g, rng.randrange(1, 4))
    else:
        tree = pipe.gen_node(g, rng.randrange(1, 5))
    ostyle = kit.gen_style(rng)
    sc = {
        "mode": mode,
        "tree": tree,
        "opz": [kit.gen_pause(rng, ostyle) for _ in range(rng.randrange(1, 10))] if ostyle != "none" else [],
        "form": rng.choice(kit.FORMS),
    }
    if mode != "clean" and rng.random() < 0.35:
        sc["raise_at"] = rng.randrange(4)
        sc["err"] = kit.gen_err(rng)
    if rng.random() < 0.25:
        sc["dispose"] = [rng.choice([0, 0.125, 0.25, 0.5, 1.0, 2.0]), rng.randrange(0, 12)]
    return sc


def gen_swarm(rng):
    """Several producers send into one AsyncSubject, through per-item operators, without waiting for each other."""
    g = pipe.G(rng, boom=rng.choice([0, 0.5, 1.0]))
    chain = [pipe.gen_linear(g, STEP) for _ in range(rng.choice([1, 1, 2, 3]))]
    style = rng.choice(["none", "yield", "sleep", "mixed"])
    prods = [kit.gen_script(rng, [100 * p + i for i in range(rng.randrange(1, 5))], style, kit.term_ev(rng) if rng.random() < 0.5 else None) for p in range(rng.randrange(2, 5))]
    ostyle = rng.choice(["yield", "sleep", "mixed"])
    return {"mode": "swarm", "ops": chain, "prods": prods, "opz": [kit.gen_pause(rng, ostyle) for _ in range(rng.randrange(2, 10))], "form": rng.choice(kit.FORMS)}


async def start_swarm(env, sc):
    subj = rx.AsyncSubject()
    obs = env.obs = Obs(env, pauses=sc["opz"])
    await kit.subscribe(obs, ops.apply_chain(env, subj, sc["ops"]), sc["form"])

    async def produce(script):
        for p, k, v in script:
            await pause(env, p)
            env.spawn(send(k, v), "send")

    async def send(k, v):
        v = env.errors_of(v) if k == "E" else dec(v)
        try:
            await (subj.asend(v) if k == "N" else subj.athrow(v) if k == "E" else subj.aclose())
        except Exception as ex:  # noqa: BLE001  a user function failed while this value was pushed through
            env.log("send-raised", kit.tok(ex))

    for p in sc["prods"]:
        env.spawn(produce(p), "producer")


async def start(env, sc):
    if sc["mode"] == "swarm":
        await start_swarm(env, sc)
        return
    b = env.b = pipe.Builder(env)
    xs = b.build(sc["tree"])
    err = env.errors_of(sc["err"]) if "err" in sc else None
    obs = env.obs = Obs(env, pauses=sc["opz"], raise_at=sc.get("raise_at"), err=err)
    try:
        sub = await kit.subscribe(obs, xs, sc["form"])
    except Exception as ex:  # noqa: BLE001  a source that cannot be subscribed
        env.log("subscribe-raised", kit.tok(ex))
        return
    b.start_drivers()
    if "dispose" in sc:
        await kit.pause(env, sc["dispose"])
        env.fault("dispose")
        env.log("dispose")
        await sub.dispose_async()


def check(env, sc):
    if not hasattr(env, "obs"):
        return
    obs = env.obs
    env.nontrivial = bool(obs.events)
    t = obs.terminal
    env.probe("no_terminal" if t is None else "terminal_" + t[0])
    if sc["mode"] in ("rude", "swarm"):
        env.probe(sc["mode"])
    if "dispose" in sc:
        env.probe("disposed")
    if env.faults.get("observer_raises"):
        env.probe("observer_raised")
    if env.faults.get("user_function_raises"):
        env.probe("boom")
    kit.check_grammar(obs)
