"""C15: interval and timer tick on schedule with consecutive numbers."""

import aioreactive as rx

from .. import kit
from ..core import Violation
from ..kit import Obs, pause
from .c13 import gen_weather

QUICK = 100000
THOROUGH = 1500000
PROBES = ["timer", "zero_period", "interval", "disposed", "dispose_before_first", "dispose_in_handler", "several_subscribers", "slow_observer", "stall", "wall_jump", "many_ticks", "limited"]


def gen(rng, idx, tier):
    mode = ["timer", "interval", "interval", "interval0"][idx % 4]
    per = rng.choice([0.125, 0.25, 0.5, 1.0, 1.0, 2.0, 8.0])
    sc = {
        "mode": mode,
        "s": rng.choice([0, 0.125, 0.5, 1.0, 2.0, 5.0]),
        "p": per if mode == "interval" else 0,
        "weather": gen_weather(rng),
        "horizon": rng.choice([6.0, 12.0, 12.0, 30.0]) if per < 8 else 60.0,
        "subs": [],
    }
    for i in range(rng.choice([1, 1, 2, 3])):
        ostyle = rng.choice(["none", "none", "yield", "sleep", "mixed"])
        s = {"at": 0 if i == 0 else rng.choice([0, 0.125, 0.5, 1.0, 2.0]), "opz": [kit.gen_pause(rng, ostyle) for _ in range(rng.choice([3, 12, 40]))] if ostyle != "none" else [], "form": rng.choice(kit.FORMS)}
        r = rng.random()
        if r < 0.3:
            s["dispose"] = rng.choice([0, 0.125, 0.5, 1.0, 1.5, 2.0, 3.0, 5.0]) + rng.choice([0, 0.03125])
            if rng.random() < 0.2:
                s["twice"] = 1
        elif r < 0.45:
            s["self"] = rng.randrange(0, 4)
        elif r < 0.55:
            s["take"] = rng.randrange(1, 5)
        sc["subs"].append(s)
    if rng.random() < 0.06:
        # the same at another scale
        f = rng.choice([32, 64, 1024, 4096])
        for k in ("s", "p", "horizon"):
            sc[k] *= f
        for s in sc["subs"]:
            if "dispose" in s:
                s["dispose"] *= f
    return sc


def valid(sc):
    return bool(sc["subs"])


async def start(env, sc):
    env.obs = []
    if sc["mode"] == "timer":
        xs = rx.timer(env.T(sc["s"]))
    else:
        xs = rx.interval(env.T(sc["s"]), env.T(sc["p"]))

    async def subber(i, s):
        await pause(env, s["at"])

        async def ev(o, kind, n):
            if s.get("self") == n and o.sub is not None:
                env.probe("dispose_in_handler")
                env.fault("dispose")
                await o.sub.dispose_async()
                o.disp = o.disp_end = env.now

        obs = Obs(env, f"obs{i}", pauses=s["opz"], on_event=ev)
        obs.sub = None
        obs.t0 = env.now
        obs.spec = s
        env.obs.append(obs)
        ys = rx.pipe(xs, rx.take(s["take"])) if "take" in s else xs
        obs.sub = await kit.subscribe(obs, ys, s["form"])
        if s.get("dispose") is not None:
            await env.sleep(s["dispose"])
            env.fault("dispose")
            obs.disp = env.now
            await obs.sub.dispose_async()
            if s.get("twice"):
                await obs.sub.dispose_async()
            obs.disp_end = env.now

    for i, s in enumerate(sc["subs"]):
        env.spawn(subber(i, s), f"sub{i}")
    if sc["weather"]:
        env.spawn(pause(env, sc["weather"]), "weather")


def check(env, sc):
    env.probe({"timer": "timer", "interval": "interval", "interval0": "zero_period"}[sc["mode"]])
    if len(env.obs) > 1:
        env.probe("several_subscribers")
    if env.stalls:
        env.probe("stall")
    if env.faults.get("wall_clock_jump"):
        env.probe("wall_jump")
    for obs in env.obs:
        check_one(env, sc, obs)


def check_one(env, sc, obs):
    what = f"{sc['mode']}({sc['s']}, {sc['p']}) {obs.name}"
    disp = getattr(obs, "disp", None)
    dend = getattr(obs, "disp_end", disp)
    if disp is not None:
        env.probe("disposed")
        if not obs.events:
            env.probe("dispose_before_first")
    if any(obs.spec["opz"]):
        env.probe("slow_observer")
    ev = obs.events
    if len(ev) > 10:
        env.probe("many_ticks")
    n = 0
    end = env.push(obs.t0)  # the sleep may start only after a stall in the instant of subscribing
    lo = obs.t0 + sc["s"]
    hi = env.push(end + sc["s"])
    free = 0.0
    closing = None
    take = obs.spec.get("take")
    if take:
        env.probe("limited")
    while True:
        done = n if closing is None else n + 1
        e = ev[done] if done < len(ev) else None
        x, late = max(lo, free), max(hi, env.push(max(lo, free)))
        if e is None:
            if closing == "over":
                return
            if disp is not None and late >= disp - 1e-6:
                return
            if late > env.now + 1e-6 or late > sc["horizon"] - 1e-6:
                return  # not due within the run
            if free > env.now:
                return
            raise Violation("missing", f"{what}: {'completion' if closing else f'tick {n}'} due at {x:g} missing at t={env.now:g}; saw {obs.text()}; stalls {env.stalls}")
        if closing == "over":
            raise Violation("spurious", f"{what}: event {e[0]}:{e[1]} after the end; saw {obs.text()}")
        if disp is not None and min(lo, e[2]) > dend + 1e-6:
            raise Violation("tick-after-dispose", f"{what}: {e[0]}:{e[1]} at {e[2]:g}, disposed at {disp:g}; saw {obs.text()}")
        if closing:
            if e[0] != "C":
                raise Violation("wrong-event", f"{what}: completion expected; saw {obs.text()}")
        elif e[0] != "N" or type(e[1]) is not int or e[1] != n:
            raise Violation("wrong-tick", f"{what}: tick {n} expected; saw {obs.text()}")
        if not x - 1e-6 <= e[2] <= late + 1e-6:
            raise Violation("wrong-time", f"{what}: event {done} at {e[2]:g}, due {x:g}..{late:g}; saw {obs.text()}; stalls {env.stalls}")
        if e[3] is None:
            if disp is None and env.now < sc["horizon"] - 4:
                raise Violation("aborted", f"{what}: handler of event {done} never finished; saw {obs.text()}")
            return
        if closing:
            closing = "over"
            n += 1
            continue
        n += 1
        free = e[3]
        if (take and n == take) or not sc["p"]:
            closing = "yes"
            n -= 1
            lo, hi = e[3], env.push(e[3])
        elif take:
            # take queues: interval's own observer is never busy
            lo, hi = lo + sc["p"], env.push(env.push(hi) + sc["p"])
        else:
            lo, hi = e[3] + sc["p"], env.push(env.push(e[3]) + sc["p"])
