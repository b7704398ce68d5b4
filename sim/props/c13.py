"""C13: delay shifts every event by exactly the delay, in order."""

import aioreactive as rx
from aioreactive import AsyncRx

from .. import kit
from ..core import Violation
from ..kit import Obs, Src, dec, pause, tok

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
PROBES = ["overlapping_in_flight", "zero_delay", "slow_observer", "several_subscribers", "disposed", "wall_jump", "stall", "error", "complete", "unfinished", "stacked"]
RULE = "Delivery times are compared exactly (1e-6 s); all scripted times are binary fractions."

GAPS = [0, 0, 0.125, 0.25, 0.25, 0.5, 0.5, 1.0, 1.5, 2.0, 3.0, 8.0]


def gen_gap(rng, style):
    if style == "burst":
        return rng.choice([0, 0, 0, 1, 2, 0.125])
    if style == "slow":
        return rng.choice([2.0, 3.0, 5.0, 8.0])
    g = rng.choice(GAPS)
    return g if g else rng.randrange(0, 4)


def gen_weather(rng):
    """Environment actor: sleeps, stalls of the loop, wall-clock jumps."""
    w = []
    r = rng.random()
    if r < 0.45:
        return w
    for _ in range(rng.randrange(1, 5)):
        w.append(rng.choice([0.125, 0.25, 0.5, 1.0, 1.25, 2.0, 4.0]))
        if r < 0.75:
            w.append(["wall", rng.choice([-3600.0, -10.0, -1.0, -0.5, 0.5, 1.0, 5.0, 86400.0])])
        else:
            w.append(["stall", rng.choice([0.125, 0.25, 0.5, 1.0, 2.5])])
            if rng.random() < 0.3:
                w.append(["wall", rng.choice([-5.0, 5.0])])
    return w


def gen(rng, idx, tier):
    style = rng.choice(["burst", "mix", "mix", "slow"])
    n = rng.choice([0, 1, 2, 3, 4, 5, 8, 12]) if rng.random() < 0.95 else rng.randrange(20, 60)
    vals = kit.gen_values(rng, n)
    term = kit.term_ev(rng)
    script = [[gen_gap(rng, style), "N", v] for v in vals]
    if term:
        script.append([gen_gap(rng, style), *term])
    nsub = rng.choice([1, 1, 1, 2, 3])
    subs = []
    for i in range(nsub):
        ostyle = rng.choice(["none", "none", "none", "yield", "sleep", "mixed"])
        s = {"at": 0 if i == 0 else rng.choice([0, 0, 0.125, 0.5, 1.0, 2.0]), "opz": [kit.gen_pause(rng, ostyle) for _ in range(12)] if ostyle != "none" else [], "form": rng.choice(kit.FORMS)}
        if rng.random() < 0.15:
            s["dispose"] = rng.choice([0.125, 0.5, 1.0, 1.5, 2.0, 3.0, 5.0]) + 0.0625
        subs.append(s)
    sc = {"d": rng.choice([0, 0.125, 0.25, 0.5, 1.0, 1.0, 2.0, 4.0, 10.0, rng.choice([64.0, 100.0, 3600.0, 86400.0])]), "kind": rng.choice(["hot", "cold", "subject"]), "script": script, "subs": subs, "weather": gen_weather(rng), "ch": rng.randrange(2)}
    for s in subs:
        if s["at"]:
            # never subscribe in the very instant of a send, where either outcome would be right
            s["at"] = 0 if any(isinstance(w, list) and w[0] == "stall" for w in sc["weather"]) else s["at"] + 0.03125
    if rng.random() < 0.15:
        sc["d2"] = rng.choice([0, 0.25, 1.0, 3.0])
    return sc


def valid(sc):
    return bool(sc["subs"]) and all(len(e) == 3 and e[1] in ("N", "E", "C") for e in sc["script"])


async def start(env, sc):
    env.obs = []
    env.disposed = {}
    d = env.T(sc["d"])
    env.src = src = Src(env, "s", script=sc["script"] if sc["kind"] == "cold" else None)
    xs = src
    if sc["kind"] == "subject":
        xs = subj = rx.AsyncSubject()
        await subj.subscribe_async(Obs(env, "tap"))
    ys = AsyncRx(xs).delay(d) if sc["ch"] else rx.pipe(xs, rx.delay(d))
    if "d2" in sc:
        ys = rx.pipe(ys, rx.delay(env.T(sc["d2"])))
    env.emits = []  # subject: (kind, value, t)

    async def subber(i, s):
        await pause(env, s["at"])
        obs = Obs(env, f"obs{i}", pauses=s["opz"])
        obs.t0 = env.now
        obs.i0 = len(env.emits)
        obs.k = len(src.subs)
        obs.spec = s
        env.obs.append(obs)
        sub = await kit.subscribe(obs, ys, s["form"])
        if s.get("dispose"):
            await env.sleep(s["dispose"])
            env.fault("dispose")
            obs.disp = env.now
            await sub.dispose_async()
            obs.disp_end = env.now

    for i, s in enumerate(sc["subs"]):
        env.spawn(subber(i, s), f"sub{i}")
    await env.settle()
    if sc["weather"]:
        env.spawn(pause(env, sc["weather"]), "weather")
    if sc["kind"] == "hot":
        env.spawn(kit.produce(env, src, sc["script"]), "prod")
    elif sc["kind"] == "subject":

        async def drive():
            for p, k, v in sc["script"]:
                await pause(env, p)
                v = env.errors_of(v) if k == "E" else dec(v)
                env.emits.append((k, v, env.now))
                await (subj.asend(v) if k == "N" else subj.athrow(v) if k == "E" else subj.aclose())

        env.spawn(drive(), "prod")


def check(env, sc):
    d = sc["d"]
    if d == 0:
        env.probe("zero_delay")
    if len(env.obs) > 1:
        env.probe("several_subscribers")
    if env.faults.get("wall_clock_jump"):
        env.probe("wall_jump")
    if env.stalls:
        env.probe("stall")
    if "d2" in sc:
        env.probe("stacked")
    for obs in env.obs:
        if sc["kind"] == "subject":
            # whatever was sent strictly before / after the subscription; sends in the same instant may fall either side
            sent = env.emits[obs.i0 :]
        else:
            sent = [(r[0], r[1], r[2]) for r in env.src.sent if r[5] == obs.k]
        check_one(env, sc, obs, sent, d)


def check_one(env, sc, obs, sent, d):
    what = f"delay({d})"
    disp = getattr(obs, "disp", None)
    if disp is not None:
        env.probe("disposed")
    if obs.spec["opz"] and any(obs.spec["opz"]):
        env.probe("slow_observer")
    shown = [(k, tok(v), t) for k, v, t in sent]
    if d and any(b[2] - a[2] < d for a, b in zip(sent, sent[1:])):
        env.probe("overlapping_in_flight")
    if sent:
        env.probe({"E": "error", "C": "complete", "N": "unfinished"}[sent[-1][0]])
    ev = obs.events
    lo = 0.0
    dd = [d] + ([sc["d2"]] if "d2" in sc else [])
    for i, (k, v, t) in enumerate(sent):
        x = t
        late = t
        for q in dd:
            x += q
            late = env.push(late + q)
        x = max(x, lo)
        late = max(late, env.push(x))
        if i >= len(ev):
            if disp is not None and disp <= late + 1e-6:
                break
            raise Violation("lost", f"{what} {obs.name}: {k}:{tok(v)} sent at t={t:g} never arrived (due {x:g}); sent {shown}; saw {obs.text()}")
        e = ev[i]
        if e[0] != k or not (e[1] is v or (k == "N" and kit.same(e[1], v))):
            raise Violation("wrong-event", f"{what} {obs.name}: event {i} should be {k}:{tok(v)}; sent {shown}; saw {obs.text()}")
        if e[2] < x - 1e-6:
            raise Violation("early", f"{what} {obs.name}: {k}:{tok(v)} sent at t={t:g} arrived at {e[2]:g}, due {x:g}; saw {obs.text()}")
        if e[2] > late + 1e-6:
            raise Violation("late", f"{what} {obs.name}: {k}:{tok(v)} sent at t={t:g} arrived at {e[2]:g}, due {x:g}; stalls {env.stalls}; saw {obs.text()}")
        if disp is not None and late > obs.disp_end + 1e-6 and min(x, t + sum(dd)) > obs.disp_end + 1e-6:
            raise Violation("after-dispose", f"{what} {obs.name}: {k}:{tok(v)} at {e[2]:g} after dispose at {disp:g}")
        lo = e[3] if e[3] is not None else 1e18
    else:
        if len(ev) > len(sent):
            raise Violation("duplicate", f"{what} {obs.name}: more events than were sent; sent {shown}; saw {obs.text()}")
