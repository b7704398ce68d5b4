"""C14: debounce emits exactly the values followed by a quiet period."""

import aioreactive as rx
from aioreactive import AsyncRx

from .. import kit
from ..core import Violation
from ..kit import Obs, Src, dec, pause, same, tok
from .c13 import gen_weather, valid  # noqa: F401

QUICK = 60000
THOROUGH = 1500000
HORIZON = 1e6
PROBES = ["delivered", "suppressed", "pending_at_completion", "pending_at_error", "pending_at_dispose", "burst", "several_subscribers", "slow_observer", "stall", "two_producers", "never_terminated"]


def gen(rng, idx, tier):
    d = rng.choice([0.25, 0.5, 1.0, 1.0, 2.0, 4.0, rng.choice([0.5, 64.0, 256.0, 4096.0])])
    style = rng.choice(["burst", "mix", "mix", "mix", "slow"])

    def gap():
        # never exactly d (sums of gaps are checked against ties in check())
        if style == "burst":
            return rng.choice([0, 1, 2, 0.0625, d / 4])
        if style == "slow":
            return d * rng.choice([1.25, 1.5, 2, 3])
        return d * rng.choice([0, 0.125, 0.25, 0.5, 0.75, 1.25, 1.5, 2.5]) or rng.randrange(0, 3)

    def script(vals, term):
        s = [[gap(), "N", v] for v in vals]
        if term:
            s.append([gap(), *term])
        return s

    n = rng.choice([0, 1, 2, 3, 4, 5, 8, 12]) if rng.random() < 0.95 else rng.randrange(20, 50)
    term = kit.term_ev(rng)
    sc = {"d": d, "kind": rng.choice(["hot", "cold", "subject"]), "script": script(kit.gen_values(rng, n), term), "ch": rng.randrange(2), "weather": [w for w in gen_weather(rng)]}
    if rng.random() < 0.2:
        sc["kind"] = "hot"
        sc["script2"] = script([900 + i for i in range(rng.randrange(1, 6))], None)
    subs = []
    for i in range(rng.choice([1, 1, 1, 1, 2])):
        ostyle = rng.choice(["none", "none", "none", "yield", "sleep", "mixed"])
        s = {"at": 0, "opz": [kit.gen_pause(rng, ostyle) for _ in range(12)] if ostyle != "none" else [], "form": rng.choice(kit.FORMS)}
        if rng.random() < 0.2:
            s["dispose"] = d * rng.choice([0.25, 0.5, 1.0, 1.5, 2.0, 3.0, 5.0]) + 0.03125
        subs.append(s)
    sc["subs"] = subs
    return sc


async def start(env, sc):
    d = sc["d"]
    env.obs = []
    env.src = src = Src(env, "s", script=sc["script"] if sc["kind"] == "cold" else None)
    xs = src
    env.emits = []
    if sc["kind"] == "subject":
        xs = subj = rx.AsyncSubject()
    ys = AsyncRx(xs).debounce(env.T(d)) if sc["ch"] else rx.pipe(xs, rx.debounce(env.T(d)))

    async def subber(i, s):
        obs = Obs(env, f"obs{i}", pauses=s["opz"])
        obs.k = len(src.subs)
        obs.spec = s
        env.obs.append(obs)
        sub = await kit.subscribe(obs, ys, s["form"])
        if s.get("dispose"):
            await env.sleep(s["dispose"])
            env.fault("dispose")
            obs.disp = env.now
            await sub.dispose_async()
            obs.disp_end = env.now

    for i, s in enumerate(sc["subs"]):
        env.spawn(subber(i, s), f"sub{i}")
    await env.settle()
    if sc["weather"]:
        env.spawn(pause(env, sc["weather"]), "weather")
    if sc["kind"] == "hot":
        env.spawn(kit.produce(env, src, sc["script"]), "prod")
        if "script2" in sc:
            env.probe("two_producers")
            env.spawn(kit.produce(env, src, sc["script2"]), "prod2")
    elif sc["kind"] == "subject":

        async def drive():
            for p, k, v in sc["script"]:
                await pause(env, p)
                v = env.errors_of(v) if k == "E" else dec(v)
                env.emits.append((k, v, env.now))
                await (subj.asend(v) if k == "N" else subj.athrow(v) if k == "E" else subj.aclose())

        env.spawn(drive(), "prod")


def check(env, sc):
    if len(env.obs) > 1:
        env.probe("several_subscribers")
    if env.stalls:
        env.probe("stall")
    for obs in env.obs:
        sent = env.emits if sc["kind"] == "subject" else [(r[0], r[1], r[2]) for r in sorted(env.src.sent, key=lambda r: r[3]) if r[5] == obs.k]
        check_one(env, sc, obs, sent)


def check_one(env, sc, obs, sent):
    """Which values must / may be delivered, and when."""
    d = sc["d"]
    kit.check_grammar(obs)
    disp = getattr(obs, "disp", None)
    slow = any(obs.spec["opz"])
    if slow:
        env.probe("slow_observer")
    # everything after the first terminal event is ignored
    cut = next((i for i, s in enumerate(sent) if s[0] != "N"), None)
    if cut is not None:
        sent = sent[: cut + 1]
    else:
        env.probe("never_terminated")
    shown = [(k, tok(v), t) for k, v, t in sent]
    exp = []  # (kind, value, due, latest start, must)
    for i, (k, v, t) in enumerate(sent):
        if k != "N":
            exp.append((k, v, t, env.push(t), True))
            continue
        due = t + d
        late = env.push(env.push(t) + d)
        nxt = sent[i + 1][2] if i + 1 < len(sent) else float("inf")
        if i + 1 < len(sent) and nxt - t < d / 8:
            env.probe("burst")
        if nxt < due - 1e-6:
            env.probe("suppressed")
            if i + 1 < len(sent) and sent[i + 1][0] != "N":
                env.probe("pending_at_completion" if sent[i + 1][0] == "C" else "pending_at_error")
            continue
        # a tie, or an event that came while the loop was blocked past the due time: either outcome
        exp.append((k, v, due, late, nxt > late + 1e-6))
    ev = obs.events
    # js: how many of the observer's events can be explained so far
    js = {0}
    for k, v, due, late0, must in exp:
        nxt = set()
        for j in js:
            free = 0.0 if j == 0 else ev[j - 1][3] if ev[j - 1][3] is not None else 1e18
            x = max(due, free)
            late = max(late0, env.push(x))
            if not must or (disp is not None and late >= disp - 1e-6):
                nxt.add(j)
                if disp is not None and due > disp and k == "N" and due - d < disp:
                    env.probe("pending_at_dispose")
            # an event already owed when dispose was called may still be queued behind a busy observer
            if j < len(ev) and (disp is None or due <= obs.disp_end + 1e-6):
                e = ev[j]
                if e[0] == k and (e[1] is v or (k == "N" and same(e[1], v))) and x - 1e-6 <= e[2] <= late + 1e-6:
                    nxt.add(j + 1)
                    if k == "N":
                        env.probe("delivered")
        if not nxt:
            raise Violation("lost-or-mistimed", f"debounce({d}) {obs.name}: {k}:{tok(v)} due at {due:g} not delivered then; sent {shown}; disposed {disp}; saw {obs.text()}; stalls {env.stalls}")
        js = nxt
    if len(ev) not in js:
        e = ev[max(js)]
        raise Violation("spurious", f"debounce({d}) {obs.name}: unexpected event {e[0]}:{tok(e[1])} at {e[2]:g}; sent {shown}; disposed {disp}; saw {obs.text()}; stalls {env.stalls}")
