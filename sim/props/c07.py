"""C07: merge and flat_map conserve values, keep order and complete when all do."""
from collections import Counter

from .. import flat, kit
from ..core import Violation
from ..kit import Obs, tok

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
OPS = ["merge", "merge_m", "merge_seq", "merge_inner", "merge_inner", "flat_map", "flat_mapi", "flat_map_async", "flat_mapi_async", "flat_map_m", "flat_map_async_m"]
PROBES = ["completed", "error", "unfinished", "concurrent_inners", "outer_last", "inner_last", "emit_during_subscribe", "same_inner_twice", "slow_observer", "empty_inner"]


def gen(rng, idx, tier):
    op = OPS[idx % len(OPS)]
    style = kit.gen_style(rng)
    k = 2 if op in ("merge", "merge_m") else kit.tail(rng, rng.choice([0, 1, 2, 2, 3, 4, 6]), 8, 26)
    p_err = rng.choice([0, 0, 0, 0.15])
    p_never = rng.choice([0, 0, 0.15])
    kinds = ["cold", "cold", "cold", "during", "hot", "single", "empty", "iter"]
    ist = [kit.gen_style(rng) for _ in range(k)]
    inners = [flat.gen_inner(rng, i, ist[i] if rng.random() < 0.5 else style, kinds, p_err, p_never) for i in range(k)]
    order = list(range(k))
    if k and rng.random() < 0.15 and op not in ("merge", "merge_m", "merge_seq"):
        order = [rng.randrange(k) for _ in range(rng.randrange(1, k + 2))]
    ostyle = rng.choice(["none", "none", "yield", "sleep", "mixed"])
    if k > 8 and rng.random() < 0.6:
        # all of them active at the same time
        style = "none"
        inners = [flat.gen_inner(rng, i, "sleep", ["cold"], 0, 1.0 if p_never else 0, fast_during=True) for i in range(k)]
    return {
        "op": op,
        "n": 0,
        "inners": inners,
        "outer": flat.gen_outer(rng, k, style, p_err / 2, p_never, order),
        # flat_mapi_async queues outer items in front of its mapper: only suspensions without delay there
        "pz": [kit.gen_pause(rng, "yield" if "mapi" in op else kit.gen_style(rng)) for _ in range(k)] if "async" in op else [],
        "form": rng.choice(kit.FORMS),
        "lead": rng.choice([["settle"], ["settle"], 0, 1, 3]),
        "opz": [kit.gen_pause(rng, ostyle) for _ in range(12)] if ostyle != "none" else [],
    }


valid = flat.valid


async def start(env, sc):
    env.obs = Obs(env, pauses=sc["opz"])
    env.scene = flat.Scene(env, sc)
    await env.scene.start(env.obs)


def check(env, sc):
    check_merge(env, sc)


def arrivals(s, sc):
    outer = s.outer_recs()
    if outer is None:
        return [(0.0, i) for i in range(len(s.inners))]
    return [(r[2], r[1] if "map" in sc["op"] else _index(s, r[1])) for r in outer if r[0] == "N"]


def check_merge(env, sc, started=None):
    """started: how often each inner stream should have been subscribed (default: once per arrival)."""
    s, obs = env.scene, env.obs
    what = f"{sc['op']}"
    fast = not any(sc["opz"])
    kit.check_grammar(obs)
    outer = s.outer_recs()
    recs = [(r, i) for i, src in s.srcs.items() for r in src.sent]
    errs = [(r[2], r[1]) for r, _ in recs if r[0] == "E"] + [(r[2], r[1]) for r in (outer or []) if r[0] == "E"]
    t_err = min((t for t, _ in errs), default=None)
    env.nontrivial = len(recs) + len(s.libs) > 0
    if any(src.send_errors for src in s.srcs.values()) or (s.outer and s.outer.send_errors):
        raise Violation("send-raised", f"{what}: a send raised")
    if env.faults.get("emit_during_subscribe"):
        env.probe("emit_during_subscribe")
    if not fast:
        env.probe("slow_observer")

    # every inner stream that arrived was subscribed exactly once per arrival
    arr = arrived = Counter(i for _, i in arrivals(s, sc))
    if started is not None:
        arr = started
    if any(v > 1 for v in arr.values()):
        env.probe("same_inner_twice")
    for i, src in s.srcs.items():
        if len(src.subs) > arr[i] or (t_err is None and len(src.subs) != arr[i]):
            raise Violation("inner-subscriptions", f"{what}: inner {i} was to be subscribed {arr[i]}x, was subscribed {len(src.subs)}x")

    # conservation
    emitted = Counter(tok(r[1]) for r, _ in recs if r[0] == "N")
    for i, vals in s.libs.items():
        for v in vals:
            emitted[tok(v)] += arr[i]
    got = Counter(tok(v) for v in obs.values)
    extra = got - emitted
    if extra:
        raise Violation("extra-values", f"{what}: delivered but not emitted {dict(extra)}; saw {obs.text()}")
    if t_err is None:
        missing = emitted - got
    else:
        missing = Counter(tok(r[1]) for r, _ in recs if r[0] == "N" and r[2] < t_err - 1e-9) - got
    if missing:
        raise Violation("lost-values", f"{what}: emitted but not delivered {dict(missing)}; saw {obs.text()}")

    # order: per inner, and by emission time
    when = {}
    for r, i in recs:
        if r[0] == "N":
            when.setdefault(tok(r[1]), []).append((r[2], r[3]))
    last_t = -1.0
    last_seq = {}
    for e in obs.events:
        if e[0] != "N":
            continue
        ts = when.get(tok(e[1]))
        if ts is None or len(ts) != 1:
            continue
        t, seq = ts[0]
        if t < last_t - 1e-9:
            raise Violation("time-order", f"{what}: {tok(e[1])} emitted at {t:g} delivered after a value emitted at {last_t:g}; saw {obs.text()}")
        last_t = max(last_t, t)
        i = e[1][0]
        if seq < last_seq.get(i, -1):
            raise Violation("inner-order", f"{what}: values of inner {i} reordered; saw {obs.text()}")
        last_seq[i] = seq
        if fast and abs(e[2] - t) > 1e-6:
            raise Violation("withheld", f"{what}: {tok(e[1])} emitted at {t:g} delivered at {e[2]:g}")
    for i, vals in s.libs.items():
        if arr[i] == 1:
            mine = [v for v in obs.values if v[0] == i]
            if mine != vals[: len(mine)]:
                raise Violation("inner-order", f"{what}: values of inner {i} reordered; saw {obs.text()}")

    # termination
    term = obs.terminal
    if t_err is not None:
        env.probe("error")
        if term is None or term[0] != "E" or not any(term[1] is x and abs(t - t_err) < 1e-9 for t, x in errs):
            raise Violation("wrong-terminal", f"{what}: input failed at t={t_err:g}; saw {obs.text()}")
        if fast and abs(term[2] - t_err) > 1e-6:
            raise Violation("late-error", f"{what}: input failed at t={t_err:g}; saw {obs.text()}")
        return
    ends = []
    all_done = arr == arrived
    if outer is not None:
        c = [r[2] for r in outer if r[0] == "C"]
        all_done = bool(c)
        ends += c
    t_out = max(ends, default=0.0)
    last_item = max([r[2] for r in outer or [] if r[0] == "N"], default=0.0)
    t_in = 0.0
    for src in s.srcs.values():
        for sub in src.subs:
            c = [r[2] for r in src.sent if r[0] == "C" and r[5] == sub.k]
            if c:
                t_in = max(t_in, c[0])
            else:
                all_done = False
    if len(s.srcs) > 1:
        env.probe("concurrent_inners")
    if s.libs:
        env.probe("empty_inner")
    if not all_done:
        env.probe("unfinished")
        if term is not None:
            raise Violation("early-completion", f"{what}: terminated although not all inputs completed; saw {obs.text()}")
        return
    if term is None:
        raise Violation("never-completed", f"{what}: all inputs completed; saw {obs.text()}")
    if term[0] != "C":
        raise Violation("wrong-terminal", f"{what}: all inputs completed; saw {obs.text()}")
    env.probe("completed")
    env.probe("outer_last" if t_out > t_in else "inner_last")
    expect = max(t_out, t_in)
    if not any(sc["pz"]) and fast and abs(term[2] - expect) > 1e-6:
        raise Violation("completion-time", f"{what}: last input ended at {expect:g}, completed at {term[2]:g}; last outer item {last_item:g}")


def _index(s, x):
    for i, o in enumerate(s.inners):
        if o is x:
            return i
    return None
