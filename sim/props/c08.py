"""C08: concat runs sources one after another; merge_inner(n) never exceeds n."""
from collections import Counter

from .. import flat, kit
from ..core import Violation
from ..kit import Obs, tok
from . import c07

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
OPS = ["concat", "concat_m", "concat_seq", "concat_map", "merge_inner", "merge_inner", "merge_inner"]
PROBES = ["waited_for_slot", "limit_reached", "n>1", "completed", "error", "unfinished", "emit_during_subscribe", "slow_observer", "started_from_queue_after_outer_end"]


def gen(rng, idx, tier):
    op = OPS[idx % len(OPS)]
    style = kit.gen_style(rng)
    k = 2 if op in ("concat", "concat_m") else kit.tail(rng, rng.choice([0, 1, 2, 3, 3, 4, 5, 8]), 9, 30)
    p_err = rng.choice([0, 0, 0, 0.15])
    p_never = rng.choice([0, 0, 0, 0.12])
    kinds = rng.choice([["cold"], ["cold", "cold", "cold", "during", "hot", "single", "empty", "iter"]])
    inners = [flat.gen_inner(rng, i, kit.gen_style(rng) if rng.random() < 0.5 else style, kinds, p_err, p_never) for i in range(k)]
    order = list(range(k))
    if k and rng.random() < 0.1 and op in ("concat_map", "merge_inner"):
        order = [rng.randrange(k) for _ in range(rng.randrange(1, k + 2))]
    ostyle = rng.choice(["none", "none", "yield", "sleep", "mixed"])
    return {
        "op": op,
        "n": rng.choice([1, 1, 2, 2, 3, 4, 7]) if k < 9 and op == "merge_inner" else rng.randrange(1, 12) if op == "merge_inner" else 1,
        "inners": inners,
        "outer": flat.gen_outer(rng, k, rng.choice([style, "none"]), p_err / 2, p_never, order),
        "pz": [],
        "form": rng.choice(kit.FORMS),
        "lead": rng.choice([["settle"], ["settle"], 0, 1, 3]),
        "opz": [kit.gen_pause(rng, ostyle) for _ in range(12)] if ostyle != "none" else [],
    }


def valid(sc):
    return flat.valid(sc) and (sc["n"] >= 1)


async def start(env, sc):
    env.obs = Obs(env, pauses=sc["opz"])
    env.scene = flat.Scene(env, sc)
    await env.scene.start(env.obs)


def check(env, sc):
    s, obs = env.scene, env.obs
    n = sc["n"]
    what = f"{sc['op']}({n})"
    arr = c07.arrivals(s, sc)
    outer = s.outer_recs()
    errs = [r[2] for src in s.srcs.values() for r in src.sent if r[0] == "E"] + [r[2] for r in (outer or []) if r[0] == "E"]
    t_err = min(errs, default=float("inf"))

    # never more than n at a time, judged at every subscribe
    spans = []
    for i, src in s.srcs.items():
        for sub in src.subs:
            c = [r[3] for r in src.sent if r[0] in "CE" and r[5] == sub.k]
            ends = [x for x in (c[0] if c else None, sub.disp_seq) if x is not None]
            spans.append((sub.sub_seq, min(ends) if ends else float("inf"), i))
    for a, _, i in spans:
        live = sum(1 for b, e, _ in spans if b <= a < e)
        if live > n:
            raise Violation("limit-exceeded", f"{what}: {live} inner streams subscribed at once when inner {i} was subscribed")
        if live == n:
            env.probe("limit_reached")
    if n > 1:
        env.probe("n>1")

    # first come, first served, as soon as a slot is free
    subs_left = {i: list(src.subs) for i, src in s.srcs.items()}
    ends, prev = [], 0.0
    started = Counter()
    last_seq = -1
    t_outer_end = [r[2] for r in outer or [] if r[0] == "C"]
    for m, (t, i) in enumerate(arr):
        free = sorted(ends)[m - n] if m >= n else 0.0
        start = max(t, prev, free)
        prev = start
        if start == float("inf"):
            ends.append(start)
            continue
        if start > t:
            env.probe("waited_for_slot")
            if t_outer_end and start > t_outer_end[0]:
                env.probe("started_from_queue_after_outer_end")
        if start < t_err - 1e-9:
            started[i] += 1
        if i in s.libs:
            ends.append(start)
            continue
        if start > t_err - 1e-9:
            break
        if not subs_left[i]:
            raise Violation("not-started", f"{what}: inner {i} (arrival {m}) had a free slot at t={start:g} but was not subscribed")
        sub = subs_left[i].pop(0)
        if abs(sub.sub_t - start) > 1e-6:
            raise Violation("start-time", f"{what}: inner {i} (arrival {m}) had a free slot at t={start:g}, subscribed at t={sub.sub_t:g}")
        if sub.sub_seq < last_seq:
            raise Violation("start-order", f"{what}: inner {i} (arrival {m}) was subscribed before an earlier arrival")
        last_seq = sub.sub_seq
        c = [r[2] for r in s.srcs[i].sent if r[0] == "C" and r[5] == sub.k]
        ends.append(c[0] if c else float("inf"))
    if t_err == float("inf"):
        extra = {i: len(v) for i, v in subs_left.items() if v}
        if extra:
            raise Violation("inner-subscriptions", f"{what}: unexpected extra subscriptions {extra}")

    # with one slot the result is the concatenation
    if n == 1 and t_err == float("inf"):
        want = []
        k = Counter()
        for t, i in arr:
            if started[i] <= k[i]:
                break
            if i in s.libs:
                want += s.libs[i]
            else:
                want += [r[1] for r in s.srcs[i].sent if r[0] == "N" and r[5] == k[i]]
            k[i] += 1
        if [tok(v) for v in obs.values] != [tok(v) for v in want]:
            raise Violation("not-concatenation", f"{what}: expected {[tok(v) for v in want]}, saw {obs.text()}")
    c07.check_merge(env, sc, started if t_err == float("inf") else Counter(i for _, i in arr))
