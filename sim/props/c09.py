"""C09: switch_latest follows only the newest inner stream."""
from .. import flat, kit
from ..core import Violation
from ..kit import Obs, tok
from . import c07

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
OPS = ["switch_latest", "switch_latest", "flat_map_latest", "flat_map_latest_async", "flat_map_latest_async_m"]
PROBES = ["switched_while_active", "stale_emission", "stale_error", "stale_completion", "completed_inner_last", "completed_outer_last", "error", "unfinished", "slow_observer", "emit_during_subscribe", "burst"]
INF = float("inf")


def gen(rng, idx, tier):
    op = OPS[idx % len(OPS)]
    style = rng.choice(["none", "yield", "yield", "sleep", "sleep", "mixed"])
    k = kit.tail(rng, rng.choice([0, 1, 2, 2, 3, 3, 4, 6]), 8, 20)
    p_err = rng.choice([0, 0, 0.1, 0.3])
    p_never = rng.choice([0, 0, 0.15])
    kinds = rng.choice([["cold"], ["cold", "hot"], ["cold", "cold", "during", "hot", "hot", "single", "empty", "iter"]])
    inners = [flat.gen_inner(rng, i, rng.choice([style, kit.gen_style(rng)]), kinds, p_err, p_never, 6) for i in range(k)]
    for s in inners:
        if s["kind"] in ("cold", "hot") and rng.random() < 0.35:
            s["rude"] = 1
    ostyle = rng.choice(["none", "none", "yield", "sleep", "mixed"])
    return {
        "op": op,
        "inners": inners,
        "outer": flat.gen_outer(rng, k, rng.choice([style, style, "none"]), p_err / 2, p_never),
        "pz": [kit.gen_pause(rng, kit.gen_style(rng)) for _ in range(k)] if "async" in op else [],
        "form": rng.choice(kit.FORMS),
        "lead": rng.choice([["settle"], ["settle"], 0, 1, 3]),
        "opz": [kit.gen_pause(rng, ostyle) for _ in range(12)] if ostyle != "none" else [],
    }


valid = flat.valid


async def start(env, sc):
    env.obs = Obs(env, pauses=sc["opz"])
    env.scene = flat.Scene(env, sc)
    await env.scene.start(env.obs)


def check(env, sc):
    s, obs = env.scene, env.obs
    what = sc["op"]
    fast = not any(sc["opz"])
    kit.check_grammar(obs)
    outer = s.outer.sent
    arr = [(r, r[1] if "map" in what else c07._index(s, r[1])) for r in outer if r[0] == "N"]
    if not fast:
        env.probe("slow_observer")
    if env.faults.get("emit_during_subscribe"):
        env.probe("emit_during_subscribe")
    env.nontrivial = bool(arr)
    term = obs.terminal
    t_term = term[2] if term else INF

    # per arrival: (t, outer record, index, sub or None)
    items = []
    for r, i in arr:
        sub = None
        if i in s.srcs:
            src = s.srcs[i]
            if len(src.subs) > 1:
                raise Violation("inner-subscriptions", f"{what}: inner {i} subscribed {len(src.subs)} times")
            sub = src.subs[0] if src.subs else None
        items.append((r, i, sub))
    seqs = [sub.sub_seq for _, _, sub in items if sub]
    if seqs != sorted(seqs):
        raise Violation("switch-order", f"{what}: inner streams subscribed out of order")

    possible, definite = [], []  # (time, error)
    required, allowed, when = [], set(), {}
    for m, (r, i, sub) in enumerate(items):
        nxt_r = items[m + 1][0] if m + 1 < len(items) else None
        nxt_sub = next((x[2] for x in items[m + 1 :] if x[2]), None)
        direct = items[m + 1][2] if m + 1 < len(items) else None
        if nxt_r is not None and abs(nxt_r[2] - r[2]) < 1e-9:
            env.probe("burst")
        if i in s.libs:
            for v in s.libs[i]:
                allowed.add(tok(v))
                if nxt_r is None or (nxt_r[2] > r[2] + 1e-9 and not any(sc["pz"])):
                    required.append((v, INF if any(sc["pz"]) else r[2], True))
            continue
        if sub is None:
            continue
        # the instant up to which this stream certainly is the newest
        safe_seq = nxt_r[3] if nxt_r is not None else INF
        safe_t = direct.sub_t if direct else (nxt_r[2] if nxt_r is not None else INF)
        stale_seq = min(nxt_sub.sub_seq, INF if sub.disp_seq is None else sub.disp_seq) if nxt_sub else INF
        if nxt_sub and not sub.done and sub.active:
            raise Violation("not-disposed", f"{what}: inner {i} still subscribed after a newer stream was subscribed at t={nxt_sub.sub_t:g}")
        if nxt_sub and sub.disp_seq is not None:
            env.probe("switched_while_active")
            if sub.disp_t > nxt_sub.sub_t + 1e-6:
                raise Violation("late-dispose", f"{what}: inner {i} disposed at t={sub.disp_t:g}, newer stream subscribed at t={nxt_sub.sub_t:g}")
        for q in s.srcs[i].sent:
            if q[5] != sub.k:
                continue
            sure = (q[4] is not None and q[4] < safe_seq) or q[2] < safe_t - 1e-9
            stale = q[3] > stale_seq
            if q[0] == "N":
                if stale:
                    env.probe("stale_emission")
                else:
                    allowed.add(tok(q[1]))
                    when[tok(q[1])] = (q[2], q[3])
                    if sure:
                        required.append((q[1], q[2], False))
            elif q[0] == "E":
                if stale:
                    env.probe("stale_error")
                else:
                    possible.append((q[2], q[1]))
                    if sure:
                        definite.append((q[2], q[1]))
            elif stale:
                env.probe("stale_completion")
    for r in outer:
        if r[0] == "E":
            definite.append((r[2], r[1]))
            possible.append((r[2], r[1]))
    t_def = min((t for t, _ in definite), default=INF)

    # values
    got = [tok(v) for v in obs.values]
    for v in got:
        if v not in allowed:
            raise Violation("stale-value", f"{what}: {v} delivered although its stream was no longer the newest; saw {obs.text()}")
    if len(set(got)) != len(got):
        raise Violation("duplicate-value", f"{what}: saw {obs.text()}")
    t_stop = min((t for t, _ in possible), default=INF)
    for v, t, lib in required:
        if (t_stop == INF or t < t_stop - 1e-9) and tok(v) not in got:
            raise Violation("lost-value", f"{what}: {tok(v)} emitted at t={t:g} by the newest stream was not delivered; saw {obs.text()}")
    last = (-1, -1)
    for e in obs.events:
        if e[0] == "N" and tok(e[1]) in when:
            w = when[tok(e[1])]
            if w[1] < last[1]:
                raise Violation("order", f"{what}: {tok(e[1])} delivered out of order; saw {obs.text()}")
            last = w
            if fast and abs(w[0] - e[2]) > 1e-6:
                raise Violation("withheld", f"{what}: {tok(e[1])} emitted at t={w[0]:g}, delivered at t={e[2]:g}")

    # termination
    if term is not None and term[0] == "E":
        env.probe("error")
        if not any(term[1] is x for _, x in possible):
            raise Violation("stale-error", f"{what}: error {tok(term[1])} of a stream that was not the newest; saw {obs.text()}")
        if fast and not any(term[1] is x and abs(t - term[2]) < 1e-6 for t, x in possible):
            raise Violation("late-error", f"{what}: saw {obs.text()}")
        return
    if t_def < INF:
        raise Violation("error-lost", f"{what}: the newest stream or the outer failed at t={t_def:g}; saw {obs.text()}")
    outer_done = [r[2] for r in outer if r[0] == "C"]
    done_t = 0.0
    inner_done = True
    if items:
        r, i, sub = items[-1]
        if i in s.libs:
            done_t = r[2]
        elif sub is None:
            if term is None or t_term > r[2] + 1e-9:
                raise Violation("not-subscribed", f"{what}: newest stream {i} was never subscribed")
            inner_done = False
        else:
            c = [q[2] for q in s.srcs[i].sent if q[0] == "C" and q[5] == sub.k]
            inner_done = bool(c)
            done_t = c[0] if c else 0.0
    if outer_done and inner_done:
        if term is None:
            raise Violation("never-completed", f"{what}: outer and newest stream completed; saw {obs.text()}")
        env.probe("completed_outer_last" if outer_done[0] > done_t else "completed_inner_last")
        expect = max(outer_done[0], done_t)
        if fast and not any(sc["pz"]) and abs(term[2] - expect) > 1e-6:
            raise Violation("completion-time", f"{what}: outer and newest stream completed at t={expect:g}; saw {obs.text()}")
    else:
        env.probe("unfinished")
        if term is not None:
            raise Violation("early-completion", f"{what}: completed although {'the newest stream' if outer_done else 'the outer stream'} has not; saw {obs.text()}")
