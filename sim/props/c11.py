"""C11: take_until stops exactly at the other stream's first value."""
import aioreactive as rx
from aioreactive import AsyncRx

from .. import kit
from ..core import Violation
from ..kit import Obs, Src, pause, same, tok
from . import c10

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
PROBES = ["stopped_by_other", "source_completed", "error_source", "error_other", "other_completed_first", "racy", "during", "slow_observer", "unfinished"]


def gen(rng, idx, tier):
    racy = rng.random() < 0.35
    n = kit.tail(rng, rng.choice([0, 1, 2, 3, 4, 5, 8]), 12, 60)
    vals = kit.gen_values(rng, n)
    sc = {"ch": rng.randrange(2), "racy": int(racy), "form": rng.choice(kit.FORMS)}
    oth = [["N", v] for v in kit.gen_values(rng, rng.choice([0, 1, 1, 2, 3]))]
    r = rng.random()
    if r < 0.2:
        oth.append(["E", kit.gen_err(rng)])
    elif r < 0.6:
        oth.append(["C", None])
    src = [["N", v] for v in vals]
    r = rng.random()
    if r < 0.2:
        src.append(["E", kit.gen_err(rng)])
    elif r < 0.7:
        src.append(["C", None])
    if racy:
        sa, sb = kit.gen_style(rng), kit.gen_style(rng)
        sc["a"] = [[kit.gen_pause(rng, sa), *e] for e in src]
        sc["b"] = [[kit.gen_pause(rng, sb), *e] for e in oth]
        sc["end"] = []
    else:
        ev = []
        i = j = 0
        p = rng.choice([0.3, 0.5, 0.8])
        while i < len(src) or j < len(oth):
            if j == len(oth) or (i < len(src) and rng.random() < p):
                ev.append(["a", *src[i]])
                i += 1
            else:
                ev.append(["b", *oth[j]])
                j += 1
        sc["ev"] = [[rng.choice([["settle"], ["settle"], 0.125, 0.5, 1.0]), *e] for e in ev]
        if rng.random() < 0.2:
            sc["during"] = rng.choice("ab")
            sc["pre"] = kit.gen_values(rng, rng.randrange(1, 4))
    ostyle = rng.choice(["none", "none", "yield", "sleep", "mixed"])
    sc["opz"] = [kit.gen_pause(rng, ostyle) for _ in range(12)] if ostyle != "none" else []
    for who in "ab":
        sc["sp" + who] = rng.choice([0, 0, 1, 2])
        sc["dp" + who] = rng.choice([0, 0, 1, 2])
    return sc


def valid(sc):
    if not sc["racy"]:
        return c10.valid(sc)
    return all(len(e) == 3 and e[1] in ("N", "C", "E") for w in "ab" for e in sc[w])


async def start(env, sc):
    pre = {sc["during"]: [[0, "N", v] for v in sc["pre"]]} if "during" in sc else {}
    env.a = a = Src(env, "a", during=pre.get("a"), sub_pause=sc["spa"], disp_pause=sc["dpa"])
    env.b = b = Src(env, "b", during=pre.get("b"), sub_pause=sc["spb"], disp_pause=sc["dpb"])
    env.obs = Obs(env, pauses=sc["opz"])
    xs = AsyncRx(a).take_until(b) if sc["ch"] else rx.pipe(a, rx.take_until(b))
    await kit.subscribe(env.obs, xs, sc["form"])
    await env.settle()
    src = {"a": a, "b": b}
    if sc["racy"]:
        env.spawn(kit.produce(env, a, sc["a"]), "pa")
        env.spawn(kit.produce(env, b, sc["b"]), "pb")
    else:
        for p, who, k, v in sc["ev"]:
            await pause(env, p)
            await src[who].emit(k, v)


def check(env, sc):
    obs = env.obs
    fast = not any(sc["opz"])
    kit.check_grammar(obs)
    if sc["racy"]:
        env.probe("racy")
    if env.faults.get("emit_during_subscribe"):
        env.probe("during")
    if not fast:
        env.probe("slow_observer")
    recs = sorted([("a", r[0], r[1], r[2], r[3]) for r in env.a.sent] + [("b", r[0], r[1], r[2], r[3]) for r in env.b.sent], key=lambda r: r[4])
    env.nontrivial = len(recs) > 1
    shown = [(r[0], r[1], tok(r[2]), r[3]) for r in recs]
    x = obs.terminal
    stops = [r for r in recs if r[1] == "E" or (r[0] == "a" and r[1] == "C") or (r[0] == "b" and r[1] == "N")]
    if not stops:
        env.probe("unfinished")
        if any(r[0] == "b" and r[1] == "C" for r in recs):
            env.probe("other_completed_first")
    if not sc["racy"]:
        out = []
        term = None
        for r in recs:
            if r in stops:
                term = ("E", r[2], r[3]) if r[1] == "E" else ("C", None, r[3])
                env.probe(("error_source" if r[0] == "a" else "error_other") if r[1] == "E" else "source_completed" if r[0] == "a" else "stopped_by_other")
                break
            if r[1] == "N":
                out.append(r)
            elif r[0] == "b":
                env.probe("other_completed_first")
        got = [e for e in obs.events if e[0] == "N"]
        if len(got) != len(out) or not all(same(e[1], r[2]) for e, r in zip(got, out)):
            raise Violation("wrong-values", f"take_until: expected [{', '.join(tok(r[2]) for r in out)}]; inputs {shown}; saw {obs.text()}")
        if fast and any(abs(e[2] - r[3]) > 1e-6 for e, r in zip(got, out)):
            raise Violation("withheld", f"take_until: a value was delivered late; inputs {shown}; saw {obs.text()}")
        if (term is None) != (x is None) or (term and (x[0] != term[0] or (term[0] == "E" and x[1] is not term[1]))):
            raise Violation("wrong-terminal", f"take_until: expected {term}; inputs {shown}; saw {obs.text()}")
        if term and fast and abs(x[2] - term[2]) > 1e-6:
            raise Violation("late-terminal", f"take_until: due at t={term[2]:g}; saw {obs.text()}")
        return
    t_stop = stops[0][3] if stops else float("inf")
    vals = [r for r in recs if r[0] == "a" and r[1] == "N"]
    must = [r for r in vals if r[3] < t_stop - 1e-9]
    may = [r for r in vals if r[3] < t_stop + 1e-9]
    got = obs.values
    if not (len(must) <= len(got) <= len(may)) or not all(same(g, r[2]) for g, r in zip(got, may)):
        raise Violation("wrong-values", f"take_until: inputs {shown}; saw {obs.text()}")
    if (x is None) != (not stops):
        raise Violation("wrong-terminal", f"take_until: inputs {shown}; saw {obs.text()}")
    if x:
        ok = any(abs(r[3] - t_stop) < 1e-9 and ((r[1] == "E" and x[0] == "E" and x[1] is r[2]) or (r[1] != "E" and x[0] == "C")) for r in stops)
        if not ok or (fast and abs(x[2] - t_stop) > 1e-6):
            raise Violation("wrong-terminal", f"take_until: inputs {shown}; saw {obs.text()}")
