"""C10: combine_latest and with_latest_from against a two-register model."""
import aioreactive as rx
from aioreactive import AsyncRx

from .. import kit
from ..core import Violation
from ..kit import Obs, Src, pause, same, tok

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
PROBES = ["combine_latest", "with_latest_from", "racy", "exact", "completed", "error", "no_terminal", "during", "slow_observer", "falsy_items", "both_sides_paired"]


def gen(rng, idx, tier):
    op = ["combine_latest", "with_latest_from"][idx % 2]
    racy = rng.random() < 0.35
    n = rng.choice([0, 1, 2, 3, 4, 5, 6, 8]) if racy else kit.tail(rng, rng.choice([0, 1, 2, 3, 4, 5, 6, 8]), 12, 60)
    vals = kit.gen_values(rng, n)
    sc = {"op": op, "ch": rng.randrange(2), "racy": int(racy), "form": rng.choice(kit.FORMS)}
    if racy:
        sa, sb = kit.gen_style(rng), kit.gen_style(rng)
        na = rng.randrange(n + 1)
        sc["a"] = [[kit.gen_pause(rng, sa), "N", v] for v in vals[:na]]
        sc["b"] = [[kit.gen_pause(rng, sb), "N", v] for v in vals[na:]]
        sc["end"] = [[rng.choice("ab"), *(rng.choice([["C", None], ["C", None], ["E", kit.gen_err(rng)]]))] for _ in range(rng.choice([0, 1, 2]))]
        if len(sc["end"]) == 2 and sc["end"][0][0] == sc["end"][1][0]:
            sc["end"].pop()
    else:
        ev = [[rng.choice("ab"), "N", v] for v in vals]
        pa, pb = rng.choice([(1, 0), (1, 0.5), (0.5, 1), (0, 0)])
        for who, p in (("a", pa), ("b", pb)):
            if rng.random() < p:
                t = ["E", kit.gen_err(rng)] if rng.random() < 0.25 else ["C", None]
                ev.insert(rng.randrange(len(ev) // 2, len(ev) + 1) if rng.random() < 0.5 else len(ev), [who, *t])
        # nothing of an input after its own end
        out, ended = [], set()
        for e in ev:
            if e[0] not in ended:
                out.append(e)
                if e[1] != "N":
                    ended.add(e[0])
        sc["ev"] = [[rng.choice([["settle"], ["settle"], 0.125, 0.5, 1.0]), *e] for e in out]
        if rng.random() < 0.2:
            sc["during"] = rng.choice("ab")
            sc["pre"] = kit.gen_values(rng, rng.randrange(1, 4))
    ostyle = rng.choice(["none", "none", "yield", "sleep", "mixed"])
    sc["opz"] = [kit.gen_pause(rng, ostyle) for _ in range(12)] if ostyle != "none" else []
    for who in "ab":
        sc["sp" + who] = rng.choice([0, 0, 1, 2])
        sc["dp" + who] = rng.choice([0, 0, 1, 2])
    return sc


def valid(sc):
    if not sc["racy"]:
        if any(len(e) != 4 or e[1] not in ("a", "b") or e[2] not in ("N", "C", "E") or not e[0] for e in sc["ev"]):
            return False
    else:
        for w in ("a", "b"):
            if any(len(e) != 3 or e[1] != "N" for e in sc[w]):
                return False
        if any(len(e) != 3 for e in sc["end"]):
            return False
    return True


async def start(env, sc):
    pre = {sc["during"]: [[0, "N", v] for v in sc["pre"]]} if "during" in sc else {}
    env.a = a = Src(env, "a", during=pre.get("a"), sub_pause=sc["spa"], disp_pause=sc["dpa"])
    env.b = b = Src(env, "b", during=pre.get("b"), sub_pause=sc["spb"], disp_pause=sc["dpb"])
    env.obs = Obs(env, pauses=sc["opz"])
    xs = getattr(AsyncRx(a), sc["op"])(b) if sc["ch"] else rx.pipe(a, getattr(rx, sc["op"])(b))
    await kit.subscribe(env.obs, xs, sc["form"])
    await env.settle()
    src = {"a": a, "b": b}
    if sc["racy"]:
        t1 = env.spawn(kit.produce(env, a, sc["a"]), "pa")
        t2 = env.spawn(kit.produce(env, b, sc["b"]), "pb")
        await t1
        await t2
        for who, k, v in sc["end"]:
            await pause(env, 1.0)
            await src[who].emit(k, v)
    else:
        for p, who, k, v in sc["ev"]:
            await pause(env, p)
            await src[who].emit(k, v)


def model(op, ev, stop_at_first_completion):
    """ev: list of (who, kind, value, t).  -> (pairs with times, terminal, terminal time)"""
    reg = {}
    out = []
    done = set()
    for who, k, v, t in ev:
        if k == "N":
            reg[who] = v
            if len(reg) == 2 and (op == "combine_latest" or who == "a"):
                out.append(((reg["a"], reg["b"]), t))
        elif k == "E":
            return out, ("E", v), t
        else:
            done.add(who)
            if stop_at_first_completion or len(done) == 2 or (op == "with_latest_from" and who == "a"):
                return out, "C", t
    return out, None, None


def fits(obs, m, fast):
    pairs, term, t = m
    got = [e for e in obs.events if e[0] == "N"]
    if len(got) != len(pairs):
        return f"expected {len(pairs)} pairs [{', '.join(tok(p) for p, _ in pairs)}]"
    for e, (p, pt) in zip(got, pairs):
        if not (isinstance(e[1], tuple) and len(e[1]) == 2 and same(e[1][0], p[0]) and same(e[1][1], p[1])):
            return f"expected {tok(p)} got {tok(e[1])}"
        if fast and abs(e[2] - pt) > 1e-6:
            return f"{tok(p)} due at t={pt:g}, delivered at t={e[2]:g}"
    x = obs.terminal
    if term is None:
        return None if x is None else "no terminal event expected"
    if x is None:
        return f"terminal {term} expected"
    if term == "C":
        ok = x[0] == "C"
    else:
        ok = x[0] == "E" and x[1] is term[1]
    if not ok:
        return f"terminal {term} expected"
    if fast and abs(x[2] - t) > 1e-6:
        return f"terminal due at t={t:g}"
    return None


def check(env, sc):
    obs, op = env.obs, sc["op"]
    fast = not any(sc["opz"])
    kit.check_grammar(obs)
    env.probe(op)
    env.probe("racy" if sc["racy"] else "exact")
    if env.faults.get("emit_during_subscribe"):
        env.probe("during")
    if not fast:
        env.probe("slow_observer")
    recs = sorted([("a", r[0], r[1], r[2], r[3]) for r in env.a.sent] + [("b", r[0], r[1], r[2], r[3]) for r in env.b.sent], key=lambda r: r[4])
    if any(kit.falsy(r[2]) for r in recs if r[1] == "N"):
        env.probe("falsy_items")
    x = obs.terminal
    env.probe("no_terminal" if x is None else "completed" if x[0] == "C" else "error")
    env.nontrivial = len(recs) > 1
    if sum(1 for r in recs if r[0] == "a" and r[1] == "N") > 1 and sum(1 for r in recs if r[0] == "b" and r[1] == "N") > 1:
        env.probe("both_sides_paired")
    ev = [r[:4] for r in recs]
    if not sc["racy"]:
        errs = [fits(obs, model(op, ev, first), fast) for first in (True, False)]
        if all(errs):
            raise Violation("wrong-pairs", f"{op}: {errs[0]}; inputs {[(r[0], r[1], tok(r[2]), r[3]) for r in recs]}; saw {obs.text()}")
        return
    # racy: any order of the two inputs that respects each input and time
    a = [r for r in recs if r[0] == "a" and r[1] == "N"]
    b = [r for r in recs if r[0] == "b" and r[1] == "N"]
    got = obs.values
    states = {(0, 0, 0)}
    seen = set(states)
    while states:
        new = set()
        for i, j, k in states:
            for who in "ab":
                if who == "a":
                    if i == len(a) or (j < len(b) and b[j][3] < a[i][3] - 1e-9):
                        continue
                    ni, nj = i + 1, j
                    emits = j > 0
                else:
                    if j == len(b) or (i < len(a) and a[i][3] < b[j][3] - 1e-9):
                        continue
                    ni, nj = i, j + 1
                    emits = i > 0 and op == "combine_latest"
                nk = k
                if emits:
                    if k == len(got) or not (isinstance(got[k], tuple) and len(got[k]) == 2 and same(got[k][0], a[ni - 1][2]) and same(got[k][1], b[nj - 1][2])):
                        continue
                    nk = k + 1
                s = (ni, nj, nk)
                if s not in seen:
                    seen.add(s)
                    new.add(s)
        states = new
    if (len(a), len(b), len(got)) not in seen:
        raise Violation("wrong-pairs", f"{op}: no interleaving of the inputs gives these pairs; inputs {[(r[0], r[1], tok(r[2]), r[3]) for r in recs]}; saw {obs.text()}")
    tail = [r[:4] for r in recs if r[1] != "N"]
    terms = [model(op, tail, f)[1] for f in (True, False)]
    if not any((t is None and x is None) or (x is not None and (t == "C" if x[0] == "C" else (t not in (None, "C") and t[1] is x[1]))) for t in terms):
        raise Violation("wrong-terminal", f"{op}: inputs ended {tail}; saw {obs.text()}")
