"""C29: cancelling a sender cancels that send only."""
import asyncio
import itertools

import aioreactive as rx

from .. import kit, ops
from ..core import Violation
from ..kit import Obs, Src, dec, pause, same, tok

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
PROBES = ["cancelled", "timed_out", "cut_observer", "cut_function", "dropped", "delivered_anyway", "before_start", "several_cancelled", "several_observers", "concurrent", "queueing", "stateful", "terminal", "single", "src", "subject", "waiting_single"]
WRAPS = {
    "merge": lambda xs: rx.pipe(xs, rx.merge(rx.empty())),
    "concat": lambda xs: rx.pipe(xs, rx.concat(rx.empty())),
    "delay": lambda xs: rx.pipe(xs, rx.delay(0)),
    "catch": lambda xs: rx.pipe(xs, rx.catch(lambda ex: rx.empty())),
    "take_until": lambda xs: rx.pipe(xs, rx.take_until(rx.never())),
}
STATELESS = [n for n in ops.PASS if not n.startswith("scan")]
NAMES = ops.PASS + ["scan", "scan_async", "mapi", "mapi_async", "filteri", "skip", "skip_last", "distinct", "identity"]


def gen(rng, idx, tier):
    kind = rng.choice(["subject", "subject", "single", "src"])
    conc = kind != "single" and rng.random() < 0.2
    nobs = 1 if kind == "single" else rng.choice([1, 1, 1, 2, 3])
    fstyle = rng.choice(["none", "yield", "sleep", "mixed"])
    names = STATELESS if conc else NAMES
    n = rng.choice([1, 2, 3, 4, 6])
    obs = []
    for _ in range(nobs):
        chain = [] if rng.random() < 0.1 else ops.gen_chain(rng, names, n, 4, fstyle)
        for o in chain:
            if rng.random() < 0.25:
                o["ch"] = 1
            if o["op"] in ops.ASYNC:
                o["pz"] = [kit.gen_pause(rng, fstyle) for _ in range(8)]
        while rng.random() < 0.3:
            chain.insert(rng.randrange(len(chain) + 1), {"op": "wrap", "w": rng.choice(sorted(WRAPS))})
        ostyle = rng.choice(["yield", "sleep", "mixed", "mixed", "none"])
        obs.append({"chain": chain, "opz": [kit.gen_pause(rng, ostyle) for _ in range(12)] if ostyle != "none" else [], "form": rng.choice(kit.FORMS)})
    pstyle = kit.gen_style(rng)
    prods = []
    for p in range(rng.choice([2, 3]) if conc else 1):
        s = []
        for i, v in enumerate(kit.gen_values(rng, n)):
            c = None
            if rng.random() < 0.4:
                c = ["timeout", rng.choice([0, 0.0625, 0.125, 0.25, 0.5, 1.5])] if rng.random() < 0.25 else ["cancel", rng.choice([0, 1, 2, 3, 5, kit.gen_pause(rng, "mixed"), 0.0625, 0.1875])]
            s.append([kit.gen_pause(rng, pstyle), [p, i, v] if rng.random() < 0.7 else v, c])
        prods.append(s)
    if conc:
        for p, s in enumerate(prods):
            for i, e in enumerate(s):
                e[1] = [p, i, 0]
    cs = [e for s in prods for e in s if e[2]]
    for e in cs[3:]:
        e[2] = None
    if not cs:
        prods[0][rng.randrange(len(prods[0]))][2] = ["cancel", rng.randrange(4)]
    return {"kind": kind, "obs": obs, "prods": prods, "term": kit.term_ev(rng), "late": rng.choice([0, 0, 3, 0.375]) if kind == "single" else 0}


def valid(sc):
    return bool(sc["obs"]) and bool(sc["prods"]) and all(len(e) == 3 and (e[2] is None or len(e[2]) == 2) for p in sc["prods"] for e in p)


async def start(env, sc):
    env.sends = []
    env.done = False
    kind = sc["kind"]
    env.probe(kind)
    xs = rx.AsyncSubject() if kind == "subject" else rx.AsyncSingleSubject() if kind == "single" else Src(env, "s")
    env.obs = []

    async def attach():
        for i, spec in enumerate(sc["obs"]):
            o = Obs(env, f"o{i}", pauses=spec["opz"])
            o.spec = spec
            env.obs.append(o)
            ys = xs
            for op in spec["chain"]:
                ys = WRAPS[op["w"]](ys) if op["op"] == "wrap" else ops.build(env, op, chain=bool(op.get("ch")))(ys)
            await kit.subscribe(o, ys, spec["form"])

    if sc["late"]:

        async def later():
            await pause(env, sc["late"])
            await attach()

        env.spawn(later(), "attach")
        env.probe("waiting_single")
    else:
        await attach()
        await env.settle()

    async def send(v):
        if kind == "src":
            await xs.emit("N", v)
        else:
            await xs.asend(dec(v))

    async def one(v, c, rec):
        if c is not None and c[0] == "timeout":
            env.fault("send_timeout")
            co = asyncio.wait_for(send(v), env.T(c[1]))
        else:
            co = send(v)
        try:
            await co
        except TimeoutError as ex:
            if not c or c[0] != "timeout":
                return ex
            rec[1] = [*c, "over"]
        except Exception as ex:  # noqa: BLE001
            return ex

    async def producer(script):
        for p, v, c in script:
            await pause(env, p)
            rec = [dec(v), c, None, env.log("send", tok(v)), None]
            env.sends.append(rec)
            t = env.spawn(one(v, c, rec), "send")
            if c is not None and c[0] == "cancel":
                await pause(env, c[1])
                if not t.done():
                    if not c[1]:
                        env.probe("before_start")
                    env.fault("send_cancelled")
                    t.cancel()
                    rec[2] = "cancelling"
            await asyncio.wait([t])
            asked = rec[2] is not None
            if t.cancelled():
                rec[2] = "cancelled"
            elif t.result() is not None:
                rec[2] = f"raised {t.result()!r}"
            elif rec[1] and len(rec[1]) == 3:
                rec[2] = "timeout"
            else:
                rec[2] = "swallowed" if asked else "ok"
            rec[4] = env.log("sent", tok(v), rec[2])

    ts = [env.spawn(producer(s), f"p{i}") for i, s in enumerate(sc["prods"])]
    await asyncio.wait(ts)
    if sc["term"]:
        k, e = sc["term"]
        env.term = "C" if k == "C" else ("E", env.errors_of(e))
        if kind == "src":
            await xs.emit(k, None if k == "C" else env.term[1])
        else:
            await (xs.athrow(env.term[1]) if k == "E" else xs.aclose())
        env.probe("terminal")
    env.done = True


def model(op, vals):
    return vals if op["op"] == "wrap" else ops.model(op, vals, None)[0]


def outcome(chain, sends, drops):
    """What comes out if the send numbered i goes no further than level drops[i]."""
    cur = [(i, v) for i, v in enumerate(sends) if drops.get(i) != 0]
    for lev, op in enumerate(chain, 1):
        nxt, n = [], 0
        vals = [v for _, v in cur]
        for k, (i, _) in enumerate(cur):
            out = model(op, vals[: k + 1])
            nxt += [(i, v) for v in out[n:]]
            n = len(out)
        cur = [x for x in nxt if drops.get(x[0]) != lev]
    return [v for _, v in cur]


def eq(a, b):
    return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))


def check(env, sc):
    conc = len(sc["prods"]) > 1
    what = [(tok(r[0]), r[1], r[2]) for r in env.sends]
    desc = ["|".join(c.get("w") or c["op"] for c in o.spec["chain"]) for o in env.obs]
    for r in env.sends:
        if r[4] is None:
            raise Violation("stuck", f"a send of {tok(r[0])} never ended; {desc}; {what}")
        if r[2] == "swallowed":
            raise Violation("swallowed", f"the cancellation of the send of {tok(r[0])} was swallowed; {desc}; {what}; saw {[o.text() for o in env.obs]}")
        if r[2] not in ("ok", "cancelled", "timeout"):
            raise Violation("raised", f"the send of {tok(r[0])} {r[2]}; {desc}; {what}")
        if r[2] == "cancelled" and not (r[1] and r[1][0] == "cancel"):
            raise Violation("cancelled-other", f"the send of {tok(r[0])} was cancelled although nobody asked; {desc}; {what}")
    if not env.done:
        raise Violation("stuck", f"the terminal send never returned; {desc}; {what}")
    gone = [i for i, r in enumerate(env.sends) if r[2] != "ok"]
    if any(env.sends[i][2] == "cancelled" for i in gone):
        env.probe("cancelled")
    if any(env.sends[i][2] == "timeout" for i in gone):
        env.probe("timed_out")
    if len(gone) > 1:
        env.probe("several_cancelled")
    if conc:
        env.probe("concurrent")
    if len(env.obs) > 1:
        env.probe("several_observers")
    env.nontrivial = bool(gone)
    vals = [r[0] for r in env.sends]
    for o, d in zip(env.obs, desc):
        chain = o.spec["chain"]
        if gone and any(c["op"] in ("wrap", "distinct") for c in chain):
            env.probe("queueing")
        if gone and any(c["op"] in ("scan", "scan_async", "mapi", "filteri") for c in chain):
            env.probe("stateful")
        if gone and any(any(c.get("pz") or []) for c in chain):
            env.probe("cut_function")
        if o.cut:
            env.probe("cut_observer")
        kit.check_grammar(o)
        if len(o.cut) > len(gone):
            raise Violation("cancelled-other", f"{o.name} ({d}): {len(o.cut)} of its calls were cancelled for {len(gone)} cancelled sends; {what}; saw {o.text()}")
        got = o.values
        if conc:
            want = {i: outcome(chain, [v], {}) for i, v in enumerate(vals)}
            left = list(got)
            for i, out in want.items():
                m = [k for k, x in enumerate(left) if out and same(x, out[0])]
                if not m and out and i not in gone:
                    raise Violation("lost", f"{o.name} ({d}): {tok(vals[i])} was sent by a task that was not cancelled and did not arrive; {what}; saw {o.text()}")
                if m:
                    del left[m[0]]
            if left:
                raise Violation("spurious", f"{o.name} ({d}): unexpected {[tok(x) for x in left]}; {what}; saw {o.text()}")
        else:
            full = outcome(chain, vals, {})
            if eq(got, full):
                if gone:
                    env.probe("delivered_anyway")
            else:
                for levs in itertools.product([None, *range(len(chain) + 1)], repeat=len(gone)):
                    if eq(got, outcome(chain, vals, dict(zip(gone, levs)))):
                        env.probe("dropped")
                        break
                else:
                    raise Violation("wrong-values", f"{o.name} ({d}): {what}; without cancellation {[tok(x) for x in full]}; saw {o.text()}")
        if sc["term"]:
            kit.check_term(o, "C" if any(c.get("w") == "catch" for c in chain) else env.term, d)
        elif o.terminal is not None:
            raise Violation("ended", f"{o.name} ({d}): ended although the source did not; {what}; saw {o.text()}")
