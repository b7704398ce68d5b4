"""C21: pushed items apply back-pressure through per-item operators."""
import aioreactive as rx

from .. import kit, ops
from ..core import Violation
from ..kit import Obs, Src, dec, pause, same, tok

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
PROBES = ["several_observers", "slow_observer", "slow_function", "concurrent_producers", "single_subject", "custom_source", "filtered_out", "catch", "terminal", "tick_source"]
NAMES = [n for n in ops.PASS]


def gen(rng, idx, tier):
    nobs = rng.choice([1, 1, 2, 3])
    fstyle = rng.choice(["none", "yield", "sleep", "mixed"])
    kind = rng.choice(["subject", "subject", "subject", "single", "src", "aiter", "interval"])
    if kind in ("single", "aiter", "interval"):
        nobs = 1
    conc = kind in ("subject", "src") and rng.random() < 0.25
    names = [n for n in NAMES if not (conc and n.startswith("scan"))]
    obs = []
    for _ in range(nobs):
        chain = [] if rng.random() < 0.1 else ops.gen_chain(rng, names, 6, 4, fstyle)
        for o in chain:
            if rng.random() < 0.25:
                o["ch"] = 1
            if o["op"] in ops.ASYNC:
                o["pz"] = [kit.gen_pause(rng, fstyle) for _ in range(8)]
        ostyle = rng.choice(["yield", "sleep", "mixed", "mixed", "none"])
        obs.append({"chain": chain, "catch": rng.choice([-1, -1, 0, 1, 2]), "opz": [kit.gen_pause(rng, ostyle) for _ in range(12)] if ostyle != "none" else [], "form": rng.choice(kit.FORMS)})
    sc = {"kind": kind, "obs": obs, "prods": []}
    pstyle = kit.gen_style(rng)
    for p in range(rng.choice([2, 3]) if conc else 1):
        sc["prods"].append([[kit.gen_pause(rng, pstyle), [p, i, v]] for i, v in enumerate(kit.gen_values(rng, rng.choice([1, 2, 3, 5, 8])))])
    sc["term"] = kit.term_ev(rng)
    if kind == "interval":
        sc["period"] = rng.choice([0.125, 0.5, 1.0])
        sc["horizon"] = 12.0
    return sc


def valid(sc):
    return bool(sc["obs"]) and bool(sc["prods"]) and all(len(e) == 2 for p in sc["prods"] for e in p)


async def start(env, sc):
    env.obs = []
    env.sends = []
    env.ended = None
    kind = sc["kind"]
    if kind == "subject":
        xs = rx.AsyncSubject()
    elif kind == "single":
        xs = rx.AsyncSingleSubject()
    elif kind == "src":
        xs = Src(env, "s")
    elif kind == "aiter":

        async def agen():
            # the next item is pulled only once the previous one has been handled
            for p, v in sc["prods"][0]:
                await pause(env, p)
                rec = note(dec(v))
                yield rec[0]
                finish(rec)

        xs = rx.from_async_iterable(agen())
    else:
        xs = rx.interval(env.T(sc["period"]), env.T(sc["period"]))

    def note(v):
        rec = [v, env.log("send", tok(v)), None, env.now]
        env.sends.append(rec)
        return rec

    def finish(rec):
        rec[2] = env.log("sent", tok(rec[0]))
        for o in env.obs:
            rec.append((len(o.events), o.busy))

    for i, spec in enumerate(sc["obs"]):
        o = Obs(env, f"o{i}", pauses=spec["opz"])
        o.spec = spec
        env.obs.append(o)
        ys = xs
        for j, op in enumerate(spec["chain"]):
            if spec["catch"] == j:
                ys = rx.pipe(ys, rx.catch(lambda ex: rx.empty()))
            ys = ops.build(env, op, chain=bool(op.get("ch")))(ys)
        if spec["catch"] >= len(spec["chain"]):
            ys = rx.pipe(ys, rx.catch(lambda ex: rx.empty()))
        await kit.subscribe(o, ys, spec["form"])
    await env.settle()

    async def producer(script, last):
        for p, v in script:
            await pause(env, p)
            v = dec(v)
            rec = note(v)
            if kind == "src":
                await xs.emit("N", v)
            else:
                await xs.asend(v)
            finish(rec)

    if kind in ("subject", "single", "src"):
        ts = [env.spawn(producer(s, None), f"p{i}") for i, s in enumerate(sc["prods"])]
        for t in ts:
            await t
        if sc["term"]:
            k, e = sc["term"]
            e = env.errors_of(e) if k == "E" else None
            if kind == "src":
                await xs.emit(k, e)
            else:
                await (xs.athrow(e) if k == "E" else xs.aclose())
            env.ended = [(o.terminal is not None, o.busy) for o in env.obs]
            env.log("ended")
            env.probe("terminal")


def check(env, sc):
    conc = len(sc["prods"]) > 1
    if conc:
        env.probe("concurrent_producers")
    if len(env.obs) > 1:
        env.probe("several_observers")
    env.probe({"single": "single_subject", "src": "custom_source", "interval": "tick_source"}.get(sc["kind"], "several_observers" if len(env.obs) > 1 else "slow_observer"))
    if sc["kind"] == "interval":
        # ticks: the next one comes a full period after the previous was handled completely
        for o in env.obs:
            if o.overlaps:
                raise Violation("overlap", f"tick {o.overlaps[0]} while the previous one was being handled")
        return
    desc = [ops.describe(o.spec["chain"]) for o in env.obs]
    for rec in env.sends:
        if rec[2] is None:
            raise Violation("stuck", f"send of {tok(rec[0])} never returned; {desc}")
    if sc["term"] and sc["kind"] in ("subject", "single", "src"):
        if env.ended is None:
            raise Violation("stuck", f"the terminal send never returned; {desc}")
        for i, (seen, busy) in enumerate(env.ended):
            if not seen or busy:
                raise Violation("returned-early", f"the terminal send {sc['term']} returned before {env.obs[i].name} ({desc[i]}) had {'finished handling' if seen else 'received'} it; saw {env.obs[i].text()}")
    for i, o in enumerate(env.obs):
        spec = o.spec
        if spec["catch"] >= 0:
            env.probe("catch")
        if any(spec["opz"]):
            env.probe("slow_observer")
        if any(any(c.get("pz") or []) for c in spec["chain"]):
            env.probe("slow_function")
        vals = []
        for n, rec in enumerate(env.sends):
            v, b, e = rec[0], rec[1], rec[2]
            if conc:
                out, _ = ops.model_chain(spec["chain"], [v], None)
                if not out:
                    env.probe("filtered_out")
                    continue
                m = [x for x in o.events if x[0] == "N" and same(x[1], out[0])]
                if not m or m[0][4] < b or m[0][5] is None or m[0][5] > e:
                    raise Violation("returned-early", f"send of {tok(v)} returned before {o.name} ({desc[i]}) had handled it; saw {o.text()}")
                continue
            vals.append(v)
            out, _ = ops.model_chain(spec["chain"], vals, None)
            cnt, busy = rec[4 + i]
            nv = cnt
            if nv < len(out) or busy:
                raise Violation("returned-early", f"send {n} of {tok(v)} returned when {o.name} ({desc[i]}) had begun {nv} of {len(out)} values and was {'still busy' if busy else 'idle'}; saw {o.text()}")
            if nv > len(out):
                raise Violation("spurious", f"{o.name} ({desc[i]}) had {nv} events after {n + 1} sends, expected {len(out)}; saw {o.text()}")
        if not conc:
            out, _ = ops.model_chain(spec["chain"], vals, None)
            got = o.values
            if len(out) < len(vals):
                env.probe("filtered_out")
            if len(got) != len(out) or not all(same(a, b) for a, b in zip(got, out)):
                raise Violation("wrong-order", f"{o.name} ({desc[i]}): expected {[tok(x) for x in out]}; saw {o.text()}")
    env.nontrivial = bool(env.sends)
