"""C20: subscriptions to the same observable do not influence each other."""
import asyncio

import aioreactive as rx
from aioreactive import transform as _transform

from .. import kit, ops, pipe
from ..core import Violation
from ..kit import Obs, Src, pause, tok

QUICK = 60000
THOROUGH = 1000000
PROBES = ["pipeline", "operator_function", "two_operators", "overlapping", "staggered", "disposed", "observer_raised", "slow_observer", "three", "feed", "flat", "merge", "concat", "switch", "comb", "time", "retry", "catch", "op"]
RULE = "The oracle for each observer is a private copy of the same pipeline subscribed at the same simulated moment."

# curried operator functions: built once, applied to several sources
FN = {
    "map": lambda f: rx.map(f.m),
    "mapi": lambda f: rx.mapi(f.mi),
    "map_async": lambda f: rx.map_async(f.ma),
    "filter": lambda f: rx.filter(f.p),
    "filteri": lambda f: rx.filteri(lambda x, i: i % (f.n + 1) == 0),
    "scan": lambda f: rx.scan(f.acc, f.n * 7),
    "reduce": lambda f: rx.reduce(f.acc, f.n * 7),
    "take": lambda f: rx.take(f.n),
    "skip": lambda f: rx.skip(f.n),
    "take_last": lambda f: rx.take_last(f.n),
    "skip_last": lambda f: rx.skip_last(f.n),
    "distinct": lambda f: rx.distinct_until_changed,
    "delay": lambda f: rx.delay(f.env.T(f.d)),
    "debounce": lambda f: rx.debounce(f.env.T(f.d)),
    "retry": lambda f: rx.retry(f.n),
    "merge": lambda f: rx.merge(f.other()),
    "concat": lambda f: rx.concat(f.other()),
    "combine_latest": lambda f: rx.combine_latest(f.other()),
    "with_latest_from": lambda f: rx.with_latest_from(f.other()),
    "take_until": lambda f: rx.take_until(f.other()),
    "flat_map": lambda f: rx.flat_map(lambda x: f.inner(x)),
    "flat_mapi": lambda f: rx.flat_mapi(lambda x, i: f.inner((x, i))),
    "concat_map": lambda f: _transform.concat_map(lambda x: f.inner(x)),
    "flat_map_latest": lambda f: _transform.flat_map_latest(lambda x: f.inner(x)),
    "catch": lambda f: rx.catch(lambda ex: f.inner(0)),
}


class Fns:
    def __init__(self, env, spec, tag):
        self.env = env
        self.n = spec["n"]
        self.d = spec["d"]
        self.spec = spec
        self.tag = tag
        self.cyc = kit.KeyCycle(spec["pz"])

    def m(self, x):
        return ("m", x)

    def mi(self, x, i):
        return (i, x)

    async def ma(self, x):
        await pause(self.env, self.cyc.next(x))
        return ("a", x)

    def p(self, x):
        return kit.crc(x) % 3 != 0

    def acc(self, a, x):
        return kit.crc((a, x))

    def other(self):
        return Src(self.env, f"other{self.tag}", script=self.spec["other"])

    def inner(self, x):
        return Src(self.env, f"inner{self.tag}", script=[[p, k, [v, kit.tok(x)] if k == "N" else v] for p, k, v in self.spec["inner"]])


def gen_spec(rng, style):
    return {
        "n": rng.randrange(1, 4),
        "d": rng.choice([0.25, 0.5, 1.0]),
        "pz": [kit.gen_pause(rng, style) for _ in range(4)],
        "other": kit.gen_script(rng, [200 + i for i in range(rng.randrange(0, 4))], style, kit.term_ev(rng)),
        "inner": kit.gen_script(rng, [300 + i for i in range(rng.randrange(0, 4))], style, rng.choice([["C", None], ["C", None], None])),
    }


def gen(rng, idx, tier):
    mode = ["subs", "subs", "opfn"][idx % 3]
    sc = {"mode": mode, "tie": rng.choice(["fifo", "lifo"]), "horizon": 30.0}
    style = kit.gen_style(rng)
    subs = []
    for i in range(rng.choice([2, 2, 2, 3, 4])):
        ostyle = rng.choice(["none", "none", "yield", "sleep", "mixed"])
        s = {"at": rng.choice([0, 0, 1, 3, 0.125, 0.5, 1.0, 2.0, 6.0]), "opz": [kit.gen_pause(rng, ostyle) for _ in range(10)] if ostyle != "none" else []}
        r = rng.random()
        if r < 0.2:
            s["dispose"] = rng.choice([0, 0.0625, 0.3125, 0.5625, 1.0625, 2.0625])
        elif r < 0.3:
            s["raise_at"] = rng.randrange(3)
            s["err"] = kit.gen_err(rng)
        subs.append(s)
    sc["subs"] = subs
    if mode == "subs":
        g = pipe.G(rng, kinds=["cold", "cold", "cold", "iter", "aiter", "during"], safe_handler=True, boom=0.15, style=style)
        if idx % 2:
            sc["tree"] = pipe.gen_node(g, rng.choice([1, 2, 3]))
        else:
            # one operator over one source: every operator in turn
            name = (ops.LINEAR + ["merge", "concat", "flat", "switch", "comb", "time", "catch", "retry"] * 2)[(idx // 6) % (len(ops.LINEAR) + 16)]
            if name in ops.LINEAR:
                o = ops.gen_op(rng, [name], 5, g.fstyle)
                if rng.random() < 0.3:
                    o["ch"] = 1
                sc["tree"] = {"k": "op", "op": o, "c": pipe.gen_feed(g, rng.randrange(2, 8))}
            else:
                g.never = 0.05
                sc["tree"] = pipe.gen_many(g, 1, name)
    else:
        sc["fns"] = [rng.choice(sorted(FN)) for _ in range(rng.choice([1, 1, 1, 2, 3]))]
        sc["spec"] = gen_spec(rng, style)
        if rng.random() < 0.4:
            # two different operators over one source, instead of one operator over two sources
            sc["fns2"] = list(sc["fns"]) if rng.random() < 0.5 else [rng.choice(sorted(FN)) for _ in range(rng.choice([1, 1, 2]))]
            sc["spec2"] = gen_spec(rng, style)
        sc["srcs"] = [kit.gen_script(rng, kit.gen_values(rng, rng.randrange(0, 7)), style, kit.term_ev(rng)) for _ in range(2)]
    return sc


def specs(sc):
    return [sc["spec"]] + ([sc["spec2"]] if "spec2" in sc else [])


def valid(sc):
    if sc.get("tie") not in ("fifo", "lifo") or not sc["subs"]:
        return False
    if sc["mode"] == "opfn":
        return len(sc["srcs"]) == 2 and all(len(e) == 3 and e[1] in ("N", "C", "E") for sp in specs(sc) for s in [*sc["srcs"], sp["other"], sp["inner"]] for e in s) and all(sp["n"] >= 1 for sp in specs(sc)) and ("fns2" in sc) == ("spec2" in sc)
    return not any(n["k"] == "catch" and n["h"].get("k") != "feed" for n in pipe.walk(sc["tree"]))


async def start(env, sc):
    env.pure = True
    env.pairs = []
    subs = sc["subs"]
    if sc["mode"] == "subs":
        shared = pipe.Builder(env).build(sc["tree"])
        obsv = [shared for _ in subs]
        refs = [pipe.Builder(env).build(sc["tree"]) for _ in subs]
    else:
        # the operator functions are built once and applied to two sources, against fresh ones for each
        f = Fns(env, sc["spec"], "")
        fns = [FN[n](f) for n in sc["fns"]]
        srcs = [Src(env, f"s{i}", script=s) for i, s in enumerate(sc["srcs"])]
        ys = [rx.pipe(s, *fns) for s in srcs]
        if "fns2" in sc:
            f2 = Fns(env, sc["spec2"], "x")
            ys[1] = rx.pipe(srcs[0], *[FN[n](f2) for n in sc["fns2"]])
        obsv = [ys[i % 2] for i in range(len(subs))]
        refs = []
        for i in range(len(subs)):
            two = i % 2 and "fns2" in sc
            f = Fns(env, sc["spec2" if two else "spec"], f"r{i}")
            refs.append(rx.pipe(Src(env, f"r{i}", script=sc["srcs"][0 if two else i % 2]), *[FN[n](f) for n in sc["fns2" if two else "fns"]]))

    async def run(obs, xs, s):
        await pause(env, s["at"])
        try:
            sub = await xs.subscribe_async(obs)
        except asyncio.CancelledError:
            raise
        except Exception as ex:  # noqa: BLE001
            obs.failed = tok(ex)
            return
        if s.get("dispose") is not None:
            await env.sleep(s["dispose"])
            env.fault("dispose")
            await sub.dispose_async()

    for i, s in enumerate(subs):
        err = env.errors_of(s["err"]) if "err" in s else None
        a = Obs(env, f"shared{i}", pauses=s["opz"], raise_at=s.get("raise_at"), err=err)
        b = Obs(env, f"solo{i}", pauses=s["opz"], raise_at=s.get("raise_at"), err=err)
        a.failed = b.failed = None
        env.pairs.append((a, b))
    for (a, b), xs, ref, s in zip(env.pairs, obsv, refs, subs):
        env.spawn(run(a, xs, s), a.name)
        env.spawn(run(b, ref, s), b.name)


def check(env, sc):
    env.probe("pipeline" if sc["mode"] == "subs" else "two_operators" if "fns2" in sc else "operator_function")
    if sc["mode"] == "subs":
        for n in pipe.walk(sc["tree"]):
            if n["k"] != "lib":
                env.probe(n["k"])
    subs = sc["subs"]
    if len(subs) > 2:
        env.probe("three")
    env.probe("overlapping" if len({s["at"] for s in subs}) < len(subs) else "staggered")
    desc = pipe.describe(sc["tree"]) if sc["mode"] == "subs" else "|".join(sc["fns"]) + (" / " + "|".join(sc["fns2"]) if "fns2" in sc else "")
    env.nontrivial = any(a.events for a, _ in env.pairs)
    for (a, b), s in zip(env.pairs, subs):
        if any(s["opz"]):
            env.probe("slow_observer")
        if "dispose" in s:
            env.probe("disposed")
        if "raise_at" in s and a.nvals > s["raise_at"]:
            env.probe("observer_raised")
        ea = [(e[0], tok(e[1]), round(e[2], 6)) for e in a.events]
        eb = [(e[0], tok(e[1]), round(e[2], 6)) for e in b.events]
        if ea != eb or a.failed != b.failed:
            raise Violation("influenced", f"{desc}: {a.name} saw [{a.text()}] {a.failed or ''}, alone it sees [{b.text()}] {b.failed or ''}")
