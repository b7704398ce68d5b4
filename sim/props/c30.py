"""C30: handlers may use the very stream they are handling."""
import aioreactive as rx
from expression.system import ObjectDisposedException

from .. import kit, ops
from ..core import Violation
from ..kit import Obs, dec, pause, same, tok

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
PROBES = ["nested_send", "nested_deep", "spawned_send", "ping_pong", "nested_close", "nested_error", "nested_subscribe", "in_function", "direct", "queueing", "stateful", "take", "concurrent", "single", "subject", "send_at_end", "slow_observer", "second_observer", "merged"]
WRAPS = {
    "merge": lambda xs: rx.pipe(xs, rx.merge(rx.empty())),
    "concat": lambda xs: rx.pipe(xs, rx.concat(rx.empty())),
    "delay": lambda xs: rx.pipe(xs, rx.delay(0)),
    "catch": lambda xs: rx.pipe(xs, rx.catch(lambda ex: rx.empty())),
    "take_until": lambda xs: rx.pipe(xs, rx.take_until(rx.never())),
    "flat_map": lambda xs: rx.pipe(xs, rx.flat_map(rx.single)),
}
QUEUE = ("merge", "concat", "delay", "take_until", "flat_map")
STATELESS = [n for n in ops.PASS if not n.startswith("scan")]
NAMES = ops.PASS + ["scan", "scan_async", "mapi", "mapi_async", "filteri", "skip", "skip_last", "distinct", "identity", "take"]


def gen_root(rng, n, free):
    single = rng.random() < 0.3
    chain = [] if rng.random() < 0.15 else ops.gen_chain(rng, STATELESS if free else NAMES, n, 4)
    for o in chain:
        if rng.random() < 0.25:
            o["ch"] = 1
        if free and o["op"] in ops.ASYNC:
            o["pz"] = [kit.gen_pause(rng, "yield") for _ in range(8)]
    names = sorted(WRAPS) if free else sorted(set(WRAPS) - {"flat_map"})
    while rng.random() < 0.3:
        chain.insert(rng.randrange(len(chain) + 1), {"op": "wrap", "w": rng.choice(names)})
    fn = []
    if free and rng.random() < 0.5:
        fn = [[k, rng.randrange(2)] for k in range(rng.choice([1, 2, 3])) if rng.random() < 0.7]
    ostyle = rng.choice(["none", "none", "yield", "sleep", "mixed"])
    acts = []
    for k in range(rng.choice([1, 2, 4, 8])):
        for _ in range(rng.choice([0, 1, 1, 1, 2])):
            r = rng.random()
            op = "send" if r < 0.8 else "subscribe" if r < 0.88 else "close" if r < 0.95 else "throw"
            acts.append([k, op, rng.choice([0, 0, 1]), rng.choice(["await", "await", "await", "spawn"]), kit.gen_err(rng) if op == "throw" else None])
    return {
        "single": single,
        "chain": chain,
        "fn": fn,
        "extra": 0 if single else rng.choice([0, 0, 0, 1, 2]),
        "acts": acts,
        "opz": [kit.gen_pause(rng, ostyle) for _ in range(10)] if ostyle != "none" else [],
        "form": rng.choice(kit.FORMS),
    }


def gen(rng, idx, tier):
    free = rng.random() < 0.3
    n = rng.choice([1, 2, 3, 5])
    roots = [gen_root(rng, n + 4, free) for _ in range(rng.choice([1, 1, 2]))]
    pstyle = kit.gen_style(rng)
    prods = [[[kit.gen_pause(rng, pstyle), rng.randrange(len(roots))] for _ in range(n)] for _ in range(rng.choice([1, 1, 2]))]
    return {"free": free, "roots": roots, "prods": prods, "budget": rng.choice([1, 3, 8, 20]), "merge": len(roots) == 2 and not free and rng.random() < 0.3, "term": [kit.term_ev(rng) for _ in roots]}


def valid(sc):
    return bool(sc["roots"]) and len(sc["term"]) == len(sc["roots"]) and (not sc["merge"] or len(sc["roots"]) == 2) and all(len(a) == 5 for r in sc["roots"] for a in r["acts"]) and all(len(e) == 2 for p in sc["prods"] for e in p)


async def start(env, sc):
    roots = env.roots = []
    env.calls = []
    env.left = sc["budget"]
    env.n = 0
    env.depth = 0

    class Root:
        pass

    async def enter(r, kind, arg=None, nested=False):
        """One use of a root by anybody, recorded on entry and on return."""
        rec = [kind, None, env.log("enter", r.i, kind), None, None]
        env.calls.append(rec)
        if kind == "N":
            v = (env.n, dec(kit.SPECIAL[env.n % len(kit.SPECIAL)])) if not sc["free"] else (env.n, 0)
            env.n += 1
        else:
            v = arg
        rec[1] = v
        if r.term is None:
            r.entries.append((kind, v, rec[2]))
            if kind != "N":
                r.term = "C" if kind == "C" else ("E", v)
                r.term_seq = rec[2]
        if nested:
            env.depth += 1
            if env.depth > 2:
                env.probe("nested_deep")
        try:
            await (r.subj.asend(v) if kind == "N" else r.subj.athrow(v) if kind == "E" else r.subj.aclose())
        except ObjectDisposedException as ex:
            # the pipeline of a single subject has ended and detached from it
            if not r.spec["single"] or not (any(x.term for x in roots) or any(c["op"] == "take" for x in roots for c in x.spec["chain"])):
                rec[4] = ex
        except Exception as ex:  # noqa: BLE001
            rec[4] = ex
        finally:
            if nested:
                env.depth -= 1
        rec[3] = env.log("left", r.i, kind)

    def pipeline(r, xs):
        ys = xs
        cnt = [0]

        async def feed(x):
            k = cnt[0]
            cnt[0] += 1
            for at, to in r.spec["fn"]:
                if at == k and env.left > 0:
                    env.left -= 1
                    env.probe("in_function")
                    await enter(roots[to % len(roots)], "N", nested=True)
            return x

        if r.spec["fn"]:
            ys = rx.pipe(ys, rx.map_async(feed))
        for op in r.spec["chain"]:
            ys = WRAPS[op["w"]](ys) if op["op"] == "wrap" else ops.build(env, op, chain=bool(op.get("ch")))(ys)
        return ys

    def handler(r):
        async def react(o, kind, n):
            for k, op, to, mode, arg in r.spec["acts"]:
                if k != n or env.left <= 0:
                    continue
                env.left -= 1
                to = roots[to % len(roots)]
                if kind != "N":
                    env.probe("send_at_end")
                if to is not r:
                    env.probe("ping_pong")
                if op == "subscribe":
                    if r.spec["single"] or sc["merge"]:
                        continue
                    x = Obs(env, f"r{r.i}new{len(r.new)}")
                    r.new.append([x, None])
                    await r.base.subscribe_async(x)
                    r.new[-1][1] = env.log("subscribed", x.name)
                    env.probe("nested_subscribe")
                    continue
                code = {"send": "N", "close": "C", "throw": "E"}[op]
                env.probe({"N": "nested_send", "C": "nested_close", "E": "nested_error"}[code])
                co = enter(to, code, env.errors_of(arg) if code == "E" else None, nested=mode == "await")
                if mode == "await":
                    await co
                else:
                    env.probe("spawned_send")
                    env.spawn(co, "spawned")

        return react

    for i, spec in enumerate(sc["roots"]):
        r = Root()
        r.i, r.spec, r.entries, r.term, r.new = i, spec, [], None, []
        r.term_seq = None
        r.subj = rx.AsyncSingleSubject() if spec["single"] else rx.AsyncSubject()
        env.probe("single" if spec["single"] else "subject")
        r.extra = [Obs(env, f"r{i}x{j}") for j in range(spec["extra"])]
        r.obs = Obs(env, f"r{i}", pauses=spec["opz"], on_event=handler(r))
        if spec["opz"]:
            env.probe("slow_observer")
        roots.append(r)
    if sc["merge"]:
        # both subjects feed one observer
        env.probe("merged")
        r = roots[0]
        r.base = pipeline(r, rx.pipe(roots[0].subj, rx.merge(roots[1].subj)))
        await kit.subscribe(r.obs, r.base, r.spec["form"])
    else:
        for r in roots:
            r.base = pipeline(r, r.subj)
            for x in r.extra:
                env.probe("second_observer")
                await r.base.subscribe_async(x)
            await kit.subscribe(r.obs, r.base, r.spec["form"])
    await env.settle()

    async def producer(script):
        for p, to in script:
            await pause(env, p)
            await enter(roots[to % len(roots)], "N")

    env.finished = False
    if len(sc["prods"]) > 1:
        env.probe("concurrent")
    for t in [env.spawn(producer(s), f"p{i}") for i, s in enumerate(sc["prods"])]:
        await t
    await env.settle()
    for r, term in zip(roots, sc["term"]):
        if term and r.term is None:
            await enter(r, term[0], env.errors_of(term[1]) if term[0] == "E" else None)
            await env.settle()
    env.finished = True


def chain_model(chain, vals, term):
    for op in chain:
        if op["op"] == "wrap":
            if op["w"] == "catch" and isinstance(term, tuple):
                term = "C"
        else:
            vals, term = ops.model(op, vals, term)
    return vals, term


def check(env, sc):
    roots = env.roots
    desc = [("single " if r.spec["single"] else "") + "|".join(c.get("w") or c["op"] + str(c.get("n", "")) for c in r.spec["chain"]) for r in roots]
    for c in env.calls:
        if c[4] is not None:
            raise Violation("raised", f"{c[0]}:{tok(c[1])} raised {c[4]!r}; {desc}")
        if c[3] is None:
            raise Violation("stuck", f"{c[0]}:{tok(c[1])} was sent by a handler or beside one and never returned; {desc}; saw {[r.obs.text() for r in roots]}")
    if not env.finished:
        raise Violation("stuck", f"the producers never finished; {desc}; saw {[r.obs.text() for r in roots]}")
    env.nontrivial = env.left < sc["budget"]
    if sc["merge"]:
        r = roots[0]
        both = sorted((e for x in roots for e in x.entries), key=lambda e: e[2])
        vals, term, open_ = [], None, 2
        for k, v, _ in both:
            if term is not None:
                break
            if k == "N":
                vals.append(v)
            elif k == "E":
                term = ("E", v)
            else:
                open_ -= 1
                if not open_:
                    term = "C"
        exact(r, r.obs, vals, term, desc[0] + " of two merged")
        return
    for r, d in zip(roots, desc):
        chain = r.spec["chain"]
        qs = any(c.get("w") in QUEUE or c["op"] == "distinct" for c in chain)
        env.probe("queueing" if qs else "direct")
        if any(c["op"].startswith("scan") or c["op"] in ("mapi", "filteri") for c in chain):
            env.probe("stateful")
        if any(c["op"] == "take" for c in chain):
            env.probe("take")
        vals = [v for k, v, _ in r.entries if k == "N"]
        for o in [*r.extra, r.obs]:
            if sc["free"]:
                unordered(env, r, o, vals, vals, d)
            else:
                exact(r, o, vals, r.term, d)
        for o, since in r.new:
            if since is None:
                raise Violation("stuck", f"subscribing from a handler never returned; {d}")
            if all(c["op"] in STATELESS or c["op"] == "wrap" for c in chain):
                # merge and concat attach to their sources a little later
                must = [] if any(c["op"] == "wrap" for c in chain) else [v for k, v, q in r.entries if k == "N" and q > since]
                unordered(env, r, o, must, vals, d, since)


def exact(r, o, vals, term, d):
    kit.check_exact(o, *chain_model(r.spec["chain"], vals, term), what=f"{d}: entered {[tok(v) for v in vals]};")
    kit.check_grammar(o)


def unordered(env, r, o, must, may, d, since=None):
    """Every value exactly once, in any order."""
    left = [tok(v) for v in o.values]
    outs = [tok(x) for v in must for x in chain_model(r.spec["chain"], [v], None)[0]]
    # values that were still under way when the stream was closed may be cut off
    late = r.term is not None
    lost = [t for t in outs if left.count(t) != 1]
    if any(left.count(t) > 1 for t in left):
        raise Violation("duplicate", f"{d}: {o.name} saw a value twice: {o.text()}")
    known = {tok(x) for v in may for x in chain_model(r.spec["chain"], [v], None)[0]}
    if any(t not in known for t in left):
        raise Violation("spurious", f"{d}: {o.name} saw a value nobody sent: {o.text()}")
    if lost and not late:
        raise Violation("lost", f"{d}: {o.name} did not see {lost}; saw {o.text()}")
    if r.term is not None and since is None:
        kit.check_term(o, chain_model(r.spec["chain"], [], r.term)[1], d)
