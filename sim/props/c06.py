"""C06: errors are delivered once, by identity, after what is owed; never swallowed."""
import asyncio

import aioreactive as rx
from aioreactive import combine as _combine
from aioreactive import transform as _transform

from .. import kit, ops, pipe
from ..core import Violation
from ..kit import Feed, Obs, Src, check_exact, check_grammar, check_serial, dec, gen_err, gen_pause, pause, tok

QUICK = 100000
THOROUGH = 1500000
HORIZON = 80.0
MODES = ["source", "tree", "fn", "fn", "fn", "observer", "observer", "iterable", "workflow", "inner_subscribe", "selector", "defer", "handler", "zip_iterable", "interval", "compare"]
PROBES = ["mode_" + m for m in MODES] + ["raised_to_producer", "fn_error_event", "error_after_values"]
PASS = set(ops.PASS) | {"identity"}
WRAPS = ["merge_seq", "concat_seq", "merge_empty", "take_until", "switch", "delay", "defer"]


def gen_linear_scene(rng, err_term=False):
    n = rng.choice([1, 2, 3, 4, 6])
    vals = kit.gen_values(rng, n)
    term = ["E", gen_err(rng)] if err_term else kit.term_ev(rng, p_err=0.2)
    kinds = kit.FEED_KINDS
    feed = kit.gen_feed(rng, vals, kit.gen_style(rng), term, kinds)
    chain = ops.gen_chain(rng, ops.LINEAR, n, 3, kit.gen_style(rng)) if rng.random() < 0.7 else []
    for o in chain:
        if rng.random() < 0.25:
            o["ch"] = 1
    return n, feed, chain


def gen(rng, idx, tier):
    mode = MODES[idx % len(MODES)]
    sc = {"mode": mode, "form": rng.choice(kit.FORMS)}
    ostyle = kit.gen_style(rng)
    sc["opz"] = [gen_pause(rng, ostyle) for _ in range(5)] if ostyle != "none" else []
    sc["err"] = gen_err(rng)
    if mode in ("source", "fn", "observer"):
        n, feed, chain = gen_linear_scene(rng, mode == "source")
        if mode == "fn":
            bad = ops.gen_op(rng, ops.FALLIBLE, n, kit.gen_style(rng))
            bad["boom_at"] = rng.randrange(n)
            bad["boom"] = sc["err"]
            if feed["script"] and feed["script"][-1][1] == "E":
                feed["script"].pop()
            chain.insert(rng.randrange(len(chain) + 1), bad)
        if mode == "observer":
            sc["raise_at"] = rng.randrange(n)
            if feed["script"] and feed["script"][-1][1] == "E":
                feed["script"].pop()
        sc["feed"], sc["ops"] = feed, chain
        if rng.random() < 0.4:
            sc["wrap"] = rng.choice(WRAPS)
            sc["wrap_at"] = rng.randrange(len(chain) + 1)
    elif mode == "tree":
        g = pipe.G(rng, timers=False, recover=False, infinite=False)
        g.kinds = ["hot", "hot", "cold"]
        g.lib = False
        g.style = "sleep"
        g.fstyle = rng.choice(["none", "yield"])
        g.src_err = 0.5
        sc["tree"] = pipe.gen_node(g, rng.randrange(1, 4))
        sc["opz"] = []
        # every failure happens at an instant of its own
        k = 0
        for nd in pipe.walk(sc["tree"]):
            for s in nd.get("script", []) + nd.get("outer", []):
                if s[1] == "E":
                    k += 1
                    s[0] = float(s[0]) + k / 1024
    elif mode in ("iterable", "zip_iterable"):
        sc["vals"] = kit.gen_values(rng, rng.choice([0, 1, 2, 5]))
        sc["kind"] = rng.choice(["gen", "next", "iter"] if mode == "zip_iterable" else ["gen", "next", "iter", "agen", "anext", "aiter", "sources_merge", "sources_concat"])
        sc["pz"] = [gen_pause(rng, kit.gen_style(rng)) for _ in range(6)]
        if mode == "zip_iterable":
            sc["feed"] = kit.gen_feed(rng, kit.gen_values(rng, len(sc["vals"]) + rng.choice([0, 1, 2])), kit.gen_style(rng), ["C", None])
        sc["ops"] = ops.gen_chain(rng, ["map", "filter", "scan", "skip", "distinct", "map_async"], 3, 2) if rng.random() < 0.4 else []
    elif mode == "workflow":
        sc["kind"] = rng.choice(["coro", "future", "task"])
        sc["p"] = gen_pause(rng, "mixed")
        sc["ops"] = ops.gen_chain(rng, ops.LINEAR, 2, 2) if rng.random() < 0.4 else []
    elif mode == "inner_subscribe":
        sc["op"] = rng.choice(["merge_inner", "merge_inner1", "concat_seq", "merge_seq", "switch", "flat_map", "flat_map_latest", "concat_map", "catch", "retry", "merge2", "concat2"])
        sc["before"] = [gen_pause(rng, "mixed") for _ in range(rng.randrange(0, 3))]
        sc["p"] = gen_pause(rng, "mixed")
        sc["sp"] = rng.randrange(0, 3)
    elif mode == "selector":
        sc["f"] = rng.choice(pipe.FLATS)
        sc["n"] = rng.randrange(1, 5)
        sc["at"] = rng.randrange(sc["n"])
        sc["hot"] = rng.randrange(2)
    elif mode == "defer":
        sc["ops"] = ops.gen_chain(rng, ops.LINEAR, 2, 3) if rng.random() < 0.6 else []
        sc["via"] = rng.choice(["plain", "merge", "retry", "inner"])
    elif mode == "handler":
        sc["script"] = kit.gen_script(rng, kit.gen_values(rng, rng.randrange(0, 4)), kit.gen_style(rng), ["E", gen_err(rng)])
        sc["depth"] = rng.randrange(0, 3)
        sc["kind"] = rng.choice(["cold", "hot", "during"])
    elif mode == "compare":
        n = rng.randrange(1, 6)
        st = kit.gen_style(rng)
        sc["script"] = [[gen_pause(rng, st), "N", rng.randrange(3)] for _ in range(n)] + [[gen_pause(rng, st), "C", None]]
        sc["bad"] = rng.randrange(n)
        sc["kind"] = rng.choice(["hot", "cold", "iter", "subject"])
    elif mode == "interval":
        sc["at"] = rng.randrange(0, 4)
        sc["who"] = rng.choice(["observer", "map", "scan", "filter_async"])
        sc["s"] = rng.choice([0, 0.25, 1.0])
        sc["p"] = rng.choice([0.25, 1.0])
    return sc


class Bad:
    """Iterable failing after its values, in one of several ways."""

    def __init__(self, env, kind, vals, err, pz=()):
        self.env, self.kind, self.vals, self.err, self.pz = env, kind, vals, err, list(pz)
        self.i = 0

    def _raise(self):
        self.env.fault("iterable_raises")
        raise self.err

    def __iter__(self):
        if self.kind == "iter":
            self._raise()
        if self.kind == "gen":
            return self._gen()
        return self

    def _gen(self):
        yield from self.vals
        self._raise()

    def __next__(self):
        if self.i >= len(self.vals):
            self._raise()
        self.i += 1
        return self.vals[self.i - 1]

    def __aiter__(self):
        if self.kind == "aiter":
            self._raise()
        if self.kind == "agen":
            return self._agen()
        return self

    async def _agen(self):
        for i, v in enumerate(self.vals):
            await pause(self.env, self.pz[i % len(self.pz)])
            yield v
        self._raise()

    async def __anext__(self):
        await pause(self.env, self.pz[self.i % len(self.pz)])
        return self.__next__()


def wrap(env, kind, xs):
    if kind == "merge_seq":
        return rx.merge_seq([xs])
    if kind == "concat_seq":
        return rx.concat_seq([xs])
    if kind == "merge_empty":
        return rx.pipe(xs, rx.merge(rx.empty()))
    if kind == "take_until":
        return rx.pipe(xs, rx.take_until(rx.never()))
    if kind == "switch":
        return rx.pipe(rx.single(xs), rx.switch_latest())
    if kind == "delay":
        return rx.pipe(xs, rx.delay(env.T(0.25)))
    if kind == "defer":
        return rx.defer(lambda: xs)
    raise KeyError(kind)


async def start(env, sc):
    mode = sc["mode"]
    err = env.err = env.errors_of(sc["err"])
    obs = env.obs = Obs(env, pauses=sc["opz"], raise_at=sc.get("raise_at"), err=err)
    env.drive = None
    await _SETUP[mode](env, sc, obs, err)


async def _sub(env, sc, obs, xs):
    await kit.subscribe(obs, xs, sc["form"])
    await env.settle()


async def s_linear(env, sc, obs, err):
    feed = env.feed = Feed(env, sc["feed"])
    xs = feed.xs
    for i, o in enumerate([*sc["ops"], None]):
        if sc.get("wrap") and sc["wrap_at"] == i:
            xs = wrap(env, sc["wrap"], xs)
        if o is not None:
            xs = ops.build(env, o, chain=bool(o.get("ch")))(xs)
    await _sub(env, sc, obs, xs)
    await feed.drive()


async def s_tree(env, sc, obs, err):
    b = env.b = pipe.Builder(env)
    xs = b.build(sc["tree"])
    await _sub(env, sc, obs, xs)
    b.start_drivers()


async def s_iterable(env, sc, obs, err):
    vals = [dec(v) for v in sc["vals"]]
    k = sc["kind"]
    if k in ("gen", "next", "iter"):
        xs = rx.from_iterable(Bad(env, k, vals, err))
    elif k in ("agen", "anext", "aiter"):
        xs = rx.from_async_iterable(Bad(env, k, vals, err, sc["pz"]))
    else:
        it = Bad(env, "gen", [rx.never() for _ in vals], err)
        xs = rx.merge_seq(it) if k == "sources_merge" else rx.concat_seq(it)
    await _sub(env, sc, obs, ops.apply_chain(env, xs, sc["ops"]))


async def s_zip(env, sc, obs, err):
    feed = env.feed = Feed(env, sc["feed"])
    vals = [dec(v) for v in sc["vals"]]
    xs = rx.pipe(feed.xs, _combine.zip_seq(Bad(env, sc["kind"], vals, err)))
    try:
        await _sub(env, sc, obs, ops.apply_chain(env, xs, sc["ops"]))
    except Exception as ex:  # noqa: BLE001
        env.sub_raised = ex
        return
    await feed.drive()


async def s_workflow(env, sc, obs, err):
    async def wf():
        await pause(env, sc["p"])
        env.fault("workflow_raises")
        raise err

    if sc["kind"] == "coro":
        w = wf()
    elif sc["kind"] == "task":
        w = asyncio.ensure_future(wf())
    else:
        w = asyncio.get_running_loop().create_future()

        async def later():
            await pause(env, sc["p"])
            env.fault("workflow_raises")
            w.set_exception(err)

        env.spawn(later(), "workflow")
    await _sub(env, sc, obs, ops.apply_chain(env, rx.from_async(w), sc["ops"]))


async def s_inner(env, sc, obs, err):
    bad = Src(env, "bad", sub_err=err)
    op = sc["op"]
    good = [Src(env, f"g{i}", script=[[p, "N", i], [p, "C", None]], sub_pause=sc["sp"]) for i, p in enumerate(sc["before"])]
    env.good = good
    seq = [*good, bad, Src(env, "late", script=[[0.5, "N", 99]])]
    outer = Src(env, "outer")
    it = iter(seq)

    async def drive():
        for x in seq:
            await pause(env, sc["p"])
            await outer.emit("N", x)

    if op in ("merge_inner", "merge_inner1", "switch"):
        xs = rx.pipe(outer, rx.merge_inner(1 if op == "merge_inner1" else 0)) if op != "switch" else rx.switch_latest()(outer)
    elif op in ("concat_seq", "merge_seq"):
        xs = getattr(rx, op)(seq)
    elif op in ("flat_map", "flat_map_latest", "concat_map"):
        f = {"flat_map": rx.flat_map, "flat_map_latest": _transform.flat_map_latest, "concat_map": _transform.concat_map}[op]
        xs = rx.pipe(outer, f(lambda x: x))
    elif op == "catch":
        first = Src(env, "first", script=[[sc["p"], "E", {"E": "Boom", "i": 1}]])
        xs = rx.pipe(first, rx.catch(lambda e: bad))
    elif op == "retry":
        first = Src(env, "first", script=[[sc["p"], "E", {"E": "Boom", "i": 1}]])
        n = [0]

        def factory():
            n[0] += 1
            return first if n[0] == 1 else bad

        xs = rx.pipe(rx.defer(factory), rx.retry(1))
    elif op == "merge2":
        xs = rx.pipe(Src(env, "a"), rx.merge(bad))
    else:
        xs = rx.pipe(Src(env, "a", script=[[sc["p"], "C", None]]), rx.concat(bad))
    del it
    await _sub(env, sc, obs, xs)
    if op in ("merge_inner", "merge_inner1", "switch", "flat_map", "flat_map_latest", "concat_map"):
        env.spawn(drive(), "outer")


async def s_selector(env, sc, obs, err):
    calls = [0]

    def sel(x):
        calls[0] += 1
        if calls[0] - 1 == sc["at"]:
            env.fault("user_function_raises")
            raise err
        return rx.single(("f", x))

    async def sela(x):
        return sel(x)

    def seli(x, i):
        return sel(x)

    async def selia(x, i):
        return sel(x)

    m = {
        "flat_map": lambda: rx.flat_map(sel),
        "flat_mapi": lambda: rx.flat_mapi(seli),
        "flat_map_async": lambda: rx.flat_map_async(sela),
        "flat_mapi_async": lambda: _transform.flat_mapi_async(selia),
        "concat_map": lambda: _transform.concat_map(sel),
        "flat_map_latest": lambda: _transform.flat_map_latest(sel),
        "flat_map_latest_async": lambda: rx.flat_map_latest_async(sela),
    }[sc["f"]]()
    script = [[0.5, "N", i] for i in range(sc["n"])] + [[0.5, "C", None]]
    env.src = None
    if sc["hot"]:
        env.src = src = Src(env, "s")
    else:
        src = rx.from_async_iterable(kit.AIter(env, "s", script))
    await _sub(env, sc, obs, rx.pipe(src, m))
    if env.src:
        env.spawn(kit.produce(env, env.src, script), "producer")


async def s_defer(env, sc, obs, err):
    n = [0]

    def factory():
        n[0] += 1
        env.fault("user_function_raises")
        raise err

    xs = rx.defer(factory)
    if sc["via"] == "merge":
        xs = rx.pipe(rx.never(), rx.merge(xs))
    elif sc["via"] == "retry":
        xs = rx.pipe(xs, rx.retry(2))
    elif sc["via"] == "inner":
        xs = rx.pipe(rx.single(1), rx.flat_map(lambda _: rx.defer(factory)))
    await _sub(env, sc, obs, ops.apply_chain(env, xs, sc["ops"]))


async def s_handler(env, sc, obs, err):
    script = sc["script"]
    kind = sc["kind"]
    depth = [sc["depth"]]
    env.owed = vals = [dec(v) for _, k, v in script if k == "N"]
    src = Src(env, "s", **({"script": script} if kind == "cold" else {"during": script} if kind == "during" else {}))

    def handler(ex):
        if depth[0] == 0:
            env.fault("user_function_raises")
            raise err
        depth[0] -= 1
        env.owed = env.owed + ["h"]
        return Src(env, f"h{depth[0]}", script=[[1, "N", "h"], [1, "E", {"E": "Boom", "i": depth[0]}]])

    del vals
    await _sub(env, sc, obs, rx.pipe(src, rx.catch(handler)))
    if kind == "hot":
        await kit.produce(env, src, script)


async def s_interval(env, sc, obs, err):
    xs = rx.interval(env.T(sc["s"]), env.T(sc["p"]))

    def boom(x):
        if x == sc["at"]:
            env.fault("user_function_raises")
            raise err
        return x

    async def aboom(x):
        boom(x)
        return True

    if sc["who"] == "observer":
        obs.raise_at = sc["at"]
    elif sc["who"] == "map":
        xs = rx.pipe(xs, rx.map(boom))
    elif sc["who"] == "scan":
        xs = rx.pipe(xs, rx.scan(lambda a, x: boom(x), 0))
    else:
        xs = rx.pipe(xs, rx.filter_async(aboom))
    await _sub(env, sc, obs, xs)


class Cmp:
    """A value that cannot be compared."""

    def __init__(self, env, v, err):
        self.env, self.v, self.err = env, v, err

    __hash__ = None

    def __eq__(self, other):
        self.env.fault("comparison_raises")
        raise self.err

    def __str__(self):
        return f"Cmp({self.v})"

    __repr__ = __str__


async def s_compare(env, sc, obs, err):
    script = []
    for i, (p, k, v) in enumerate(sc["script"]):
        script.append((p, k, Cmp(env, v, err) if i == sc["bad"] else v))
    env.vals = [v for _, k, v in script if k == "N"]
    env.src = src = rx.AsyncSubject() if sc["kind"] == "subject" else Src(env, "s")

    async def drive():
        for p, k, v in script:
            await pause(env, p)
            if sc["kind"] == "subject":
                await (src.asend(v) if k == "N" else src.aclose())
            else:
                await src.emit(k, v)

    if sc["kind"] == "iter":
        await _sub(env, sc, obs, rx.pipe(rx.from_iterable(env.vals), rx.distinct_until_changed))
    elif sc["kind"] == "cold":

        async def agen():
            for p, k, v in script:
                await pause(env, p)
                if k == "N":
                    yield v

        await _sub(env, sc, obs, rx.pipe(rx.from_async_iterable(agen()), rx.distinct_until_changed))
    else:
        await _sub(env, sc, obs, rx.pipe(src, rx.distinct_until_changed))
        env.spawn(drive(), "producer")


def chk_compare(env, sc, obs, err):
    want, term = [], "C"
    for i, v in enumerate(env.vals):
        if i and (i == sc["bad"] or i == sc["bad"] + 1):
            term = ("E", err)
            break
        if not i or v != env.vals[i - 1]:
            want.append(v)
    got, t = obs.values, obs.terminal
    ok = len(got) == len(want) and all(a is b for a, b in zip(got, want))
    if term == "C":
        ok = ok and t is not None and t[0] == "C"
    else:
        ok = ok and t is not None and t[0] == "E" and t[1] is err
        env.probe("fn_error_event")
    if not ok:
        raise Violation("swallowed", f"distinct_until_changed over {env.vals} (comparison raises {tok(err)}): observer saw {obs.text()}")


_SETUP = {
    "source": s_linear, "fn": s_linear, "observer": s_linear, "tree": s_tree, "iterable": s_iterable, "zip_iterable": s_zip,
    "workflow": s_workflow, "inner_subscribe": s_inner, "selector": s_selector, "defer": s_defer, "handler": s_handler, "interval": s_interval, "compare": s_compare,
}


# ------------------------------------------------------------------ checks


def queued(sc, upto):
    """Is there a queueing operator or library source above position upto of the chain?"""
    if sc["feed"]["kind"] in ("iter", "aiter"):
        return True
    if sc.get("wrap") not in (None, "defer") and sc["wrap_at"] <= upto:
        return True
    for o in sc["ops"][:upto]:
        if o["op"] == "slice":
            if o["start"] is not None or o["stop"] is not None or (o["step"] or 1) > 1:
                return True
        elif o["op"] not in PASS:
            return True
    return False


def send_errs(feed):
    return [e for e in feed.send_errors] + ([x[2] for x in feed.src.send_errors] if feed.src else [])


def only_expected_raises(feed, allowed):
    for e in send_errs(feed):
        if not (any(e is a for a in allowed) or (feed.kind == "single_subject" and isinstance(e, kit.ObjectDisposedException))):
            raise Violation("send-raised", f"a send raised {tok(e)}")


def chk_source(env, sc, obs, err):
    f = env.feed
    vals, term = ops.model_chain(sc["ops"], f.values, f.term)
    check_exact(obs, vals, term, ops.describe(sc["ops"]))
    only_expected_raises(f, [])
    if vals and term not in (None, "C"):
        env.probe("error_after_values")


def chk_fn(env, sc, obs, err):
    f = env.feed
    j = next(i for i, o in enumerate(sc["ops"]) if "boom_at" in o)
    bad = sc["ops"][j]
    k = bad["boom_at"]
    vin, tin = ops.model_chain(sc["ops"][:j], f.values, f.term)
    what = ops.describe(sc["ops"]) + f" ({bad['op']} raises on call {k})"
    if len(vin) <= k:  # never called that often
        vals, term = ops.model_chain(sc["ops"], f.values, f.term)
        check_exact(obs, vals, term, what)
        only_expected_raises(f, [])
        return
    name = bad["op"]
    own = name in ("scan", "scan_async", "reduce", "reduce_async", "mapi", "mapi_async", "filteri")
    if own or queued(sc, j):
        vals, term = ops.model(bad, vin[:k], ("E", err))
        vals, term = ops.model_chain(sc["ops"][j + 1 :], vals, term)
        check_exact(obs, vals, term, what)
        only_expected_raises(f, [])
        env.probe("fn_error_event")
    else:
        vals, term = ops.model(bad, vin[:k] + vin[k + 1 :], tin)
        vals, term2 = ops.model_chain(sc["ops"][j + 1 :], vals, term)
        check_exact(obs, vals, term2, what)
        only_expected_raises(f, [err])
        seen = [e for e in send_errs(f) if e is err]
        # a limit further down that was reached earlier may have ended the subscription before that call
        early = ops.model_chain(sc["ops"][j + 1 :], ops.model(bad, vin[:k], None)[0], None)[1] is not None
        if len(seen) != 1 and not (early and not seen):
            raise Violation("swallowed", f"{what}: exception raised {len(seen)} times out of the producer's send")
        env.probe("raised_to_producer")


def chk_observer(env, sc, obs, err):
    f = env.feed
    vals, term = ops.model_chain(sc["ops"], f.values, f.term)
    k = sc["raise_at"]
    what = ops.describe(sc["ops"]) + f" (observer raises on value {k})"
    if len(vals) <= k:
        check_exact(obs, vals, term, what)
        only_expected_raises(f, [])
    elif queued(sc, len(sc["ops"])):
        check_exact(obs, vals[: k + 1], ("E", err), what)
        only_expected_raises(f, [])
        env.probe("fn_error_event")
    else:
        check_exact(obs, vals, term, what)
        only_expected_raises(f, [err])
        if [e for e in send_errs(f) if e is err] == []:
            raise Violation("swallowed", f"{what}: exception not raised out of the producer's send")
        env.probe("raised_to_producer")


def chk_tree(env, sc, obs, err):
    b = env.b
    first = None
    for s in b.srcs:
        for rec in s.sent:
            if rec[0] == "E" and (first is None or rec[2] < first[2]):
                first = rec
    kinds = pipe.kinds(sc["tree"])
    latest = any(n["k"] == "flat" and "latest" in n["f"] for n in pipe.walk(sc["tree"]))
    t = obs.terminal
    emitted = [rec[1] for s in b.srcs for rec in s.sent if rec[0] == "E"]
    if t is not None and t[0] == "E" and not any(t[1] is e for e in emitted):
        raise Violation("foreign-error", f"{pipe.describe(sc['tree'])}: error {tok(t[1])} delivered, no source emitted it")
    if first is None or "switch" in kinds or latest:
        return
    if t is None or t[2] > first[2] + 1e-6:
        raise Violation("error-lost", f"{pipe.describe(sc['tree'])}: a source failed with {tok(first[1])} at t={first[2]:g}; observer saw {obs.text()}")
    env.probe("error_after_values" if obs.values else "error_first")


def chk_iterable(env, sc, obs, err):
    vals = [dec(v) for v in sc["vals"]]
    if sc["kind"] in ("iter", "aiter") or sc["kind"].startswith("sources"):
        vals = []
    vals, term = ops.model_chain(sc["ops"], vals, ("E", err))
    check_exact(obs, vals, term, f"{sc['kind']} {ops.describe(sc['ops'])}")


def chk_zip(env, sc, obs, err):
    f = env.feed
    if getattr(env, "sub_raised", None) is not None:
        if env.sub_raised is not err or sc["kind"] != "iter" or obs.events:
            raise Violation("wrong-error", f"subscribe raised {tok(env.sub_raised)}")
        return
    vals = [dec(v) for v in sc["vals"]]
    fv = f.values
    if sc["kind"] == "iter":
        vals = []
    pairs = list(zip(fv, vals))
    term = ("E", err) if len(fv) > len(vals) or sc["kind"] == "iter" else f.term
    vals, term = ops.model_chain(sc["ops"], pairs, term)
    check_exact(obs, vals, term, f"zip_seq {sc['kind']} {ops.describe(sc['ops'])}")


def chk_workflow(env, sc, obs, err):
    vals, term = ops.model_chain(sc["ops"], [], ("E", err))
    check_exact(obs, vals, term, f"from_async {sc['kind']} {ops.describe(sc['ops'])}")


def chk_inner(env, sc, obs, err):
    t = obs.terminal
    if t is None or t[0] != "E" or t[1] is not err:
        raise Violation("swallowed", f"{sc['op']}: subscribing to an inner stream raised {tok(err)}; observer saw {obs.text()}")


def chk_selector(env, sc, obs, err):
    n, at = sc["n"], sc["at"]
    what = f"{sc['f']} selector raises on call {at}"
    indexed = "mapi" in sc["f"]
    if sc["hot"] and not indexed:
        check_exact(obs, [("f", i) for i in range(n) if i != at], "C", what)
        if not any(x[2] is err for x in env.src.send_errors):
            raise Violation("swallowed", f"{what}: not raised out of the producer's send")
        env.probe("raised_to_producer")
    else:
        check_exact(obs, [("f", i) for i in range(at)], ("E", err), what)
        env.probe("fn_error_event")


def chk_defer(env, sc, obs, err):
    vals, term = ops.model_chain(sc["ops"], [], ("E", err))
    check_exact(obs, vals, term, f"defer via {sc['via']} {ops.describe(sc['ops'])}")


def chk_handler(env, sc, obs, err):
    check_exact(obs, env.owed, ("E", err), "catch with a raising handler")


def chk_interval(env, sc, obs, err):
    n = sc["at"]
    if sc["who"] == "observer":
        vals = list(range(n + 1))
    elif sc["who"] == "scan":
        vals = list(range(n))
    else:
        vals = list(range(n))
    check_exact(obs, vals, ("E", err), f"interval with raising {sc['who']}")


_CHECK = {
    "compare": chk_compare,
    "source": chk_source, "fn": chk_fn, "observer": chk_observer, "tree": chk_tree, "iterable": chk_iterable, "zip_iterable": chk_zip,
    "workflow": chk_workflow, "inner_subscribe": chk_inner, "selector": chk_selector, "defer": chk_defer, "handler": chk_handler, "interval": chk_interval,
}


def valid(sc):
    if sc["mode"] == "fn" and sum("boom_at" in o for o in sc["ops"]) != 1:
        return False
    if sc["mode"] in ("source", "handler"):
        s = sc["feed"]["script"] if sc["mode"] == "source" else sc["script"]
        if not s or s[-1][1] != "E":
            return False
    if sc["mode"] == "compare":
        return sc["bad"] < sum(1 for x in sc["script"] if x[1] == "N") and sc["script"][-1][1] == "C"
    if sc["mode"] == "selector" and sc["at"] >= sc["n"]:
        return False
    if sc["mode"] in ("iterable", "zip_iterable") and not sc["pz"]:
        return False
    from . import c03

    return c03.valid({"ops": sc.get("ops", [])})


def check(env, sc):
    obs = env.obs
    env.probe("mode_" + sc["mode"])
    env.nontrivial = True
    check_grammar(obs)
    if sc["mode"] not in ("source", "fn", "observer", "tree"):
        check_serial(obs)
    _CHECK[sc["mode"]](env, sc, obs, env.err)
    kit.check_errors(env, sc["mode"])
    cut = [e for e in obs.cut if e[0] != "N"]
    if cut:
        raise Violation("interrupted", f"{sc['mode']}: the observer's handler of {cut[0][0]}:{tok(cut[0][1])} was cancelled half-way; saw {obs.text()}")
