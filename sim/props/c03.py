"""C03: chains of per-item operators against the list model."""
from .. import kit, ops
from ..core import Violation

QUICK = 100000
THOROUGH = 600000
PROBES = ["error_term", "no_term", "long", "early_limit", "async_fn_suspended", "falsy_values", "chained_style", "falsy_results", "partial_handlers", "overlapping_sends"]


def gen(rng, idx, tier):
    n = kit.gen_len(rng)
    vals = kit.gen_values(rng, n)
    term = kit.term_ev(rng)
    style = kit.gen_style(rng)
    # every operator is the focus of every len(LINEAR)-th run
    focus = ops.gen_op(rng, [ops.LINEAR[idx % len(ops.LINEAR)]], n, kit.gen_style(rng))
    chain = ops.gen_chain(rng, ops.LINEAR, n, 4, kit.gen_style(rng)) if rng.random() < 0.6 else []
    chain.insert(rng.randrange(len(chain) + 1), focus)
    if rng.random() < 0.3:
        for o in chain:
            o["ch"] = 1
    if rng.random() < 0.5:
        for o in chain:
            o["out"] = rng.choice([0, 0, 1, 2])
    ostyle = kit.gen_style(rng)
    sc = {
        "feed": kit.gen_feed(rng, vals, style, term),
        "ops": chain,
        "opz": [kit.gen_pause(rng, ostyle) for _ in range(min(n + 1, 20))] if ostyle != "none" else [],
        "form": rng.choice(kit.FORMS),
        "lead": kit.gen_pause(rng, "yield"),
    }
    if rng.random() < 0.08:
        sc["part"] = [rng.randrange(2) for _ in range(3)]  # which of the three handlers are given
    elif rng.random() < 0.1:
        # the source does not wait for its sends; synchronous user functions only
        sc["ops"] = [o for o in chain if o["op"] not in ops.ASYNC] or [ops.gen_op(rng, ["scan", "map", "filter", "choose"], n)]
        sc["feed"]["kind"] = rng.choice(["hot", "subject"])
        sc["overlap"] = 1
    return sc


def valid(sc):
    for o in sc["ops"]:
        if o["op"] == "slice":
            a, b = o["start"], o["stop"]
            if b == 0 or (b is not None and b > 0 and (a or 0) < 0) or (b is not None and b > 0 and b <= (a or 0)):
                return False
            if o["step"] is not None and o["step"] < 1:
                return False
        if o["op"] in ("filter", "filter_async", "starfilter", "choose", "choose_async", "filteri") and o["m"] < 1:
            return False
    return True


async def start(env, sc):
    feed = env.feed = kit.Feed(env, sc["feed"])
    xs = ops.apply_chain(env, feed.xs, sc["ops"])
    env.obs = kit.Obs(env, pauses=sc["opz"])
    if "part" in sc:
        hs = [h if p else None for h, p in zip((env.obs.asend, env.obs.athrow, env.obs.aclose), sc["part"])]
        await xs.subscribe_async(*hs)
    else:
        await kit.subscribe(env.obs, xs, sc["form"])
    await kit.pause(env, sc["lead"])
    if "overlap" not in sc:
        await feed.drive()
        return

    async def send(k, v):
        if feed.src:
            return await feed.src.emit(k, v)
        v = env.errors_of(v) if k == "E" else kit.dec(v)
        await (feed.xs.asend(v) if k == "N" else feed.xs.athrow(v) if k == "E" else feed.xs.aclose())

    env.fault("overlapping_sends")
    pending = []
    for p, k, v in feed.script:
        await kit.pause(env, p)
        if k != "N":
            for t in pending:
                await t
            await send(k, v)
        else:
            if env.obs.busy:
                env.probe("overlapping_sends")
            pending.append(env.spawn(send(k, v), "send"))
            await kit.pause(env, 1)


def check(env, sc):
    f = env.feed
    errs = f.send_errors or (f.src and f.src.send_errors)
    # a limit that was reached disposes the subscription, and with it an AsyncSingleSubject
    if errs and not (f.kind == "single_subject" and all(isinstance(e, kit.ObjectDisposedException) for e in errs)):
        raise Violation("send-raised", f"a send raised {errs}")
    vals, term = ops.model_chain(sc["ops"], f.values, f.term)
    if f.kind == "during" and any(o["op"] in ("take", "zip_seq", "slice") for o in sc["ops"]):
        env.probe("early_limit_during_subscribe")
    env.nontrivial = len(f.script) > 0
    if f.term is None:
        env.probe("no_term")
    elif f.term != "C":
        env.probe("error_term")
    if len(f.script) > 30:
        env.probe("long")
    if term != f.term:
        env.probe("early_limit")
    if any(o.get("pz") for o in sc["ops"]):
        env.probe("async_fn_suspended")
    if any(kit.falsy(v) for v in f.values):
        env.probe("falsy_values")
    if any(o.get("out") for o in sc["ops"]):
        env.probe("falsy_results")
    if any(o.get("ch") for o in sc["ops"]):
        env.probe("chained_style")
    if "part" in sc:
        env.probe("partial_handlers")
        if not sc["part"][0]:
            vals = []
        if term is not None and not sc["part"][2 if term == "C" else 1]:
            term = None
    kit.check_exact(env.obs, vals, term, ops.describe(sc["ops"]))
    kit.check_grammar(env.obs)
