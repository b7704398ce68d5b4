"""C12: catch and retry recover exactly as specified and stay disposable."""
import aioreactive as rx
from aioreactive import AsyncRx

from .. import kit
from ..core import Violation
from ..kit import Obs, Src, dec, pause, tok

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
PROBES = ["catch", "retry", "recovered", "gave_up", "handler_raised", "sync_failure", "disposed", "disposed_during_recovery", "two_subscribers", "handler_stream_failed", "slow_observer", "rude_stream", "handler_subscribe_failed", "handler_subscribe_failed_late"]


def gen_stream(rng, i, style, p_err, sync):
    n = rng.choice([0, 1, 1, 2, 3])
    r = rng.random()
    term = ["E", {"E": rng.choice(kit.ERR_NAMES), "i": i}] if r < p_err else ["C", None] if r < p_err + (1 - p_err) * 0.85 else None
    st = "yield" if sync and style in ("sleep", "mixed") else style
    return kit.gen_script(rng, [[i, j] for j in range(n)], st, term)


def gen(rng, idx, tier):
    op = ["catch", "retry"][idx % 2]
    style = kit.gen_style(rng)
    k = rng.choice([1, 2, 2, 3, 4, 5])
    p_err = rng.choice([0.5, 0.8, 1.0])
    sync = [int(rng.random() < 0.25) for _ in range(k)]
    sc = {
        "op": op,
        "streams": [gen_stream(rng, i, style, p_err, sync[i]) for i in range(k)],
        "sync": sync,
        "sp": rng.choice([0, 0, 1, 2, 4, 0.25]),
        "dp": rng.choice([0, 0, 1, 2]),
        "form": rng.choice(kit.FORMS),
        "ch": rng.randrange(2),
    }
    if op == "retry":
        sc["n"] = kit.tail(rng, rng.choice([0, 1, 1, 2, 3, 4, 7]), 8, 24)
        if rng.random() < 0.2:
            sc["subs"] = rng.choice([2, 3])
            sc["gap"] = kit.gen_pause(rng, "mixed")
            sc["streams"] = sc["streams"][:1]
            sc["sync"] = sc["sync"][:1]
    else:
        if k > 1 and rng.random() < 0.12:
            # subscribing to a handler's stream fails, at once or after events have begun to flow
            i = rng.randrange(1, k)
            sc["leak"] = [i, rng.choice(["before", "after", "after"]), {"E": rng.choice(kit.ERR_NAMES), "i": 88}]
            if sync[i]:
                sc["streams"][i] = [e for e in sc["streams"][i] if e[1] != "E"]
        if rng.random() < 0.3:
            sc["boom_at"] = rng.randrange(k)
            sc["boom"] = {"E": rng.choice(kit.ERR_NAMES), "i": 77}
    if rng.random() < 0.15:
        # streams that go on sending after they have failed or completed
        sc["rude"] = 1
        for i, s in enumerate(sc["streams"]):
            if s and s[-1][1] != "N" and not sc["sync"][i]:
                for j in range(rng.randrange(0, 4)):
                    kind = rng.choice("NNNCE")
                    s.append([kit.gen_pause(rng, style), kind, [i, "junk", j] if kind == "N" else {"E": "Boom", "i": 99} if kind == "E" else None])
    ostyle = kit.gen_style(rng)
    sc["opz"] = [kit.gen_pause(rng, ostyle) for _ in range(8)] if ostyle != "none" else []
    if rng.random() < 0.3 and "subs" not in sc:
        sc["dispose"] = [rng.choice([0, 0.125, 0.25, 0.5, 1.0, 2.0]), rng.randrange(0, 10)]
        sc["opz"] = []
    return sc


def valid(sc):
    if not sc["streams"] or len(sc["sync"]) != len(sc["streams"]):
        return False
    return all(len(e) == 3 and e[1] in ("N", "E", "C") for s in sc["streams"] for e in s)


async def start(env, sc):
    streams = sc["streams"]
    env.handler_args = []
    env.subs_obs = []
    if sc["op"] == "catch":
        env.srcs = [Src(env, f"s{i}", script=s, sync=[sc["sync"][i]], sub_pause=sc["sp"], disp_pause=sc["dp"], rude=bool(sc.get("rude"))) for i, s in enumerate(streams)]
        if "leak" in sc:
            i, when, e = sc["leak"]
            if i < len(env.srcs):
                if when == "before":
                    env.srcs[i].sub_err = env.errors_of(e)
                else:
                    env.srcs[i].late_err = env.errors_of(e)
                    env.srcs[i].rude = True

        def handler(ex):
            k = len(env.handler_args)
            env.handler_args.append(ex)
            if sc.get("boom_at") == k:
                env.fault("user_function_raises")
                raise env.errors_of(sc["boom"])
            return env.srcs[k + 1] if k + 1 < len(env.srcs) else rx.empty()

        xs = rx.pipe(env.srcs[0], rx.catch(handler))
    else:
        env.srcs = [Src(env, "s", scripts=streams, sync=sc["sync"], sub_pause=sc["sp"], disp_pause=sc["dp"], rude=bool(sc.get("rude")))]
        xs = rx.pipe(env.srcs[0], rx.retry(sc["n"]))
    for i in range(sc.get("subs", 1)):
        obs = Obs(env, name=f"obs{i}", pauses=sc["opz"])
        env.subs_obs.append(obs)
        if i:
            await pause(env, sc["gap"])
        sub = await kit.subscribe(obs, xs, sc["form"])
    env.snap = None
    if "dispose" in sc:
        await pause(env, sc["dispose"])
        env.fault("dispose")
        env.log("dispose")
        if env.subs_obs[0].terminal is None and (env.handler_args or len(env.srcs[0].subs) > 1):
            env.probe("disposed_during_recovery")
        await sub.dispose_async()
        env.log("dispose-returned")
        await env.settle()
        env.snap = {"live": [(s.name, x.k) for s in env.srcs for x in s.live], "nsubs": sum(len(s.subs) for s in env.srcs), "nev": len(env.subs_obs[0].events)}


def expected(env, sc):
    """(values, terminal, number of streams subscribed, handler arguments)"""
    vals, args = [], []
    i = 0
    limit = len(sc["streams"]) if sc["op"] == "catch" else sc["n"] + 1
    while True:
        if sc["op"] == "catch" and i >= limit:
            return vals, "C", i, args
        script = sc["streams"][min(i, len(sc["streams"]) - 1)]
        i += 1
        term = None
        if "leak" in sc and sc["leak"][0] == i - 1:
            err = ("E", env.errors_of(sc["leak"][2]))
            env.leaked = i - 1
            if sc["leak"][1] == "before":
                return vals, err, i - 1, args
            if not sc["sync"][i - 1]:
                return vals, err, i, args
            term = err
        for _, k, v in script:
            if k == "N":
                vals.append(dec(v))
            else:
                term = (k, env.errors_of(v) if k == "E" else None)
                break
        if term is None:
            return vals, None, i, args
        if term[0] == "C":
            return vals, "C", i, args
        if sc["op"] == "catch":
            if hasattr(env, "leaked"):
                return vals, term, i, args
            args.append(term[1])
            if sc.get("boom_at") == len(args) - 1:
                return vals, ("E", env.errors_of(sc["boom"])), i, args
        elif i == limit:
            return vals, term, i, args


def check(env, sc):
    op = sc["op"]
    env.probe(op)
    vals, term, n, args = expected(env, sc)
    obs = env.subs_obs[0]
    env.nontrivial = True
    for o in env.subs_obs:
        kit.check_grammar(o)
    if sc.get("rude"):
        env.probe("rude_stream")
    if hasattr(env, "leaked"):
        env.probe("handler_subscribe_failed" if sc["leak"][1] == "before" else "handler_subscribe_failed_late")
    if any(sc["opz"]):
        env.probe("slow_observer")
    if env.faults.get("emit_during_subscribe"):
        env.probe("sync_failure")
    for s in env.srcs:
        if s.send_errors:
            raise Violation("send-raised", f"{op}: a send raised {s.send_errors[0]}")
    what = f"{op}{'(%d)' % sc['n'] if op == 'retry' else ''}"
    # handler is called with each error, by identity, in order
    got_args = env.handler_args
    if any(a is not b for a, b in zip(got_args, args)) or len(got_args) > len(args):
        raise Violation("handler-calls", f"{what}: handler called with {[tok(a) for a in got_args]}, sources failed with {[tok(a) for a in args]}")
    total = sum(len(s.subs) for s in env.srcs)
    if op == "catch" and any(len(s.subs) > 1 for s in env.srcs):
        raise Violation("resubscribed", f"{what}: a stream was subscribed more than once")
    if len(env.subs_obs) == 1:
        # a failed stream is disposed once the next one has been subscribed, unless everything ended meanwhile
        subs = sorted((x for s in env.srcs for x in s.subs), key=lambda x: x.sub_seq)
        for i, (a, b) in enumerate(zip(subs, subs[1:])):
            if a.done and a.disp_seq is None and b.returned and not sc["sync"][min(i + 1, len(sc["sync"]) - 1)] and "leak" not in sc:
                raise Violation("failed-kept", f"{what}: attempt {i} failed and was never disposed although the next one was subscribed at t={b.sub_t:g}; saw {obs.text()}")
    if "dispose" in sc:
        env.probe("disposed")
        snap = env.snap
        if snap is None:
            raise Violation("dispose-hangs", f"{what}: dispose never returned")
        late = [(s.name, x.k) for s in env.srcs for x in s.live]
        if late or (snap["live"] and not isinstance(sc["sp"], float)):
            raise Violation("not-released", f"{what}: still subscribed to {late or snap['live']} after dispose")
        if total != snap["nsubs"] or len(obs.events) != snap["nev"]:
            raise Violation("active-after-dispose", f"{what}: {total - snap['nsubs']} new subscriptions and {len(obs.events) - snap['nev']} events after dispose; saw {obs.text()}")
        if total > n:
            raise Violation("too-many-attempts", f"{what}: {total} subscriptions, at most {n} expected")
        gv = obs.values
        if [tok(v) for v in gv] != [tok(v) for v in vals[: len(gv)]]:
            raise Violation("wrong-values", f"{what}: expected a prefix of {vals}; saw {obs.text()}")
        t = obs.terminal
        if t is not None:
            kit.check_exact(obs, vals, term, what)
        return
    if len(args) > 1 or (op == "retry" and n > 1):
        env.probe("handler_stream_failed")
    if n > 1 and term == "C":
        env.probe("recovered")
    if op == "retry" and term not in (None, "C"):
        env.probe("gave_up")
    if op == "catch" and term not in (None, "C"):
        env.probe("handler_raised")
    if len(env.subs_obs) > 1:
        env.probe("two_subscribers")
    for o in env.subs_obs:
        kit.check_exact(o, vals, term, what)
    if len(got_args) != len(args):
        raise Violation("handler-calls", f"{what}: handler called {len(got_args)} times, {len(args)} failures")
    want = n * len(env.subs_obs)
    if total != want:
        raise Violation("attempts", f"{what}: {total} subscriptions, {want} expected; saw {obs.text()}")
    live = [(s.name, x.k) for s in env.srcs for x in s.live]
    if term is not None and live:
        raise Violation("not-released", f"{what}: still subscribed to {live} after the end")


__all__ = ["AsyncRx"]
