"""C23: source constructors emit exactly their input to every subscriber."""
import asyncio

import aioreactive as rx
from aioreactive import AsyncRx
from aioreactive import create as _create
from aioreactive.iterable.to_async_observable import to_async_observable
from expression.system import AsyncDisposable

from .. import kit
from ..core import Violation
from ..kit import AIter, Obs, dec, pause, same, tok

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
KINDS = ["iter", "iter", "iter_rx", "gen", "range", "aiter", "aiter", "aiter_rx", "aiter_mod", "single", "single_rx", "empty", "empty_rx", "never", "fail", "from_async", "of_async", "future", "defer", "create"]
PROBES = sorted(set(KINDS)) + ["several_subscribers", "disposed", "slow_observer", "iterable_raised", "workflow_raised", "long", "pull_stopped", "defer_raised"]


def gen(rng, idx, tier):
    kind = KINDS[idx % len(KINDS)]
    style = kit.gen_style(rng)
    n = kit.gen_len(rng)
    sc = {"kind": kind, "script": kit.gen_script(rng, kit.gen_values(rng, n), style, ["E", kit.gen_err(rng)] if rng.random() < 0.25 else ["C", None]), "v": rng.choice(kit.SPECIAL + [7]), "wf": [kit.gen_pause(rng, style) for _ in range(rng.randrange(0, 4))], "err": kit.gen_err(rng), "boom": int(rng.random() < 0.25), "subs": []}
    nsub = 1 if kind in ("gen", "from_async", "of_async") else rng.choice([1, 1, 2, 3])
    for i in range(nsub):
        ostyle = rng.choice(["none", "none", "yield", "sleep", "mixed"])
        s = {"at": 0 if i == 0 else rng.choice([0, 0, 1, 2, 0.125, 0.5, 2.0]), "opz": [kit.gen_pause(rng, ostyle) for _ in range(10)] if ostyle != "none" else [], "form": rng.choice(kit.FORMS)}
        if rng.random() < 0.25:
            s["dispose"] = [rng.choice([0, 0, 0.0625, 0.1875, 0.5625, 1.0625]), rng.randrange(0, 6)]
        subs = sc["subs"]
        subs.append(s)
    return sc


def valid(sc):
    return bool(sc["subs"]) and all(len(e) == 3 and e[1] in ("N", "C", "E") for e in sc["script"])


class Iterable:
    """Re-iterable sync iterable that may raise."""

    def __init__(self, env, script):
        self.env = env
        self.script = script

    def __iter__(self):
        return self.items()

    def items(self):
        env = self.env
        for _, k, v in self.script:
            if k == "C":
                return
            if k == "E":
                env.fault("iterable_raises")
                raise env.errors_of(v)
            yield dec(v)


async def start(env, sc):
    kind = sc["kind"]
    env.obs = []
    env.ai = None
    env.factory = []
    env.wf_log = []
    env.created = []
    vals = []
    term = "C"
    for _, k, v in sc["script"]:
        if k == "N":
            vals.append(dec(v))
        else:
            term = "C" if k == "C" else ("E", env.errors_of(v))
            break
    err = env.errors_of(sc["err"])

    async def wf():
        for p in sc["wf"]:
            await pause(env, p)
            env.wf_log.append((env.log("wf-step"), env.now))
        if sc["boom"]:
            env.fault("workflow_raises")
            raise err
        return dec(sc["v"])

    if kind in ("iter", "gen", "iter_rx"):
        it = Iterable(env, sc["script"])
        xs = rx.from_iterable(it.items() if kind == "gen" else it) if kind != "iter_rx" else AsyncRx.from_iterable(it)
    elif kind == "range":
        xs, vals, term = rx.from_iterable(range(len(vals))), list(range(len(vals))), "C"
    elif kind.startswith("aiter"):
        env.ai = AIter(env, "ai", sc["script"])
        xs = {"aiter": rx.from_async_iterable, "aiter_rx": AsyncRx.from_async_iterable, "aiter_mod": to_async_observable}[kind](env.ai)
    elif kind in ("single", "single_rx"):
        v = dec(sc["v"])
        xs, vals, term = (rx.single(v) if kind == "single" else AsyncRx.single(v)), [v], "C"
    elif kind in ("empty", "empty_rx"):
        xs, vals, term = (rx.empty() if kind == "empty" else AsyncRx.empty()), [], "C"
    elif kind == "never":
        xs, vals, term = rx.never(), [], None
    elif kind == "fail":
        xs, vals, term = _create.fail(err), [], ("E", err)
    elif kind in ("from_async", "of_async"):
        xs = (rx.from_async if kind == "from_async" else rx.of_async)(wf())
        vals, term = ([], ("E", err)) if sc["boom"] else ([dec(sc["v"])], "C")
    elif kind == "future":
        fut = asyncio.ensure_future(wf())
        fut.add_done_callback(lambda f: f.cancelled() or f.exception())

        async def shielded():
            return await asyncio.shield(fut)

        xs = rx.defer(lambda: rx.from_async(shielded()))
        vals, term = ([], ("E", err)) if sc["boom"] else ([dec(sc["v"])], "C")
    elif kind == "defer":

        def factory():
            env.factory.append(env.now)
            if sc["boom"]:
                env.fault("user_function_raises")
                raise err
            return rx.from_iterable(Iterable(env, sc["script"]))

        xs = rx.defer(factory)
        if sc["boom"]:
            vals, term = [], ("E", err)
    else:

        async def subscribe(observer):
            rec = {"disposed": 0, "obs": observer}
            env.created.append(rec)

            async def disp():
                rec["disposed"] += 1

            async def push():
                for v in vals:
                    await observer.asend(v)
                if term == "C":
                    await observer.aclose()
                else:
                    await observer.athrow(term[1])

            env.spawn(push(), "push")
            return AsyncDisposable.create(disp)

        xs = _create.create(subscribe)
    env.vals, env.term = vals, term

    async def subber(i, s):
        await pause(env, s["at"])
        o = Obs(env, f"o{i}", pauses=s["opz"])
        o.spec = s
        o.t0 = env.now
        o.disp = None
        env.obs.append(o)
        sub = await kit.subscribe(o, xs, s["form"])
        if "dispose" in s:
            await pause(env, s["dispose"][0])
            await pause(env, s["dispose"][1])
            env.fault("dispose")
            o.disp = env.now
            o.disp_b = env.log("dispose", o.name)
            await sub.dispose_async()
            await env.settle()
            o.disp_e = env.log("disposed", o.name)

    for i, s in enumerate(sc["subs"]):
        env.spawn(subber(i, s), f"sub{i}")


def check(env, sc):
    kind = sc["kind"]
    env.probe(kind)
    vals, term = env.vals, env.term
    if len(vals) > 20:
        env.probe("long")
    if len(env.obs) > 1:
        env.probe("several_subscribers")
    if kind in ("iter", "gen", "iter_rx", "aiter", "aiter_rx", "aiter_mod") and isinstance(term, tuple):
        env.probe("iterable_raised")
    if kind in ("from_async", "of_async", "future") and sc["boom"]:
        env.probe("workflow_raised")
    env.nontrivial = bool(vals)
    for o in env.obs:
        slow = any(o.spec["opz"])
        if slow:
            env.probe("slow_observer")
        kit.check_grammar(o)
        if o.disp is None:
            kit.check_exact(o, vals, term, kind)
            if not slow:
                check_time(env, sc, o)
            continue
        env.probe("disposed")
        got = o.values
        if len(got) > len(vals) or not all(same(a, b) for a, b in zip(got, vals)):
            raise Violation("wrong-values", f"{kind} {o.name}: expected a prefix of {[tok(v) for v in vals]}; saw {o.text()}")
        t = o.terminal
        if t is not None and (len(got) < len(vals) or term is None or (t[0] == "C") != (term == "C") or (term != "C" and t[1] is not term[1])):
            raise Violation("wrong-terminal", f"{kind} {o.name}: {o.text()} after dispose; input {[tok(v) for v in vals]} {term}")
    if len(env.obs) == 1 and env.obs[0].disp is not None:
        o = env.obs[0]
        if env.ai is not None:
            late = [p for p in env.ai.pull_log if p[1] > o.disp_e]
            if late:
                raise Violation("pulled-after-dispose", f"{kind}: item pulled at t={late[0][2]:g} after dispose at t={o.disp:g}")
            if len(env.ai.pull_log) < len(sc["script"]):
                env.probe("pull_stopped")
        if kind in ("from_async", "of_async"):
            late = [p for p in env.wf_log if p[0] > o.disp_e]
            if late:
                raise Violation("workflow-after-dispose", f"{kind}: the workflow went on at t={late[0][1]:g} after dispose at t={o.disp:g}")
    if kind == "defer":
        if sc["boom"]:
            env.probe("defer_raised")
        if len(env.factory) != len(env.obs):
            raise Violation("factory-calls", f"defer: factory called {len(env.factory)} times for {len(env.obs)} subscriptions")
    if kind == "create":
        if len(env.created) != len(env.obs):
            raise Violation("create-calls", f"create: subscribe function called {len(env.created)} times for {len(env.obs)} subscriptions")
        n = sum(1 for o in env.obs if o.disp is not None)
        if sum(r["disposed"] for r in env.created) != n:
            raise Violation("create-dispose", f"create: {sum(r['disposed'] for r in env.created)} disposals, expected {n}")


def check_time(env, sc, o):
    """An idle observer gets every item in the instant it becomes available."""
    kind = sc["kind"]
    if kind in ("iter", "gen", "iter_rx", "range", "single", "single_rx", "empty", "empty_rx", "fail", "defer", "create"):
        for e in o.events:
            if abs(e[2] - o.t0) > 1e-6:
                raise Violation("late", f"{kind} {o.name}: subscribed at {o.t0:g}, saw {o.text()}")
    elif env.ai is not None and len(env.obs) == 1:
        for e, y in zip((e for e in o.events if e[0] == "N"), env.ai.yields):
            if abs(e[2] - y[1]) > 1e-6:
                raise Violation("late", f"{kind} {o.name}: item available at {y[1]:g}; saw {o.text()}")
