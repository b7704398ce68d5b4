"""C16: AsyncSubject delivers each send once to every current observer."""
import asyncio

import aioreactive as rx
from expression.system import ObjectDisposedException

from .. import kit
from ..core import Violation
from ..kit import Obs, dec, pause, tok

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
PROBES = ["sub_during_send", "unsub_during_send", "unsub_self_in_handler", "unsub_other_in_handler", "sub_in_handler", "concurrent_sends", "terminal_during_send", "send_after_terminal", "send_after_dispose", "sub_after_dispose", "dispose_during_send", "nested_send", "cancelled_send", "no_observers", "error", "complete", "three_or_more", "equal_observers"]


def gen_op(rng, i, live):
    r = rng.random()
    if r < 0.5:
        return ["send", None]
    if r < 0.72:
        return ["sub", None]
    if r < 0.9:
        return ["unsub", rng.randrange(6)]
    if r < 0.93:
        return ["close", None]
    if r < 0.96:
        return ["throw", kit.gen_err(rng)]
    if r < 0.98:
        return ["dispose", None]
    return ["send", None]


def gen(rng, idx, tier):
    nact = rng.choice([1, 1, 2, 3])
    style = rng.choice(["none", "yield", "yield", "sleep", "mixed"])
    actors = []
    n0 = kit.tail(rng, rng.choice([0, 1, 1, 2, 3, 4]), 5, 20)
    for a in range(nact):
        ops = [[0, "sub", None] for _ in range(n0)] if a == 0 else []
        for i in range(rng.randrange(1, 9)):
            ops.append([kit.gen_pause(rng, style), *gen_op(rng, i, None)])
        actors.append(ops)
    obs = []
    for _ in range(8):
        ostyle = rng.choice(["none", "none", "yield", "sleep", "mixed"])
        o = {"opz": [kit.gen_pause(rng, ostyle) for _ in range(6)] if ostyle != "none" else [], "acts": []}
        if rng.random() < 0.35:
            for _ in range(rng.choice([1, 1, 2])):
                r = rng.random()
                act = ["unsub", "self"] if r < 0.35 else ["unsub", rng.randrange(6)] if r < 0.6 else ["sub", None] if r < 0.85 else ["send", None] if r < 0.93 else ["close", None] if r < 0.97 else ["dispose", None]
                o["acts"].append([rng.randrange(0, 4), *act])
        obs.append(o)
    sc = {"actors": actors, "obs": obs, "form": rng.choice(kit.FORMS)}
    if rng.random() < 0.15:
        sc["eq"] = 1
        sc["form"] = "obj"
    if rng.random() < 0.12:
        sc["cancel"] = [rng.randrange(nact), rng.choice([0.0625, 0.3125, 0.5625, 1.0625]), rng.randrange(0, 6)]
    return sc


def valid(sc):
    return len(sc["obs"]) == 8 and bool(sc["actors"]) and all(len(o) == 3 for a in sc["actors"] for o in a) and all(len(x) == 3 for o in sc["obs"] for x in o["acts"])


class EqObs(Obs):
    """Observers of a class that defines equality, as dataclasses do: different, yet equal."""

    def __eq__(self, other):
        return isinstance(other, EqObs)

    __hash__ = None


class Rec:
    __slots__ = ("op", "v", "b", "e", "exc", "obs", "t")


async def start(env, sc):
    env.subj = subj = rx.AsyncSubject()
    env.recs = []
    env.observers = []
    env.nsend = 0
    env.finished = 0

    def rec(op, v):
        r = Rec()
        r.op, r.v, r.e, r.exc, r.obs, r.t = op, v, None, None, None, env.now
        r.b = env.log("op", op, tok(v))
        env.recs.append(r)
        return r

    async def do(op, arg, me=None):
        if op == "send":
            if env.nsend > 60:
                return
            v = (env.nsend, dec(kit.SPECIAL[env.nsend % len(kit.SPECIAL)]))
            env.nsend += 1
            r = rec("send", v)
            co = subj.asend(v)
        elif op == "throw":
            v = env.errors_of(arg)
            r = rec("throw", v)
            co = subj.athrow(v)
        elif op == "close":
            r = rec("close", None)
            co = subj.aclose()
        elif op == "dispose":
            r = rec("dispose", None)
            co = subj.dispose_async()
        elif op == "sub":
            if len(env.observers) > 24:
                return
            spec = sc["obs"][len(env.observers) % 8]
            o = (EqObs if sc.get("eq") else Obs)(env, f"o{len(env.observers)}", pauses=spec["opz"], on_event=handler)
            o.spec = spec
            o.disp = None
            o.sub = None
            env.observers.append(o)
            r = rec("sub", o.name)
            r.obs = o
            co = kit.subscribe(o, subj, sc["form"])
        else:
            o = me if arg == "self" else (env.observers[arg % len(env.observers)] if env.observers else None)
            if o is None or o.sub is None:
                return
            r = rec("unsub", o.name)
            r.obs = o
            if o.disp is None:
                o.disp = r
            co = o.sub.dispose_async()
        try:
            x = await co
            if op == "sub":
                o.sub = x
        except asyncio.CancelledError as ex:
            env.log("cancelled", op)
            if kit.was_cancelled():
                r.exc = "cancelled"
                return
            r.exc = ex  # somebody else's cancellation
        except Exception as ex:  # noqa: BLE001
            r.exc = ex
        r.e = env.log("ret", op, tok(r.v), tok(r.exc))

    async def handler(o, kind, n):
        for k, op, arg in o.spec["acts"]:
            if k == n:
                env.probe({"sub": "sub_in_handler", "send": "nested_send"}.get(op, "unsub_self_in_handler" if arg == "self" else "unsub_other_in_handler") if op in ("sub", "send", "unsub") else "concurrent_sends")
                await do(op, arg, o)

    async def actor(ops):
        for p, op, arg in ops:
            await pause(env, p)
            await do(op, arg)
        env.finished += 1

    tasks = [env.spawn(actor(ops), f"actor{i}") for i, ops in enumerate(sc["actors"])]
    if "cancel" in sc:
        await env.sleep(sc["cancel"][1])
        await pause(env, sc["cancel"][2])
        t = tasks[sc["cancel"][0] % len(tasks)]
        if not t.done():
            env.fault("task_cancelled")
            env.was_cancelled = True
            t.cancel()


def check(env, sc):
    recs = env.recs
    inf = 1 << 60
    for r in recs:
        if r.e is None and r.exc is None:
            raise Violation("stuck", f"{r.op} {tok(r.v)} never returned")
    cancelled = getattr(env, "was_cancelled", False)
    if sc.get("eq") and len(env.observers) > 1:
        env.probe("equal_observers")
    disp = next((r for r in recs if r.op == "dispose"), None)
    disp_b = disp.b if disp else inf
    disp_e = disp.e if disp and disp.e is not None else inf
    term = next((r for r in recs if r.op in ("throw", "close") and r.b < disp_b), None)
    term_b = term.b if term else inf
    subs = {o.name: next(r for r in recs if r.op == "sub" and r.obs is o) for o in env.observers}
    if len(env.observers) >= 3:
        env.probe("three_or_more")
    sends = [r for r in recs if r.op == "send"]
    for r in recs:
        if r.op in ("send", "throw", "close", "sub"):
            if r.b > disp_e:
                env.probe("sub_after_dispose" if r.op == "sub" else "send_after_dispose")
                if not isinstance(r.exc, ObjectDisposedException) and r.exc != "cancelled":
                    raise Violation("no-disposed-error", f"{r.op} after the subject was disposed: {tok(r.exc)}")
            elif r.exc not in (None, "cancelled") and not (isinstance(r.exc, ObjectDisposedException) and disp_b < (r.e or inf)):
                raise Violation("unexpected-error", f"{r.op} {tok(r.v)} raised {tok(r.exc)}")
        elif r.exc not in (None, "cancelled"):
            raise Violation("unexpected-error", f"{r.op} {tok(r.v)} raised {tok(r.exc)}")
    seen_sub = False
    for s in sends:
        se = s.e if s.e is not None else inf
        if s.exc == "cancelled":
            env.probe("cancelled_send")
        if term_b < s.b:
            env.probe("send_after_terminal")
        if s.b < term_b < se:
            env.probe("terminal_during_send")
        if s.b < disp_b < se:
            env.probe("dispose_during_send")
        if any(q is not s and q.b < s.b < (q.e or 0) for q in sends):
            env.probe("concurrent_sends")
        seen_sub = False
        for o in env.observers:
            u = subs[o.name]
            ue = u.e if u.e is not None and u.exc is None else inf
            if ue < s.b:
                seen_sub = True
            got = [e for e in o.events if e[0] == "N" and e[1] is s.v or (e[0] == "N" and tok(e[1]) == tok(s.v))]
            if len(got) > 1:
                raise Violation("duplicate", f"{o.name} received {tok(s.v)} {len(got)} times")
            db = o.disp.b if o.disp else inf
            de = o.disp.e if o.disp and o.disp.e is not None else inf
            if s.b < u.b < se:
                env.probe("sub_during_send")
            if s.b < db < se:
                env.probe("unsub_during_send")
            if got:
                why = None
                if u.b > se:
                    why = "it subscribed after the send had returned"
                elif de < s.b:
                    why = "its subscription had been disposed before"
                elif s.b > term_b:
                    why = "the subject had already terminated"
                elif s.b > disp_e:
                    why = "the subject had been disposed"
                elif not s.b < got[0][4] < se:
                    why = "the send was not running"
                if why:
                    raise Violation("wrong-delivery", f"{o.name} received {tok(s.v)} although {why}; {o.text()}")
            elif ue < s.b and db > se and s.e is not None and s.b < term_b and not s.b < term_b < se and s.b < disp_b and not s.b < disp_b < se and s.exc is None:
                raise Violation("lost", f"{o.name} never received {tok(s.v)}; {o.text()}")
    if sends and not seen_sub:
        env.probe("no_observers")
    vals = {tok(s.v): s for s in sends}
    for o in env.observers:
        u = subs[o.name]
        de = o.disp.e if o.disp and o.disp.e is not None else inf
        db = o.disp.b if o.disp else inf
        terms = [e for e in o.events if e[0] != "N"]
        if len(terms) > 1:
            raise Violation("two-terminals", f"{o.name}: {o.text()}")
        if terms:
            e = terms[0]
            if term is None or e[4] < term.b:
                raise Violation("wrong-terminal", f"{o.name}: terminal event nobody sent: {o.text()}")
            if e[0] != ("E" if term.op == "throw" else "C") or (term.op == "throw" and e[1] is not term.v):
                raise Violation("wrong-terminal", f"{o.name}: {term.op} {tok(term.v)} was first; {o.text()}")
            if de < term.b:
                raise Violation("wrong-delivery", f"{o.name}: terminal event after its subscription was disposed; {o.text()}")
        elif term is not None and term.e is not None and term.exc is None and u.e is not None and u.exc is None and u.e < term.b and db > term.e and not term.b < disp_b < term.e:
            raise Violation("lost-terminal", f"{o.name}: {term.op} never arrived; {o.text()}")
        if term is not None and terms:
            env.probe("error" if term.op == "throw" else "complete")
        # order: sends that did not overlap arrive in send order
        prev = []
        for e in o.events:
            if e[0] != "N":
                continue
            s = vals.get(tok(e[1]))
            if s is None:
                raise Violation("wrong-value", f"{o.name} received {tok(e[1])} which was never sent")
            for q in prev:
                if s.e is not None and s.e < q.b:
                    raise Violation("reordered", f"{o.name}: {tok(s.v)} after {tok(q.v)}; {o.text()}")
            prev.append(s)
    env.nontrivial = bool(sends)
