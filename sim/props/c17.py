"""C17: AsyncSingleSubject waits for its observer and never loses or hangs."""
import asyncio

import aioreactive as rx
from expression.system import ObjectDisposedException

from .. import kit
from ..core import Violation
from ..kit import Obs, dec, pause, same, tok

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
PROBES = ["waiting_send", "waiting_terminal", "several_waiting", "waiting_at_dispose", "op_after_dispose", "op_after_terminal", "send_right_after_attach", "never_attached", "unsubscribed", "subject_disposed", "cancelled_waiter", "nested_send", "concurrent", "error", "complete"]


def gen(rng, idx, tier):
    nact = rng.choice([1, 2, 2, 3, 4])
    style = rng.choice(["none", "none", "yield", "yield", "sleep", "mixed"])
    actors = []
    for a in range(nact):
        ops = []
        for i in range(rng.randrange(1, 6)):
            r = rng.random()
            op = ["send", None] if r < 0.75 else ["close", None] if r < 0.85 else ["throw", kit.gen_err(rng)] if r < 0.93 else ["dispose", None] if r < 0.97 else ["unsub", None]
            ops.append([kit.gen_pause(rng, style), *op])
        actors.append(ops)
    r = rng.random()
    if r < 0.9:
        # the attaching actor goes on sending: nothing may overtake what is waiting
        ops = [[kit.gen_pause(rng, rng.choice([style, "mixed", "sleep"])), "sub", None]]
        for i in range(rng.choice([0, 0, 1, 2])):
            r = rng.random()
            ops.append([kit.gen_pause(rng, rng.choice(["none", style])), *(["send", None] if r < 0.6 else ["close", None] if r < 0.7 else ["unsub", None] if r < 0.85 else ["dispose", None])])
        actors.insert(rng.randrange(len(actors) + 1), ops)
    ostyle = rng.choice(["none", "none", "yield", "sleep", "mixed"])
    sc = {"actors": actors, "opz": [kit.gen_pause(rng, ostyle) for _ in range(8)] if ostyle != "none" else [], "acts": [], "form": rng.choice(kit.FORMS)}
    if rng.random() < 0.2:
        sc["acts"].append([rng.randrange(0, 3), rng.choice(["send", "send", "unsub", "close", "dispose"]), None])
    if rng.random() < 0.2:
        sc["cancel"] = [rng.randrange(len(actors)), rng.choice([0, 0, 0.0625, 0.3125, 0.5625]), rng.randrange(0, 6)]
    return sc


def valid(sc):
    n = sum(1 for a in sc["actors"] for o in a if o[1:2] == ["sub"])
    return n <= 1 and bool(sc["actors"]) and all(len(o) == 3 for a in sc["actors"] for o in a) and all(len(x) == 3 for x in sc["acts"])


class Rec:
    __slots__ = ("op", "v", "b", "e", "exc", "t", "te", "i")


async def start(env, sc):
    env.subj = subj = rx.AsyncSingleSubject()
    env.recs = []
    env.sub = None
    env.nsend = 0

    async def do(op, arg):
        v = None
        if op == "unsub":
            if env.sub is None:
                return
            co = env.sub.dispose_async()
        elif op == "dispose":
            co = subj.dispose_async()
        elif op == "sub":
            co = kit.subscribe(env.obs, subj, sc["form"])
        elif op == "send":
            v = (env.nsend, dec(kit.SPECIAL[env.nsend % len(kit.SPECIAL)]))
            env.nsend += 1
            co = subj.asend(v)
        elif op == "throw":
            v = env.errors_of(arg)
            co = subj.athrow(v)
        else:
            co = subj.aclose()
        r = Rec()
        r.op, r.v, r.e, r.exc, r.t, r.te, r.i = op, v, None, None, env.now, None, len(env.recs)
        r.b = env.log("op", op, tok(v))
        env.recs.append(r)
        try:
            x = await co
            if op == "sub":
                env.sub = x
        except asyncio.CancelledError as ex:
            env.log("cancelled", op)
            if kit.was_cancelled():
                r.exc = "cancelled"
                raise
            r.exc = ex  # somebody else's cancellation
        except Exception as ex:  # noqa: BLE001
            r.exc = ex
        r.te = env.now
        r.e = env.log("ret", op, tok(v), tok(r.exc))

    async def handler(o, kind, n):
        for k, op, arg in sc["acts"]:
            if k == n and env.nsend < 40:
                env.probe("nested_send")
                await do(op, arg)

    env.obs = Obs(env, "o", pauses=sc["opz"], on_event=handler)

    async def actor(ops):
        for p, op, arg in ops:
            await pause(env, p)
            await do(op, arg)

    tasks = [env.spawn(actor(ops), f"actor{i}") for i, ops in enumerate(sc["actors"])]
    if "cancel" in sc:
        await env.sleep(sc["cancel"][1])
        await pause(env, sc["cancel"][2])
        t = tasks[sc["cancel"][0] % len(tasks)]
        if not t.done():
            env.fault("task_cancelled")
            t.cancel()


def check(env, sc):
    recs = env.recs
    inf = float("inf")
    disp = next((r for r in recs if r.op in ("dispose", "unsub") and r.exc is None), None)
    sub = next((r for r in recs if r.op == "sub"), None)
    attached = sub is not None and sub.exc is None and (disp is None or sub.b < disp.b)
    if not attached:
        env.probe("never_attached")
    ops = [r for r in recs if r.op in ("send", "throw", "close")]
    env.nontrivial = bool(ops)
    if disp is not None:
        env.probe("unsubscribed" if disp.op == "unsub" else "subject_disposed")
    shown = [(r.op, tok(r.v), r.t, tok(r.exc)) for r in recs]
    first = next((r for r in ops if r.op != "send" and r.exc != "cancelled"), None)
    before = [r for r in ops if attached and r.b < sub.b]
    if len(before) > 1:
        env.probe("several_waiting")
    for r in ops:
        waits = not attached or r.b < sub.b
        if waits:
            env.probe("waiting_send" if r.op == "send" else "waiting_terminal")
        elif before and r.t == sub.t:
            env.probe("send_right_after_attach")
        if r.exc == "cancelled":
            if waits:
                env.probe("cancelled_waiter")
            continue
        if any(q is not r and q.b < r.b and (q.e is None or q.e > r.b) for q in ops):
            env.probe("concurrent")
        if first is not None and r.b > first.b:
            env.probe("op_after_terminal")
        if disp is not None and disp.e is not None and r.b > disp.e:
            env.probe("op_after_dispose")
            if not isinstance(r.exc, ObjectDisposedException):
                raise Violation("no-disposed-error", f"{r.op} after dispose {'never returned' if r.e is None else 'returned ' + tok(r.exc)}; ops {shown}")
            continue
        if disp is not None and not attached:
            env.probe("waiting_at_dispose")
            if not isinstance(r.exc, ObjectDisposedException):
                raise Violation("waiter-not-released", f"{r.op} waiting for an observer {'never returned' if r.e is None else 'returned ' + tok(r.exc)} although the subject was disposed; ops {shown}")
            if r.te - disp.t > 1e-6:
                raise Violation("waiter-not-released", f"{r.op} released at {r.te:g}, disposed at {disp.t:g}")
            continue
        if r.e is None and attached:
            raise Violation("stuck", f"{r.op} {tok(r.v)} never returned; ops {shown}; saw {env.obs.text()}")
        if r.e is not None and not attached:
            raise Violation("did-not-wait", f"{r.op} {tok(r.v)} returned {tok(r.exc)} with no observer; ops {shown}")
        if r.exc is not None and not (isinstance(r.exc, ObjectDisposedException) and disp is not None and r.b < disp.b):
            raise Violation("unexpected-error", f"{r.op} {tok(r.v)} raised {tok(r.exc)}; ops {shown}")
    for r in recs:
        if r.op in ("unsub", "dispose"):
            if r.exc not in (None, "cancelled") or (r.e is None and r.exc is None):
                raise Violation("dispose-failed", f"{r.op}: {tok(r.exc)}; ops {shown}")
        if r.op == "sub" and disp is not None and disp.e is not None and r.b > disp.e and r.exc != "cancelled" and not isinstance(r.exc, ObjectDisposedException):
            raise Violation("no-disposed-error", f"subscribe after dispose: {tok(r.exc)}; ops {shown}")
    ev = env.obs.events
    if not attached:
        if ev:
            raise Violation("spurious", f"saw {env.obs.text()} without an attached observer; ops {shown}")
        return
    # what the observer must see, in issue order; cancelled operations and those cut off by dispose are optional
    states = {(0, False)}
    for r in ops:
        nxt = set()
        if disp is not None and disp.e is not None and r.b > disp.e:
            break
        due = max(r.t, sub.t)
        optional = r.exc == "cancelled" or (isinstance(r.exc, ObjectDisposedException) and disp is not None and disp.t <= due + 1e-6)
        kind = {"send": "N", "throw": "E", "close": "C"}[r.op]
        for j, stop in states:
            if stop:
                nxt.add((j, True))
                continue
            if optional:
                nxt.add((j, False))
            if j < len(ev) and ev[j][0] == kind and ev[j][4] > r.b and (ev[j][1] is r.v or (kind == "N" and same(ev[j][1], r.v))):
                nxt.add((j + 1, kind != "N"))
        if not nxt:
            raise Violation("lost-or-reordered", f"{r.op} {tok(r.v)} was not delivered in issue order; ops {shown}; saw {env.obs.text()}")
        states = nxt
    if not any(j == len(ev) for j, _ in states):
        raise Violation("spurious", f"unexpected event {max(j for j, _ in states)}; ops {shown}; saw {env.obs.text()}")
    if env.obs.terminal:
        env.probe("error" if env.obs.terminal[0] == "E" else "complete")
