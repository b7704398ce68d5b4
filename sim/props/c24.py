"""C24: the reactivex bridge carries the whole stream and releases its source."""
import aioreactive as rx
from aioreactive.leave import to_observable
from reactivex import operators as rop
from reactivex.abc import ObserverBase

from .. import kit
from ..core import Violation
from ..kit import Feed, pause, same, tok

QUICK = 100000
THOROUGH = 1500000
HORIZON = 1e6
PROBES = ["full", "error", "unfinished", "several", "disposed", "disposed_at_once", "disposed_while_subscribing", "disposed_in_callback", "take", "subscribe_failed", "during", "library_source", "observer_object", "chain", "late_subscriber"]


def gen(rng, idx, tier):
    style = kit.gen_style(rng)
    term = kit.term_ev(rng)
    vals = kit.gen_values(rng, kit.gen_len(rng))
    sc = {"feed": kit.gen_feed(rng, vals, style, term, ["hot", "hot", "hot", "cold", "cold", "during", "iter", "aiter", "subject"]), "tie": rng.choice(["fifo", "lifo"])}
    subs = []
    n = 1 if sc["feed"]["kind"] == "aiter" else rng.choice([1, 1, 1, 2, 3])
    for _ in range(n):
        s = {"form": rng.choice(["fns", "obj"])}
        r = rng.random()
        if r < 0.1:
            s["dispose"] = ["now"]
        elif r < 0.35:
            s["dispose"] = ["at", rng.choice([0, 0, 0.0625, 0.1875, 0.3125, 0.5625, 1.0625, 2.0625]), rng.choice([0, 1, 1, 2, 3, 4, 6, 9])]
        elif r < 0.45:
            s["dispose"] = ["event", rng.randrange(4)]
        elif r < 0.55:
            s["take"] = rng.randrange(1, 5)
        if rng.random() < 0.15:
            s["late"] = rng.choice([1, 2, 3, 0.0625, 0.3125, 0.8125])
        subs.append(s)
    sc["subs"] = subs
    if rng.random() < 0.25:
        sc["sub_pause"] = kit.gen_pause(rng, rng.choice(["yield", "sleep"]))
    if rng.random() < 0.1:
        sc["disp_pause"] = kit.gen_pause(rng, rng.choice(["yield", "sleep"]))
    if sc["feed"]["kind"] in ("hot", "cold", "during") and rng.random() < 0.06:
        sc["sub_err"] = kit.gen_err(rng)
    if rng.random() < 0.15 and "sub_err" not in sc:
        sc["map"] = 1
    return sc


def valid(sc):
    return bool(sc["subs"]) and all(len(e) == 3 for e in sc["feed"]["script"])


class Rec:
    """What one reactivex observer saw."""

    def __init__(self, env, i, spec):
        self.env, self.i, self.spec = env, i, spec
        self.events = []  # (kind, payload, time, seq)
        self.disposed = None  # (time, seq)
        self.sub = None

    def ev(self, kind, payload):
        self.events.append((kind, payload, self.env.now, self.env.log(f"rx{self.i}", kind, tok(payload))))
        d = self.spec.get("dispose")
        if d and d[0] == "event" and len(self.events) - 1 == d[1]:
            self.env.probe("disposed_in_callback")
            self.dispose()

    def dispose(self):
        if self.disposed is None and self.sub is not None:
            self.env.fault("dispose")
            self.disposed = (self.env.now, self.env.log(f"rx{self.i}", "dispose"))
            self.sub.dispose()

    @property
    def terminal(self):
        return next((e for e in self.events if e[0] != "N"), None)

    def text(self):
        return " ".join(f"{e[0]}:{tok(e[1])}@{e[2]:g}" for e in self.events)


class RxObs(ObserverBase):
    def __init__(self, rec):
        self.rec = rec

    def on_next(self, value):
        self.rec.ev("N", value)

    def on_error(self, error):
        self.rec.ev("E", error)

    def on_completed(self):
        self.rec.ev("C", None)


async def start(env, sc):
    env.feed = feed = Feed(env, sc["feed"], "s")
    src = feed.src
    if src is not None:
        src.sub_pause = sc.get("sub_pause", 0)
        src.disp_pause = sc.get("disp_pause", 0)
        if "sub_err" in sc:
            src.sub_err = env.errors_of(sc["sub_err"])
    xs = feed.xs
    if sc.get("map"):
        xs = rx.pipe(xs, rx.map(lambda v: ("m", v)))
        env.probe("chain")
    ys = to_observable(xs)
    env.recs = []

    async def subscriber(i, spec):
        rec = Rec(env, i, spec)
        env.recs.append(rec)
        if spec.get("late"):
            env.probe("late_subscriber")
            await pause(env, spec["late"])
        zs = ys.pipe(rop.take(spec["take"])) if "take" in spec else ys
        rec.begun = env.log(f"rx{i}", "subscribe")
        if spec["form"] == "obj":
            env.probe("observer_object")
            rec.sub = zs.subscribe(RxObs(rec))
        else:
            rec.sub = zs.subscribe(lambda v: rec.ev("N", v), lambda e: rec.ev("E", e), lambda: rec.ev("C", None))
        d = spec.get("dispose")
        if d and d[0] == "now":
            env.probe("disposed_at_once")
            rec.dispose()
        elif d and d[0] == "at":
            await pause(env, d[1] if isinstance(d[1], float) else 0)
            await pause(env, d[2])
            rec.dispose()

    for i, spec in enumerate(sc["subs"]):
        env.spawn(subscriber(i, spec), f"sub{i}")
    if feed.kind in ("hot", "subject"):
        for _ in range(40):
            # early subscribers are attached before the first event
            if src is None or any(s.returned for s in src.subs):
                break
            await pause(env, 1)
        await env.settle()
        if feed.kind == "subject":
            env.sends = []
            for p, k, v in sc["feed"]["script"]:
                await pause(env, p)
                v = env.errors_of(v) if k == "E" else kit.dec(v)
                rec = [k, v, env.now, env.log("emit", k, tok(v)), None]
                env.sends.append(rec)
                await (feed.xs.asend(v) if k == "N" else feed.xs.athrow(v) if k == "E" else feed.xs.aclose())
                rec[4] = env.log("emitted")
        else:
            await feed.drive()


def check(env, sc):
    feed = env.feed
    src = feed.src
    wrap = (lambda v: ("m", v)) if sc.get("map") else (lambda v: v)
    vals = [wrap(v) for v in feed.values]
    term = feed.term
    if len(env.recs) > 1:
        env.probe("several")
    if feed.kind == "during":
        env.probe("during")
    if src is None:
        env.probe("library_source")
    shown = [(k, v) for _, k, v in sc["feed"]["script"]]
    for m, ex in env.loop.errors:
        if m and m.startswith("Exception in callback"):
            raise Violation("internal-error", f"{m}: {tok(ex)}")
    env.nontrivial = any(r.events for r in env.recs)
    open_ = 0
    for rec in env.recs:
        spec = rec.spec
        who = f"observer {rec.i} {spec} of {feed.kind} source {shown}"
        t = None
        for e in rec.events:
            if t is not None:
                raise Violation("event-after-terminal", f"{who}: saw {rec.text()}")
            if e[0] != "N":
                t = e
            if rec.disposed and e[3] > rec.disposed[1]:
                raise Violation("event-after-dispose", f"{who}: disposed at {rec.disposed[0]:g}, saw {rec.text()}")
        got = [e[1] for e in rec.events if e[0] == "N"]
        if "sub_err" in sc:
            env.probe("subscribe_failed")
            if not rec.disposed and (t is None or t[0] != "E" or t[1] is not src.sub_err):
                raise Violation("subscribe-error-lost", f"{who}: subscribing failed with {tok(src.sub_err)}, saw {rec.text()}")
            if got:
                raise Violation("wrong-values", f"{who}: saw {rec.text()}")
            continue
        lossy = bool(spec.get("late")) and feed.kind in ("hot", "subject")
        want, wterm = vals, term
        if "take" in spec and not lossy and spec["take"] <= len(vals):
            env.probe("take")
            want, wterm = vals[: spec["take"]], "C"
        if lossy or (feed.kind in ("hot",) and sc.get("sub_pause")):
            # it saw a suffix of the stream
            want = None
        if rec.disposed:
            env.probe("disposed")
        if want is not None:
            if len(got) > len(want) or not all(same(a, b) for a, b in zip(got, want)):
                raise Violation("wrong-values", f"{who}: expected {[tok(x) for x in want]}, saw {rec.text()}")
            if not rec.disposed and len(got) < len(want):
                raise Violation("lost", f"{who}: expected {[tok(x) for x in want]}, saw {rec.text()}")
            if not rec.disposed:
                if wterm == "C":
                    ok = t is not None and t[0] == "C"
                elif wterm is None:
                    ok = t is None
                    env.probe("unfinished")
                else:
                    ok = t is not None and t[0] == "E" and t[1] is wterm[1]
                    env.probe("error")
                if not ok:
                    raise Violation("wrong-terminal", f"{who}: expected {wterm if not isinstance(wterm, tuple) else tok(wterm[1])}, saw {rec.text()}")
                if wterm == "C":
                    env.probe("full")
        if feed.kind == "subject" and rec.disposed and not lossy:
            due = [r for r in env.sends if r[0] == "N" and r[4] is not None and r[4] < rec.disposed[1]]
            if len(got) < min(len(due), spec.get("take", 99)):
                raise Violation("lost", f"{who}: {len(due)} values were sent before the dispose, saw {rec.text()}")
        if feed.kind in ("hot", "subject"):
            sends = src.sent if src is not None else env.sends
            for e in rec.events:
                if not any(e[2] == s[2] and s[3] < e[3] and (s[4] is None or e[3] < s[4]) and (e[0] != s[0] or e[0] == "C" or same(e[1], wrap(s[1])) or e[0] == "E") for s in sends):
                    raise Violation("late", f"{who}: {e[0]}:{tok(e[1])} at {e[2]:g} does not coincide with the source's event; saw {rec.text()}")
        if not rec.disposed and t is None:
            open_ += 1
    if src is not None and "sub_err" not in sc:
        live = [s for s in src.subs if s.live]
        if sc.get("sub_pause") and env.status != "quiet":
            return
        if len(live) > open_:
            raise Violation("not-released", f"{len(live)} source subscriptions active, {open_} observers still listening; subs {sc['subs']}")
        if len(live) < open_ and term is None:
            raise Violation("detached", f"{len(live)} source subscriptions active, {open_} observers still listening; subs {sc['subs']}")
        # disposing is not put off
        if len(env.recs) == 1 and env.recs[0].disposed and len(src.subs) == 1 and feed.kind != "during":
            s, d = src.subs[0], env.recs[0].disposed
            if s.disp_t is not None and s.disp_t > max(d[0], s.sub_t + ptime(sc.get("sub_pause", 0))) + 1e-6:
                raise Violation("released-late", f"disposed at {d[0]:g}, source released at {s.disp_t:g}")
            if d[1] < s.sub_seq or sc.get("sub_pause"):
                env.probe("disposed_while_subscribing")


def ptime(p):
    return p if isinstance(p, float) else 0
