"""Random pipelines over the whole operator set: generation (JSON trees) and construction."""
import asyncio

import aioreactive as rx
from aioreactive import AsyncRx
from aioreactive import create as _create
from aioreactive import timeshift as _timeshift
from aioreactive import transform as _transform

from . import kit, ops
from .kit import Feed, Src, dec, gen_err, gen_pause, pause

# ------------------------------------------------------------------ generation

FLATS = ["flat_map", "flat_mapi", "flat_map_async", "flat_mapi_async", "concat_map", "flat_map_latest", "flat_map_latest_async"]
QUEUE_OPS = ["mapi", "mapi_async", "filteri", "take", "skip", "take_last", "skip_last", "slice", "distinct", "zip_seq", "reduce", "reduce_async"]


class G:
    """Generation options."""

    def __init__(self, rng, **kw):
        self.rng = rng
        self.style = kit.gen_style(rng)
        self.fstyle = kit.gen_style(rng)
        self.boom = 0.0  # probability that a user function raises
        self.src_err = 0.25
        self.never = 0.1
        self.rude = False  # sources may keep sending after their terminal
        self.multi = False  # several producers per hot source
        self.lib = True
        self.timers = True
        self.sub_err = 0.0
        self.kinds = kit.FEED_KINDS
        self.nmax = 6
        self.recover = True
        self.infinite = True
        self.safe_handler = False  # catch handler streams never fail
        self.__dict__.update(kw)


def gen_feed(g, n=None):
    rng = g.rng
    n = rng.choice([0, 1, 1, 2, 2, 3, 4, g.nmax]) if n is None else n
    vals = kit.gen_values(rng, n, "uniq" if rng.random() < 0.7 else None)
    r = rng.random()
    term = None if r < g.never else ["E", gen_err(rng)] if r < g.never + g.src_err else ["C", None]
    f = {"k": "feed", **kit.gen_feed(rng, vals, g.style, term, g.kinds)}
    if f["kind"] in ("hot", "cold", "during"):
        if rng.random() < 0.3:
            f["sp"] = rng.randrange(1, 4)
        if rng.random() < 0.3:
            f["dp"] = rng.randrange(1, 4)
        if g.rude and rng.random() < 0.5:
            f["rude"] = 1
            f["script"] += [[gen_pause(rng, g.style), rng.choice("NNEC"), gen_err(rng)] for _ in range(rng.randrange(1, 4))]
        if g.multi and rng.random() < 0.6:
            f["kind"] = "hot"
            f["more"] = [kit.gen_script(rng, [1000 * (j + 1) + i for i in range(rng.randrange(1, 5))], g.style, kit.term_ev(rng)) for j in range(rng.randrange(1, 4))]
        if rng.random() < g.sub_err:
            f["sub_err"] = gen_err(rng)
    return f


def gen_lib(g):
    rng = g.rng
    names = ["single", "empty", "fail", "from_async", "timer", "defer", "never"]
    if g.infinite and g.timers:
        names.append("interval")
    if not g.timers:
        names.remove("timer")
    if g.src_err == 0:
        names.remove("fail")
    if g.never == 0:
        names.remove("never")
    name = rng.choice(names)
    o = {"k": "lib", "name": name}
    if name in ("single", "from_async"):
        o["v"] = rng.choice(kit.SPECIAL + [7, 8, 9])
        o["p"] = gen_pause(rng, g.style)
        if name == "from_async" and rng.random() < g.src_err:
            o["err"] = gen_err(rng)
    if name == "fail":
        o["err"] = gen_err(rng)
    if name in ("interval", "timer"):
        o["s"] = rng.choice([0, 0.25, 0.5, 1.0])
        o["p"] = rng.choice([0.5, 1.0, 2.0])
    if name == "defer":
        o["c"] = gen_leaf(g)
    return o


def gen_leaf(g):
    if g.lib and g.rng.random() < 0.18:
        return gen_lib(g)
    return gen_feed(g)


def gen_linear(g, names):
    o = ops.gen_op(g.rng, names, 4, g.fstyle)
    if g.rng.random() < 0.25:
        o["ch"] = 1
    if (o["op"] in ops.FALLIBLE or o["op"] == "zip_seq") and g.rng.random() < g.boom:
        o["boom_at"] = g.rng.randrange(3)
        o["boom"] = gen_err(g.rng)
    return o


def gen_many(g, depth, kind=None):
    rng = g.rng
    kind = kind or rng.choice(["merge", "concat", "flat", "switch", "comb", "time", "catch", "retry"])
    if kind in ("catch", "retry") and not g.recover:
        kind = "merge"
    if kind == "time" and not g.timers:
        kind = "flat"
    k = rng.choice([0, 1, 2, 2, 3])
    if kind == "merge":
        st = rng.choice(["merge", "merge_seq", "merge_inner", "merge_inner", "chain"])
        if st in ("merge", "chain"):
            k = 2
        return {"k": "merge", "style": st, "n": rng.choice([0, 0, 1, 2, 3]), "cs": [gen_node(g, depth - 1) for _ in range(k)], "outer": gen_outer(g, k)}
    if kind == "concat":
        st = rng.choice(["concat", "concat_seq", "chain"])
        if st != "concat_seq":
            k = 2
        return {"k": "concat", "style": st, "cs": [gen_node(g, depth - 1) for _ in range(k)]}
    if kind == "flat":
        o = {"k": "flat", "f": rng.choice(FLATS), "c": gen_node(g, depth - 1), "cs": [gen_node(g, depth - 2) for _ in range(max(1, k))], "pz": [gen_pause(rng, g.fstyle) for _ in range(4)]}
        if rng.random() < g.boom:
            o["boom_at"] = rng.randrange(3)
            o["boom"] = gen_err(rng)
        return o
    if kind == "switch":
        return {"k": "switch", "cs": [gen_node(g, depth - 1) for _ in range(k)], "outer": gen_outer(g, k)}
    if kind == "comb":
        return {"k": "comb", "f": rng.choice(["combine_latest", "with_latest_from", "take_until"]), "ch": rng.randrange(2), "a": gen_node(g, depth - 1), "b": gen_node(g, depth - 1)}
    if kind == "time":
        return {"k": "time", "f": rng.choice(["delay", "debounce", "debounce", "sample"]), "d": rng.choice([0.125, 0.25, 0.5, 1.0]), "ch": rng.randrange(2), "c": gen_node(g, depth - 1)}
    if kind == "catch":
        h = gen_node(g, depth - 1) if not g.safe_handler else {"k": "feed", "kind": "cold", "script": kit.gen_script(rng, [70, 71], g.style, ["C", None])}
        o = {"k": "catch", "c": gen_node(g, depth - 1), "h": h, "lim": rng.randrange(1, 3)}
        if rng.random() < g.boom:
            o["boom_at"] = 0
            o["boom"] = gen_err(rng)
        return o
    return {"k": "retry", "n": rng.randrange(0, 4), "c": gen_node(g, depth - 1)}


def gen_outer(g, k):
    """Script of an outer source emitting children 0..k-1, then a terminal."""
    rng = g.rng
    s = [[gen_pause(rng, g.style), "N", i] for i in range(k)]
    r = rng.random()
    if r >= g.never:
        s.append([gen_pause(rng, g.style), *(["E", gen_err(rng)] if r < g.never + g.src_err / 2 else ["C", None])])
    return s


def gen_node(g, depth):
    rng = g.rng
    if depth <= 0:
        return gen_leaf(g)
    r = rng.random()
    if r < 0.2:
        return gen_leaf(g)
    if r < 0.55:
        return {"k": "op", "op": gen_linear(g, ops.LINEAR), "c": gen_node(g, depth - 1)}
    return gen_many(g, depth)


def gen_guarded(g, depth):
    """A tree whose outermost stateful operator queues its events, possibly under per-item operators."""
    rng = g.rng
    r = rng.random()
    if r < 0.45:
        node = {"k": "op", "op": gen_linear(g, QUEUE_OPS), "c": gen_node(g, depth - 1)}
        if node["op"]["op"] == "slice":
            o = node["op"]
            # a slice that is the identity does not queue
            if o["start"] is None and o["stop"] is None and o["step"] == 1:
                o["start"] = 0
    else:
        kind = rng.choice(["merge", "concat", "flat", "switch", "comb", "time"])
        node = gen_many(g, depth, kind)
        if node["k"] == "time" and node["f"] == "sample":
            node["f"] = "debounce"
    for _ in range(rng.choice([0, 0, 0, 1, 2])):
        node = {"k": "op", "op": gen_linear(g, ["map", "map_async", "filter", "filter_async", "starmap", "choose", "scan", "scan_async"]), "c": node}
    return node


def walk(node):
    yield node
    for key in ("c", "a", "b", "h"):
        if key in node and isinstance(node[key], dict) and "k" in node[key]:
            yield from walk(node[key])
    for c in node.get("cs", []):
        yield from walk(c)


def kinds(node):
    return {n["k"] if n["k"] != "op" else "op:" + n["op"]["op"] for n in walk(node)}


# ------------------------------------------------------------------ construction


class IterErr:
    pass


class Builder:
    def __init__(self, env):
        self.env = env
        self.srcs = []
        self.drivers = []
        self.aiters = []
        self.n = 0

    def name(self, p):
        self.n += 1
        return f"{p}{self.n}"

    def build(self, node):
        return getattr(self, "_" + node["k"])(node)

    def _feed(self, node):
        env = self.env
        f = Feed(env, node, self.name("s"))
        if f.src is not None:
            f.src.sub_pause = node.get("sp", 0)
            f.src.disp_pause = node.get("dp", 0)
            f.src.rude = bool(node.get("rude"))
            if node.get("sub_err"):
                f.src.sub_err = env.errors_of(node["sub_err"])
            if node.get("first_err"):
                f.src.first_err = [env.errors_of(e) for e in node["first_err"]]
            if node.get("late_err"):
                f.src.late_err = env.errors_of(node["late_err"])
            self.srcs.append(f.src)
            for s in node.get("more", []):
                env.fault("concurrent_producers")
                self.drivers.append(lambda s=s, src=f.src: kit.produce(env, src, s))
            if f.src.rude:
                env.fault("misbehaving_source")
        if node["kind"] in ("hot", "subject", "single_subject"):
            self.drivers.append(f.drive)
        return f.xs

    def _lib(self, node):
        env = self.env
        name = node["name"]
        if name == "single":
            return rx.single(dec(node["v"]))
        if name == "empty":
            return rx.empty()
        if name == "never":
            return rx.never()
        if name == "fail":
            env.fault("source_error")
            return _create.fail(env.errors_of(node["err"]))
        if name == "from_async":

            async def wf():
                await pause(env, node["p"])
                if node.get("hang"):
                    env.fault("stalled_workflow")
                    await asyncio.Event().wait()
                if "err" in node:
                    env.fault("workflow_raises")
                    raise env.errors_of(node["err"])
                return dec(node["v"])

            # a coroutine can be awaited once only: one workflow per subscription
            return rx.defer(lambda: rx.from_async(wf()))
        if name == "interval":
            return rx.interval(self.env.T(node["s"]), self.env.T(node["p"]))
        if name == "timer":
            return rx.timer(self.env.T(node["s"]))
        if name == "defer":
            inner = self.build(node["c"])
            return rx.defer(lambda: inner)
        raise KeyError(name)

    def _op(self, node):
        return ops.build(self.env, node["op"], chain=bool(node["op"].get("ch")))(self.build(node["c"]))

    def _outer(self, script, cs):
        if self.env.pure:
            src = Src(self.env, self.name("o"), script=[[p, k, (cs[v] if v < len(cs) else rx.empty()) if k == "N" else v] for p, k, v in script])
            self.srcs.append(src)
            return src
        src = Src(self.env, self.name("o"))
        self.srcs.append(src)

        async def drive():
            for p, k, v in script:
                await pause(self.env, p)
                await src.emit(k, cs[v] if k == "N" and v < len(cs) else v if k != "N" else rx.empty())

        self.drivers.append(drive)
        return src

    def _merge(self, node):
        cs = [self.build(c) for c in node["cs"]]
        st = node["style"]
        if st == "merge" and len(cs) == 2:
            return rx.pipe(cs[0], rx.merge(cs[1]))
        if st == "chain" and len(cs) == 2:
            return AsyncRx(cs[0]).merge(cs[1])
        if st == "merge_seq":
            return rx.merge_seq(cs)
        return rx.pipe(self._outer(node["outer"], cs), rx.merge_inner(node["n"]))

    def _concat(self, node):
        cs = [self.build(c) for c in node["cs"]]
        st = node["style"]
        if st == "concat" and len(cs) == 2:
            return rx.pipe(cs[0], rx.concat(cs[1]))
        if st == "chain" and len(cs) == 2:
            return AsyncRx(cs[0]).concat(cs[1])
        return rx.concat_seq(cs)

    def _switch(self, node):
        cs = [self.build(c) for c in node["cs"]]
        return rx.pipe(self._outer(node["outer"], cs), rx.switch_latest())

    def _flat(self, node):
        env = self.env
        cs = [self.build(c) for c in node["cs"]]
        fault = ops.Fault(env, node)
        cyc = ops.fn_pause(env, node)
        state = {"i": 0}

        def sel(x):
            fault.hit(x)
            i = state["i"] if not env.pure else kit.crc(x)
            state["i"] += 1
            return cs[i % len(cs)]

        async def sela(x):
            await pause(env, cyc.next(x))
            return sel(x)

        def seli(x, i):
            return sel(x)

        async def selia(x, i):
            return await sela(x)

        f = node["f"]
        m = {
            "flat_map": lambda: rx.flat_map(sel),
            "flat_mapi": lambda: rx.flat_mapi(seli),
            "flat_map_async": lambda: rx.flat_map_async(sela),
            "flat_mapi_async": lambda: _transform.flat_mapi_async(selia),
            "concat_map": lambda: _transform.concat_map(sel),
            "flat_map_latest": lambda: _transform.flat_map_latest(sel),
            "flat_map_latest_async": lambda: rx.flat_map_latest_async(sela),
        }[f]()
        return rx.pipe(self.build(node["c"]), m)

    def _comb(self, node):
        a = self.build(node["a"])
        b = self.build(node["b"])
        if node.get("ch"):
            return getattr(AsyncRx(a), node["f"])(b)
        return rx.pipe(a, getattr(rx, node["f"])(b))

    def _time(self, node):
        c = self.build(node["c"])
        f, d = node["f"], self.env.T(node["d"])
        if f == "sample":
            return _timeshift.sample(d)(c)
        if node.get("ch"):
            return getattr(AsyncRx(c), f)(d)
        return rx.pipe(c, getattr(rx, f)(d))

    def _catch(self, node):
        env = self.env
        c = self.build(node["c"])
        h = self.build(node["h"])
        fault = ops.Fault(env, node)
        calls = [0]

        def handler(ex):
            fault.hit(ex)
            calls[0] += 1
            if not env.pure and calls[0] > node["lim"] * 4:
                raise ex
            return h

        return rx.pipe(c, rx.catch(handler))

    def _retry(self, node):
        return rx.pipe(self.build(node["c"]), rx.retry(node["n"]))

    def start_drivers(self):
        for i, d in enumerate(self.drivers):
            self.env.spawn(d(), f"driver{i}")


def describe(node):
    k = node["k"]
    if k == "feed":
        return node["kind"]
    if k == "lib":
        return node["name"]
    if k == "op":
        return f"{node['op']['op']}({describe(node['c'])})"
    name = {"merge": node.get("style"), "concat": "concat", "switch": "switch_latest"}.get(k, node.get("f", k))
    kids = [node[x] for x in ("c", "a", "b", "h") if x in node] + node.get("cs", [])
    return f"{name}({', '.join(describe(c) for c in kids)})"


__all__ = ["asyncio"]
