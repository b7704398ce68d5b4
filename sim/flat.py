"""Outer/inner stream scenes shared by the merge, concat and switch properties."""
import asyncio

import aioreactive as rx
from aioreactive import AsyncRx
from aioreactive import transform as _transform

from . import kit
from .kit import Obs, Src, dec, gen_pause, pause


def gen_inner(rng, i, style, kinds, p_err, p_never, nmax=4, fast_during=True):
    kind = rng.choice(kinds)
    n = rng.choice([0, 1, 1, 2, 2, 3, nmax])
    r = rng.random()
    term = ["E", {"E": rng.choice(kit.ERR_NAMES), "i": 100 + i}] if r < p_err else None if r < p_err + p_never else ["C", None]
    if kind in ("single", "empty", "iter"):
        return {"kind": kind, "vals": [[i, j] for j in range({"single": 1, "empty": 0}.get(kind, n))]}
    st = "yield" if kind == "during" and style in ("sleep", "mixed") else style
    script = kit.gen_script(rng, [[i, j, rng.choice([0, None, "v"])] for j in range(n)], st, term)
    o = {"kind": kind, "script": script}
    if rng.random() < 0.3:
        o["sp"] = rng.randrange(1, 5)
    if rng.random() < 0.3:
        o["dp"] = rng.randrange(1, 5)
    return o


class Scene:
    def __init__(self, env, sc):
        self.env = env
        self.sc = sc
        self.inners = []  # observables
        self.srcs = {}  # index -> Src
        self.libs = {}  # index -> list of values
        self.drivers = []
        self.calls = 0
        for i, s in enumerate(sc["inners"]):
            self.inners.append(self._inner(i, s))

    def _inner(self, i, s):
        env = self.env
        k = s["kind"]
        if k in ("single", "empty", "iter"):
            vals = [dec(v) for v in s["vals"]]
            self.libs[i] = vals
            if k == "single" and vals:
                return rx.single(vals[0])
            if k == "empty" or not vals:
                return rx.empty()
            return rx.from_iterable(vals)
        kw = {"script": s["script"]} if k == "cold" else {"during": s["script"]} if k == "during" else {}
        src = Src(env, f"i{i}", sub_pause=s.get("sp", 0), disp_pause=s.get("dp", 0), rude=bool(s.get("rude")), **kw)
        self.srcs[i] = src
        if k == "hot":
            self.drivers.append(lambda: kit.produce(env, src, s["script"]))
        return src

    def outer_src(self):
        """Hot or cold outer emitting the inner observables themselves."""
        sc, env = self.sc, self.env
        o = self.outer = Src(env, "outer")
        inners = self.inners

        async def drive():
            for p, k, v in sc["outer"]:
                await pause(env, p)
                await o.emit(k, inners[v] if k == "N" else v)

        self.drivers.append(drive)
        return o

    def outer_items(self):
        """Hot outer emitting indices, for the flat_map family."""
        sc, env = self.sc, self.env
        o = self.outer = Src(env, "outer")
        self.drivers.append(lambda: kit.produce(env, o, sc["outer"]))
        return o

    def build(self):
        sc = self.sc
        op = sc["op"]
        inners = self.inners
        self.outer = None
        if op == "merge":
            return rx.pipe(inners[0], rx.merge(inners[1]))
        if op == "merge_m":
            return AsyncRx(inners[0]).merge(inners[1])
        if op == "concat":
            return rx.pipe(inners[0], rx.concat(inners[1]))
        if op == "concat_m":
            return AsyncRx(inners[0]).concat(inners[1])
        if op == "merge_seq":
            return rx.merge_seq(list(inners))
        if op == "concat_seq":
            return rx.concat_seq(list(inners))
        if op == "merge_inner":
            return rx.pipe(self.outer_src(), rx.merge_inner(sc.get("n", 0)))
        if op == "switch_latest":
            return rx.pipe(self.outer_src(), rx.switch_latest())
        cyc = kit.Cycle(sc.get("pz"))
        env = self.env

        def sel(x):
            self.calls += 1
            return inners[x]

        async def sela(x):
            await pause(env, cyc.next())
            return sel(x)

        m = {
            "flat_map": lambda: rx.flat_map(sel),
            "flat_mapi": lambda: rx.flat_mapi(lambda x, i: sel(x)),
            "flat_map_async": lambda: rx.flat_map_async(sela),
            "flat_mapi_async": lambda: _transform.flat_mapi_async(lambda x, i: sela(x)),
            "concat_map": lambda: _transform.concat_map(sel),
            "flat_map_latest": lambda: _transform.flat_map_latest(sel),
            "flat_map_latest_async": lambda: rx.flat_map_latest_async(sela),
        }
        m["flat_map_m"] = None
        outer = self.outer_items()
        if op == "flat_map_m":
            return AsyncRx(outer).flat_map(sel)
        if op == "flat_map_latest_async_m":
            return rx.as_chained(outer).flat_map_latest_async(sela)
        if op == "flat_map_async_m":
            return AsyncRx(outer).flat_map_async(sela)
        return rx.pipe(outer, m[op]())

    async def start(self, obs):
        env, sc = self.env, self.sc
        self.obs = obs
        xs = self.build()
        self.sub = await kit.subscribe(obs, xs, sc.get("form", "obj"))
        await pause(env, sc.get("lead", 0))
        for i, d in enumerate(self.drivers):
            env.spawn(d(), f"driver{i}")

    # ---- views
    def outer_recs(self):
        return self.outer.sent if self.outer is not None else None


def gen_outer(rng, k, style, p_err, p_never, order=None):
    s = [[gen_pause(rng, style), "N", i] for i in (order if order is not None else range(k))]
    r = rng.random()
    if r < p_err:
        s.append([gen_pause(rng, style), "E", {"E": rng.choice(kit.ERR_NAMES), "i": 99}])
    elif r >= p_err + p_never:
        s.append([gen_pause(rng, style), "C", None])
    return s


def valid(sc):
    n = len(sc["inners"])
    if sc["op"] in ("merge", "merge_m", "concat", "concat_m") and n != 2:
        return False
    for s in sc["inners"]:
        if s["kind"] == "single" and len(s["vals"]) != 1:
            return False
        if "vals" in s and any(not isinstance(v, list) or len(v) < 2 for v in s["vals"]):
            return False
    if any(s[1] == "N" and not (isinstance(s[2], int) and 0 <= s[2] < n) for s in sc["outer"]):
        return False
    return True


__all__ = ["asyncio", "Obs"]
