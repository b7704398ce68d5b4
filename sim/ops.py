"""Per-item operators: builders (function style and AsyncRx style) and list models."""
import aioreactive as rx
from aioreactive import AsyncRx
from aioreactive import combine as _combine
from aioreactive import filtering as _filtering
from aioreactive import transform as _transform
from expression import Nothing, Some

from .kit import Cycle, KeyCycle, crc, dec, gen_pause, gen_values, pause, tok

# An op is a dict {"op": name, ...params}.  "pz": pauses of its async user function.


def keep(m, r):
    return lambda x: crc(x) % m != r


def fn_pause(env, op):
    return (KeyCycle if env.pure else Cycle)(op.get("pz"))


FALSY = [None, 0, False, "", (), 0.0, 7]


def shape(op, tagged, x):
    """What a mapper, chooser or accumulator returns: a tagged value, the item itself, or a mostly falsy value."""
    out = op.get("out", 0)
    if out == 1:
        return x
    if out == 2:
        return FALSY[crc(tagged) % len(FALSY)]
    return tagged


def truth(op, b):
    """What a predicate returns: a bool, or any truthy/falsy value."""
    return b if not op.get("out") else (1 if op["out"] == 1 else "yes") if b else (0 if op["out"] == 1 else None)


class Fault:
    """A user function wrapper that raises on its n-th call."""

    def __init__(self, env, op):
        self.env = env
        self.at = op.get("boom_at")
        self.err = env.errors_of(op["boom"]) if self.at is not None else None
        self.n = 0

    def hit(self, key=None):
        n = crc(key) % 5 if self.env.pure else self.n
        self.n += 1
        if self.at is not None and n == self.at:
            self.env.fault("user_function_raises")
            raise self.err


class Seq:
    """An iterable that fails at some point of every iteration."""

    def __init__(self, env, fault, vals):
        self.env, self.fault, self.vals = env, fault, vals

    def __iter__(self):
        for i, v in enumerate([*self.vals, None]):
            if i == self.fault.at:
                self.env.fault("iterable_raises")
                raise self.fault.err
            yield v


def build(env, op, chain=False):
    """Return a function observable -> observable."""
    name = op["op"]
    f = Fault(env, op)
    cyc = fn_pause(env, op)

    def m1(x):
        f.hit(x)
        return shape(op, ("m", op.get("k", 0), x), x)

    async def m1a(x):
        await pause(env, cyc.next(x))
        f.hit(x)
        return shape(op, ("m", op.get("k", 0), x), x)

    def mi(x, i):
        f.hit(x)
        return shape(op, ("i", i, x), x)

    async def mia(x, i):
        await pause(env, cyc.next(x))
        f.hit(x)
        return shape(op, ("i", i, x), x)

    def pred(x):
        f.hit(x)
        return truth(op, crc(x) % op["m"] != op["r"])

    async def preda(x):
        await pause(env, cyc.next(x))
        f.hit(x)
        return truth(op, crc(x) % op["m"] != op["r"])

    def predi(x, i):
        f.hit(x)
        return truth(op, (i + op["r"]) % op["m"] != 0)

    def ch(x):
        f.hit(x)
        return Some(shape(op, ("c", x), x)) if crc(x) % op["m"] != op["r"] else Nothing

    async def cha(x):
        await pause(env, cyc.next(x))
        f.hit(x)
        return Some(shape(op, ("c", x), x)) if crc(x) % op["m"] != op["r"] else Nothing

    def acc(a, x):
        f.hit(x)
        return shape(op, crc((a, x)), x)

    async def acca(a, x):
        await pause(env, cyc.next(x))
        f.hit(x)
        return shape(op, crc((a, x)), x)

    def star(a, b):
        f.hit(a)
        return shape(op, ("s", b, a), a)

    async def stara(a, b):
        await pause(env, cyc.next(a))
        f.hit(a)
        return shape(op, ("s", b, a), a)

    def spred(a, b):
        f.hit(a)
        return truth(op, crc(a) % op["m"] != op["r"])

    def pair(x):
        return (x, op.get("k", 0))

    P = rx.pipe

    def A(xs):
        return xs if isinstance(xs, AsyncRx) else AsyncRx(xs)

    fun = {
        "map": lambda xs: P(xs, rx.map(m1)),
        "map_async": lambda xs: P(xs, rx.map_async(m1a)),
        "mapi": lambda xs: P(xs, rx.mapi(mi)),
        "mapi_async": lambda xs: P(xs, rx.mapi_async(mia)),
        "starmap": lambda xs: P(xs, rx.map(pair), rx.starmap(star)),
        "starmap_async": lambda xs: P(xs, rx.map(pair), _transform.starmap_async(stara)),
        "filter": lambda xs: P(xs, rx.filter(pred)),
        "filter_async": lambda xs: P(xs, rx.filter_async(preda)),
        "filteri": lambda xs: P(xs, rx.filteri(predi)),
        "starfilter": lambda xs: P(xs, rx.map(pair), rx.starfilter(spred)),
        "choose": lambda xs: P(xs, rx.choose(ch)),
        "choose_async": lambda xs: P(xs, rx.choose_async(cha)),
        "scan": lambda xs: P(xs, rx.scan(acc, dec(op["init"]))),
        "scan_async": lambda xs: P(xs, rx.scan_async(acca, dec(op["init"]))),
        "reduce": lambda xs: P(xs, rx.reduce(acc, dec(op["init"]))),
        "reduce_async": lambda xs: P(xs, rx.reduce_async(acca, dec(op["init"]))),
        "take": lambda xs: P(xs, rx.take(op["n"])),
        "skip": lambda xs: P(xs, rx.skip(op["n"])),
        "take_last": lambda xs: P(xs, rx.take_last(op["n"])),
        "skip_last": lambda xs: P(xs, rx.skip_last(op["n"])),
        "slice": lambda xs: P(xs, _filtering.slice(op["start"], op["stop"], op["step"])),
        "distinct": lambda xs: rx.distinct_until_changed(xs),
        "zip_seq": lambda xs: P(xs, _combine.zip_seq(Seq(env, f, [dec(v) for v in op["seq"]]) if "boom" in op else [dec(v) for v in op["seq"]])),
        "identity": lambda xs: rx.as_async_observable(xs),
    }
    chained = {
        "map": lambda xs: A(xs).map(m1),
        "starmap": lambda xs: A(xs).map(pair).starmap(star),
        "filter": lambda xs: A(xs).filter(pred),
        "filter_async": lambda xs: A(xs).filter_async(preda),
        "filteri": lambda xs: A(xs).filteri(predi),
        "starfilter": lambda xs: A(xs).map(pair).starfilter(spred),
        "choose": lambda xs: A(xs).choose(ch),
        "choose_async": lambda xs: A(xs).choose_async(cha),
        "reduce": lambda xs: A(xs).reduce(acc, dec(op["init"])),
        "reduce_async": lambda xs: A(xs).reduce_async(acca, dec(op["init"])),
        "take": lambda xs: A(xs).take(op["n"]),
        "skip": lambda xs: A(xs).skip(op["n"]),
        "take_last": lambda xs: A(xs).take_last(op["n"]),
        "skip_last": lambda xs: A(xs).skip_last(op["n"]),
        "slice": lambda xs: A(xs)[op["start"]] if op.get("idx") and op["step"] == 1 and (op["start"] or 0) >= 0 and op["stop"] == (op["start"] or 0) + 1 and op["start"] is not None else A(xs)[op["start"] : op["stop"] : op["step"]],
        "distinct": lambda xs: A(xs).distinct_until_changed(),
        "identity": lambda xs: A(xs).as_async_observable(),
    }
    if chain and name in chained:
        return chained[name]
    return fun[name]


# ------------------------------------------------------------- models


def model(op, vals, term):
    """(values, terminal) -> (values, terminal); terminal 'C', ('E', exc) or None."""
    name = op["op"]
    if name in ("map", "map_async"):
        return [shape(op, ("m", op.get("k", 0), x), x) for x in vals], term
    if name in ("mapi", "mapi_async"):
        return [shape(op, ("i", i, x), x) for i, x in enumerate(vals)], term
    if name in ("starmap", "starmap_async"):
        return [shape(op, ("s", op.get("k", 0), x), x) for x in vals], term
    if name in ("filter", "filter_async"):
        return [x for x in vals if crc(x) % op["m"] != op["r"]], term
    if name == "filteri":
        return [x for i, x in enumerate(vals) if (i + op["r"]) % op["m"] != 0], term
    if name == "starfilter":
        return [(x, op.get("k", 0)) for x in vals if crc(x) % op["m"] != op["r"]], term
    if name in ("choose", "choose_async"):
        return [shape(op, ("c", x), x) for x in vals if crc(x) % op["m"] != op["r"]], term
    if name in ("scan", "scan_async"):
        out, a = [], dec(op["init"])
        for x in vals:
            a = shape(op, crc((a, x)), x)
            out.append(a)
        return out, term
    if name in ("reduce", "reduce_async"):
        out, a = [], dec(op["init"])
        for x in vals:
            a = shape(op, crc((a, x)), x)
            out = [a]
        return (out if term == "C" else []), term
    if name == "take":
        return take(vals, term, op["n"])
    if name == "skip":
        return vals[op["n"] :], term
    if name == "take_last":
        return take_last(vals, term, op["n"])
    if name == "skip_last":
        return skip_last(vals, op["n"]), term
    if name == "slice":
        a, b, s = op["start"], op["stop"], op["step"]
        if a is not None:
            if a < 0:
                vals, term = take_last(vals, term, -a)
            else:
                vals = vals[a:]
        if b is not None:
            if b > 0:
                vals, term = take(vals, term, b - (a or 0))
            else:
                vals = skip_last(vals, -b)
        if s and s > 1:
            vals = vals[::s]
        return vals, term
    if name == "distinct":
        out = []
        for i, x in enumerate(vals):
            if i == 0 or not (x == vals[i - 1]):
                out.append(x)
        return out, term
    if name == "zip_seq":
        q = [dec(v) for v in op["seq"]]
        if len(vals) > len(q):
            return list(zip(vals, q)), "C"
        return list(zip(vals, q)), term
    if name == "identity":
        return vals, term
    raise KeyError(name)


def take(vals, term, n):
    if n > 0 and len(vals) >= n:
        return vals[:n], "C"
    return vals[:n], term


def take_last(vals, term, n):
    if term != "C":
        return [], term
    return (vals[-n:] if n else []), term


def skip_last(vals, n):
    return vals[: max(0, len(vals) - n)]


def model_chain(ops, vals, term):
    for op in ops:
        vals, term = model(op, vals, term)
    return vals, term


# ------------------------------------------------------------- generation

LINEAR = [
    "map", "map_async", "mapi", "mapi_async", "starmap", "starmap_async", "filter", "filter_async", "filteri",
    "starfilter", "choose", "choose_async", "scan", "scan_async", "reduce", "reduce_async", "take", "skip",
    "take_last", "skip_last", "slice", "distinct", "zip_seq", "identity",
]
PASS = ["map", "map_async", "starmap", "starmap_async", "filter", "filter_async", "starfilter", "choose", "choose_async", "scan", "scan_async"]
GUARD = ["mapi", "mapi_async", "filteri", "take", "skip", "take_last", "skip_last", "distinct", "zip_seq"]
FALLIBLE = ["map", "map_async", "mapi", "mapi_async", "starmap", "starmap_async", "filter", "filter_async", "filteri", "starfilter", "choose", "choose_async", "scan", "scan_async", "reduce", "reduce_async"]
ASYNC = {"map_async", "mapi_async", "starmap_async", "filter_async", "choose_async", "scan_async", "reduce_async"}


def gen_count(rng, n):
    r = rng.random()
    if r < 0.1:
        return 0
    if r < 0.7:
        return rng.randrange(1, max(2, n + 1))
    if r < 0.9:
        return max(0, n + rng.choice([-1, 0, 1]))
    return rng.choice([1, 2, 3, 17, 64, 200])


def gen_op(rng, names, n, style="none"):
    name = rng.choice(names)
    op = {"op": name}
    if name in ASYNC:
        op["pz"] = [gen_pause(rng, style) for _ in range(min(n, 12))] if style != "none" else []
    if name in ("map", "map_async", "starmap", "starmap_async", "starfilter"):
        op["k"] = rng.randrange(3)
    if name in ("filter", "filter_async", "starfilter", "choose", "choose_async"):
        op["m"] = rng.choice([1, 2, 2, 3, 4, 7])
        op["r"] = rng.randrange(op["m"]) if op["m"] > 1 else rng.choice([0, 1, 1, 1])
    if name == "filteri":
        op["m"] = rng.choice([2, 3, 4])
        op["r"] = rng.randrange(op["m"])
    if name in ("scan", "scan_async", "reduce", "reduce_async"):
        op["init"] = rng.choice([0, None, 5, "a"])
    if name in ("take", "skip", "take_last", "skip_last"):
        op["n"] = gen_count(rng, n)
    if name == "slice":
        op.update(gen_slice(rng, n))
    if name == "zip_seq":
        op["seq"] = gen_values(rng, gen_count(rng, n))
    return op


def gen_slice(rng, n):
    if rng.random() < 0.12:
        i = rng.randrange(0, n + 2)
        return {"start": i, "stop": i + 1, "step": 1, "idx": 1}  # xs[i] in method style
    step = rng.choice([1, 1, 1, None, None, 2, 2, 3, 3, rng.randrange(4, 10)])
    r = rng.random()
    if r < 0.15:
        start = None
    elif r < 0.6:
        start = rng.randrange(0, n + 2)
    else:
        start = -rng.randrange(1, n + 3)
    r = rng.random()
    if r < 0.2:
        stop = None
    elif r < 0.6 and (start is None or start >= 0):
        stop = max(1, (start or 0) + rng.choice([0, *range(1, n + 2)]))
    else:
        stop = -rng.randrange(1, n + 2)
    return {"start": start, "stop": stop, "step": 1 if step is None else step}


def gen_chain(rng, names, n, maxlen=4, style="none", minlen=1):
    k = rng.choice([1, 1, 2, 2, 3, maxlen]) if maxlen > 1 else 1
    k = max(minlen, min(k, maxlen))
    return [gen_op(rng, names, n, style) for _ in range(k)]


def apply_chain(env, xs, ops, chains=None):
    for i, op in enumerate(ops):
        xs = build(env, op, chain=bool(op.get("ch")))(xs)
    return xs


def describe(ops):
    return "|".join(o["op"] + (str(o.get("n")) if "n" in o else "") for o in ops)


__all__ = ["tok"]
