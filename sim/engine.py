"""Seeded search over scenarios: chunked forked workers, shrinking, replay files, evidence."""
import copy
import gc
import importlib
import json
import logging
import os
import pickle
import random
import resource
import select
import signal
import subprocess
import sys
import traceback
import warnings

from . import seams
from .core import HarnessError, Violation, simulate

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
WORKERS = int(os.environ.get("VERIF_WORKERS", "8"))
CHUNK = 40
OUT = os.environ.get("VERIF_OUT", ROOT)
FRESH_LIMIT = 300.0  # wall seconds a forked chunk may take before it is killed


def load(pid):
    logging.disable(logging.CRITICAL)
    warnings.simplefilter("ignore")
    return importlib.import_module(f"sim.props.{pid.lower()}")


def scenario(mod, pid, seed, idx, tier):
    rng = random.Random(f"{seed}:{pid}:{idx}")
    sc = mod.gen(rng, idx, tier)
    sc.setdefault("tie", rng.choice(["fifo", "fifo", "lifo", rng.randrange(1, 1 << 30)]))
    if getattr(mod, "SCALE", True) and rng.random() < 0.06:
        # everything at another time scale: nothing may depend on it
        sc.setdefault("ts", rng.choice([2.0**-14, 2.0**-10, 2.0**-10, 64.0, 4096.0, 2.0**16]))
    # scenarios are plain data: what runs is exactly what a replay file holds
    return json.loads(json.dumps(sc))


def run_one(mod, sc, keep=False):
    return simulate(mod, sc, keep)


# ------------------------------------------------------------------ forked chunks


def _child(fn, wfd):
    """Run fn() in a forked child and pickle its result to wfd."""
    code = 0
    try:
        resource.setrlimit(resource.RLIMIT_AS, (4 << 30, 4 << 30))
        out = fn()
    except BaseException:  # noqa: BLE001
        out = {"harness": traceback.format_exc()}
    try:
        data = pickle.dumps(out)
        with os.fdopen(wfd, "wb") as f:
            f.write(data)
    except BaseException:  # noqa: BLE001
        code = 3
    os._exit(code)


class Fork:
    def __init__(self, fn):
        r, w = os.pipe()
        sys.stdout.flush()
        sys.stderr.flush()
        self.pid = os.fork()
        if self.pid == 0:
            os.close(r)
            _child(fn, w)
        os.close(w)
        self.fd = r
        self.buf = []
        self.t0 = seams.REAL_MONO()

    def feed(self):
        d = os.read(self.fd, 1 << 20)
        if d:
            self.buf.append(d)
            return False
        return True

    def finish(self):
        os.close(self.fd)
        os.waitpid(self.pid, 0)
        try:
            return pickle.loads(b"".join(self.buf))
        except Exception:  # noqa: BLE001
            return {"harness": "worker died without a result"}

    def kill(self):
        try:
            os.kill(self.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        os.close(self.fd)
        os.waitpid(self.pid, 0)


def forked(fn, limit=FRESH_LIMIT):
    f = Fork(fn)
    while True:
        r, _, _ = select.select([f.fd], [], [], max(0.0, limit - (seams.REAL_MONO() - f.t0)))
        if not r:
            f.kill()
            return {"harness": "worker exceeded its wall limit"}
        if f.feed():
            return f.finish()


def run_chunk(mod, pid, seed, lo, hi, tier, samples):
    gc.disable()
    out = {"lo": lo, "n": 0, "digests": [], "nontrivial": 0, "steps": 0, "iters": 0, "simtime": 0.0, "faults": {}, "probes": {}, "status": {}, "fail": None, "known": [], "samples": [], "events": 0}
    for idx in range(lo, hi):
        sc = scenario(mod, pid, seed, idx, tier)
        try:
            res = run_one(mod, sc, keep=idx in samples)
        except BaseException:  # noqa: BLE001
            out["harness"] = f"scenario idx={idx}: {json.dumps(sc)}\n{traceback.format_exc()}"
            return out
        out["n"] += 1
        if res.nontrivial:
            out["nontrivial"] += 1
            out["digests"].append(res.digest)
        out["steps"] += res.steps
        out["iters"] += res.iters
        out["events"] += res.events
        out["simtime"] += min(res.simtime, 1e7)
        out["status"][res.status] = out["status"].get(res.status, 0) + 1
        for k, v in res.faults.items():
            out["faults"][k] = out["faults"].get(k, 0) + v
        for k, v in res.probes.items():
            out["probes"][k] = out["probes"].get(k, 0) + v
        if idx in samples:
            out["samples"].append({"idx": idx, "scenario": sc, "history": [list(map(str, e)) for e in (res.detail or [])[:60]], "digest": res.digest})
        if res.violation is not None:
            kf = known_match(pid, sc, res.violation)
            if kf is None:
                out["fail"] = (idx, res.violation.cls, res.violation.msg, res.digest)
                return out
            out["known"].append(kf)
        if (idx - lo) % 20 == 19:
            gc.collect()
    return out


def search(mod, pid, seed, tier, runs, wall):
    """Run scenarios 0..runs-1; returns aggregate with the lowest-index failure, if any."""
    t0 = seams.REAL_MONO()
    agg = {"n": 0, "digests": set(), "nontrivial": 0, "steps": 0, "iters": 0, "simtime": 0.0, "faults": {}, "probes": {}, "status": {}, "fail": None, "known": {}, "samples": [], "events": 0, "harness": None, "capped": False}
    samples = {3, 11, 12}
    nxt = 0
    live = []
    stop_at = runs
    while True:
        while len(live) < WORKERS and nxt < stop_at:
            if seams.REAL_MONO() - t0 > wall:
                agg["capped"] = True
                stop_at = nxt
                break
            lo, hi = nxt, min(nxt + CHUNK, runs)
            nxt = hi
            live.append(Fork(lambda lo=lo, hi=hi: run_chunk(mod, pid, seed, lo, hi, tier, samples)))
            live[-1].span = (lo, hi)
        if not live:
            break
        r, _, _ = select.select([f.fd for f in live], [], [], 5.0)
        for f in list(live):
            if f.fd in r and f.feed():
                live.remove(f)
                o = f.finish()
                if o.get("harness"):
                    agg["harness"] = agg["harness"] or o["harness"]
                    stop_at = 0
                    continue
                for k in ("n", "nontrivial", "steps", "iters", "simtime", "events"):
                    agg[k] += o[k]
                agg["digests"].update(o["digests"])
                for k in ("faults", "probes", "status"):
                    for a, b in o[k].items():
                        agg[k][a] = agg[k].get(a, 0) + b
                for k in o["known"]:
                    agg["known"][k] = agg["known"].get(k, 0) + 1
                agg["samples"] += o["samples"]
                if o["fail"] is not None:
                    fl = (*o["fail"], o["lo"])
                    if agg["fail"] is None or fl[0] < agg["fail"][0]:
                        agg["fail"] = fl
                    stop_at = min(stop_at, agg["fail"][0])
            elif seams.REAL_MONO() - f.t0 > FRESH_LIMIT:
                live.remove(f)
                f.kill()
                agg["harness"] = agg["harness"] or f"chunk {f.span} exceeded {FRESH_LIMIT}s of wall time"
                stop_at = 0
    agg["wall"] = seams.REAL_MONO() - t0
    return agg


# ------------------------------------------------------------------ known findings


def _findings():
    p = os.path.join(ROOT, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return json.load(f)["findings"]


_KF = None


def known_match(pid, sc, v):
    """Index of the listed (unfixed) finding this violation is, or None."""
    global _KF
    if _KF is None:
        _KF = _findings()
    for i, k in enumerate(_KF):
        if k.get("status") != "known" or k["property"] != pid:
            continue
        m = k["match"]
        if m.get("class") not in (None, v.cls):
            continue
        if all(_get(sc, path) == val for path, val in m.get("scenario", {}).items()):
            return i
    return None


def _get(sc, path):
    for p in path.split("."):
        if isinstance(sc, list):
            p = int(p)
            sc = sc[p] if p < len(sc) else None
        elif isinstance(sc, dict):
            sc = sc.get(p)
        else:
            return None
    return sc


# ------------------------------------------------------------------ shrinking


def _paths(x, path=()):
    """All containers and leaves, outermost first."""
    yield path, x
    if isinstance(x, dict):
        for k in x:
            yield from _paths(x[k], path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from _paths(v, path + (i,))


def _at(x, path):
    for p in path:
        x = x[p]
    return x


def _simpler(v):
    if v is True or v is False or v is None:
        return []
    if isinstance(v, int):
        return [c for c in (0, 1, v // 2, v - 1) if 0 <= c < v] if v > 0 else ([] if v == 0 else [-1] if v != -1 else [])
    if isinstance(v, float):
        return [c for c in (0, 1.0) if c < v]
    return []


def _sane(x):
    """Structural validity every scenario must keep while it is reduced."""
    if isinstance(x, dict):
        if "m" in x and not (isinstance(x["m"], int) and x["m"] >= 1):
            return False
        for key in ("script", "outer", "during"):
            for s in x.get(key) or []:
                if not (isinstance(s, list) and len(s) == 3 and s[1] in ("N", "E", "C")):
                    return False
        for key in ("more", "scripts"):
            for sl in x.get(key) or []:
                for s in sl or []:
                    if not (isinstance(s, list) and len(s) == 3 and s[1] in ("N", "E", "C")):
                        return False
        if x.get("k") == "flat" and not x.get("cs"):
            return False
        return all(_sane(v) for v in x.values())
    if isinstance(x, list):
        if x and x[0] in ("stall", "wall") and isinstance(x[0], str) and len(x) != 2:
            return False
        return all(_sane(v) for v in x)
    return True


def shrink(test, sc, budget_s, max_tries=3000):
    """Greedy reduction of a JSON scenario; test(sc) says whether the same violation class persists."""
    t0 = seams.REAL_MONO()
    tries = 0
    best = sc

    def ok(c):
        nonlocal tries
        if not _sane(c):
            return False
        tries += 1
        return test(c)

    def over():
        return tries >= max_tries or seams.REAL_MONO() - t0 > budget_s

    changed = True
    while changed and not over():
        changed = False
        # delete list elements, large blocks first
        for path, x in sorted(((p, v) for p, v in _paths(best) if isinstance(v, list) and v), key=lambda t: len(t[0])):
            try:
                cur = _at(best, path)
            except (KeyError, IndexError, TypeError):
                continue
            if not isinstance(cur, list) or not cur:
                continue
            size = max(1, len(cur) // 2)
            while size >= 1 and not over():
                i = 0
                while i < len(_at(best, path)) and not over():
                    c = copy.deepcopy(best)
                    del _at(c, path)[i : i + size]
                    if ok(c):
                        best = c
                        changed = True
                    else:
                        i += size
                size //= 2
        # simplify scalars
        for path, x in list(_paths(best)):
            if over():
                break
            if not path or isinstance(x, (dict, list)):
                continue
            if path == ("tie",) and x != "fifo":
                cands = ["fifo"]
            else:
                cands = _simpler(x)
            for v in cands:
                c = copy.deepcopy(best)
                try:
                    _at(c, path[:-1])[path[-1]] = v
                except (KeyError, IndexError, TypeError):
                    break
                if ok(c):
                    best = c
                    changed = True
                    break
    return best, tries


def _try(mod, sc, prelude=()):
    """Run a scenario (after a prelude of others) in a forked child; returns (cls, msg, digest, detail) or None."""

    def go():
        gc.disable()
        for p in prelude:
            run_one(mod, p)
        try:
            if hasattr(mod, "valid") and not mod.valid(sc):
                return None
            r = run_one(mod, sc)
        except (HarnessError, Exception):  # noqa: BLE001
            return None
        if r.violation is None:
            return None
        return (r.violation.cls, r.violation.msg, r.digest, [list(map(str, e)) for e in r.detail[:400]])

    o = forked(go, 60.0)
    return None if isinstance(o, dict) else o


def minimise(mod, pid, seed, tier, fail):
    idx, cls, msg, digest, lo = fail
    sc = scenario(mod, pid, seed, idx, tier)
    prelude = []
    first = _try(mod, sc)
    if first is None or first[0] != cls:
        prelude = [scenario(mod, pid, seed, i, tier) for i in range(lo, idx)]
        first = _try(mod, sc, prelude)
        if first is None:
            return {"scenario": sc, "prelude": prelude, "class": cls, "message": msg, "digest": digest, "history": [], "note": "did not reproduce in a fresh process"}
        cls = first[0]
        # state carried over from earlier runs: keep only what is needed
        i = 0
        while i < len(prelude) and len(prelude) > 1:
            c = prelude[:i] + prelude[i + 1 :]
            o = _try(mod, sc, c)
            if o is not None and o[0] == cls:
                prelude = c
            else:
                i += 1
    hang = cls in ("event-loop-hang", "livelock")
    best, tries = shrink(lambda c: (lambda o: o is not None and o[0] == cls)(_try(mod, c, prelude)), sc, 60.0 if hang else 45.0, 40 if hang else 3000)
    o = _try(mod, best, prelude) or first
    return {"scenario": best, "prelude": prelude, "class": o[0], "message": o[1], "digest": o[2], "history": o[3], "tries": tries}


# ------------------------------------------------------------------ top level


def budgets(mod, tier):
    if tier == "thorough":
        return getattr(mod, "THOROUGH", 400000), float(os.environ.get("VERIF_WALL", "700"))
    return getattr(mod, "QUICK", 8000), float(os.environ.get("VERIF_WALL", "150"))


def main(pid):
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    print(f"property={pid} seed={seed} tier={tier} workers={WORKERS}", flush=True)
    mod = load(pid)
    runs, wall = budgets(mod, tier)
    if os.environ.get("VERIF_RUNS"):
        runs = int(os.environ["VERIF_RUNS"])
    agg = search(mod, pid, seed, tier, runs, wall)
    fail = agg["fail"]
    if fail is None and agg["harness"]:
        print(f"HARNESS-ERROR {agg['harness']}", flush=True)
        return 2
    if fail is None and agg["n"] < min(runs, 200):
        print(f"HARNESS-ERROR only {agg['n']} of {runs} runs fitted into the wall limit", flush=True)
        return 2
    rep = None
    if fail is not None and os.environ.get("VERIF_FAST"):  # tools/automut.py: only the verdict
        print(f"violation class={fail[1]} idx={fail[0]}: {fail[2]}")
        return 1
    if fail is not None:
        m = minimise(mod, pid, seed, tier, fail)
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        rep = os.path.join(OUT, "replays", f"{pid}-{seed}-{fail[0]}.json")
        doc = {"property": pid, "seed": seed, "idx": fail[0], "tier": tier, **m}
        with open(rep, "w") as f:
            json.dump(doc, f, indent=1)
            f.write("\n")
        p = subprocess.run([sys.executable, os.path.join(ROOT, "check.py"), "replay", rep], capture_output=True, text=True)
        doc["replay_confirmed"] = p.returncode == 1
        with open(rep, "w") as f:
            json.dump(doc, f, indent=1)
            f.write("\n")
    write_evidence(mod, pid, seed, tier, runs, agg, rep)
    for k, n in sorted(agg["known"].items()):
        print(f"KNOWN-FINDING: property={pid} {_KF_text(k)} ({n} runs)")
    rate = agg["n"] / max(agg["wall"], 1e-9) * 3600
    print(f"runs={agg['n']} distinct_histories={len(agg['digests'])} callbacks={agg['steps']} simulated_s={agg['simtime']:.0f} runs_per_hour={rate:.0f} wall_s={agg['wall']:.1f}")
    if fail is not None:
        print(f"found as: {fail[1]}: {fail[2]}")
        print(f"violation class={m['class']} seed={seed} idx={fail[0]}: {m['message']}")
        print(f"minimised in {m.get('tries')} tries; replay_confirmed={doc['replay_confirmed']}")
        print(f"VIOLATION property={pid} replay={rep}", flush=True)
        return 1
    print(f"OK property={pid}", flush=True)
    return 0


def _KF_text(i):
    return _findings()[i]["what"]


def write_evidence(mod, pid, seed, tier, runs, agg, rep):
    zero = [p for p in getattr(mod, "PROBES", []) if not agg["probes"].get(p)]
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": agg["n"],
            "distinct_nontrivial": len(agg["digests"]),
            "rule": "one evaluation = one simulated run of a scenario drawn from (VERIF_SEED, property, index); non-trivial = the run recorded library activity beyond subscribing; distinct = different digest of the full event history (every subscribe, dispose, emission, delivery begin/end and operation result with its simulated time), which identifies the observable interleaving. " + getattr(mod, "RULE", ""),
            "samples": agg["samples"][:3],
            "planned_runs": runs,
            "stopped_by_wall_cap": agg["capped"],
            "runs_per_hour": round(agg["n"] / max(agg["wall"], 1e-9) * 3600),
            "simulated_seconds": round(agg["simtime"], 3),
            "loop_callbacks": agg["steps"],
            "loop_iterations": agg["iters"],
            "history_events": agg["events"],
            "faults_injected": dict(sorted(agg["faults"].items())),
            "probes": dict(sorted(agg["probes"].items())),
            "probes_never_hit": zero,
            "end_status": agg["status"],
            "seeds": f"VERIF_SEED={seed}, indices 0..{agg['n'] - 1}",
            "real_components": ["aioreactive from /repo (all modules)", "Expression (MailboxProcessor, disposables, cancellation tokens)", "asyncio tasks, futures, wait_for"] + getattr(mod, "REAL", []),
            "stub_components": ["event loop selector and clock (SimLoop)", "time/datetime", "instrumented sources, observers and user functions"] + getattr(mod, "STUB", []),
            "known_findings_hit": {str(k): v for k, v in agg["known"].items()},
        },
        "assumptions": [
            "the event loop runs ready callbacks in FIFO order, as asyncio documents; other interleavings arise from suspensions and timers, which the scenario decides",
            "single event loop, no threads",
        ],
        "wall_s": round(agg["wall"], 3),
        "violations": 0 if agg["fail"] is None else 1,
    }
    if rep:
        ev["coverage"]["replay"] = rep
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    with open(os.path.join(OUT, "evidence", f"{pid}.json"), "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def replay(path):
    with open(path) as f:
        doc = json.load(f)
    pid = doc["property"]
    mod = load(pid)
    gc.disable()
    for p in doc.get("prelude", []):
        run_one(mod, p)
    r = run_one(mod, doc["scenario"], keep=True)
    for e in r.detail:
        print(*e)
    if r.violation is None:
        print(f"replay: no violation (property={pid})")
        return 0
    exact = r.violation.cls == doc["class"] and r.digest == doc["digest"]
    print(f"replay: {r.violation.cls}: {r.violation.msg}")
    print(f"replay: class {'same' if r.violation.cls == doc['class'] else 'DIFFERENT'}, history digest {'same' if r.digest == doc['digest'] else 'DIFFERENT'}")
    print(f"VIOLATION property={pid} replay={path}")
    return 1 if exact else 3


def digests(pid, seed, n):
    mod = load(pid)

    def go():
        gc.disable()
        return [run_one(mod, scenario(mod, pid, seed, i, "quick")).digest for i in range(n)]

    return forked(go)


__all__ = ["Violation"]
