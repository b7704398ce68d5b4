"""Determinism of the simulator: the same seed gives the same history, whatever the process, hash seed or chunking."""
import os
import subprocess
import sys

from . import engine


def run(pid, seed, n, hashseed):
    env = {**os.environ, "PYTHONHASHSEED": hashseed, "VERIF_HASHSEED_KEEP": "1"}
    p = subprocess.run([sys.executable, os.path.join(engine.ROOT, "check.py"), "digests", pid, str(seed), str(n)], capture_output=True, text=True, env=env)
    if p.returncode:
        raise RuntimeError(p.stderr[-500:])
    return p.stdout.split()


def main(n):
    bad = 0
    for f in sorted(os.listdir(os.path.join(engine.ROOT, "sim", "props"))):
        if not (f.startswith("c") and f.endswith(".py")):
            continue
        pid = f[:-3].upper()
        a, b, c = run(pid, 1, n, "0"), run(pid, 1, n, "0"), run(pid, 1, n, "4711")
        other = run(pid, 2, n, "0")
        ok = a == b == c and len(a) == n and a != other
        bad += not ok
        print(f"{pid} {'same' if ok else 'DIFFERENT'} histories over {n} runs x 3 processes; seeds 1 and 2 differ: {a != other}", flush=True)
        if not ok:
            print([i for i, (x, y, z) in enumerate(zip(a, b, c)) if not x == y == z][:10])
    return 1 if bad else 0
