"""Lines of aioreactive that no check executes: linecov.py [runs per property] [C01 ...].  Development tool."""
import os
import sys

if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, ROOT)
os.chdir(ROOT)
mon = sys.monitoring
hits = set()
REPO = os.environ.get("VERIF_REPO", "/repo") + "/aioreactive/"


def line(code, n):
    if code.co_filename.startswith(REPO):
        hits.add((code.co_filename, n))
    return mon.DISABLE


mon.use_tool_id(1, "linecov")
mon.register_callback(1, mon.events.LINE, line)
mon.set_events(1, mon.events.LINE)

from sim import seams  # noqa: E402,F401
from sim import engine  # noqa: E402


def lines_of(code):
    for _, _, n in code.co_lines():
        if n:
            yield n
    for c in code.co_consts:
        if hasattr(c, "co_lines"):
            yield from lines_of(c)


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 1500
    props = sys.argv[2:] or [f"C{i:02}" for i in range(1, 26)]
    for p in props:
        mod = engine.load(p)
        for i in range(n):
            engine.run_one(mod, engine.scenario(mod, p, 1, i, "quick"))
    for f in sorted(os.listdir(REPO)) + ["testing/" + x for x in sorted(os.listdir(REPO + "testing"))]:
        if not f.endswith(".py"):
            continue
        src = open(REPO + f).read()
        code = compile(src, REPO + f, "exec")
        miss = sorted(set(lines_of(code)) - {m for g, m in hits if g == REPO + f})
        text = src.splitlines()
        miss = [m for m in miss if text[m - 1].strip()]
        if miss:
            print(f"== {f}: {len(miss)} lines not executed")
            for m in miss:
                print(f"  {m}: {text[m - 1]}")


main()
