"""check.py C01 | setup | replay FILE | selftest [n] | digests Cxx seed n"""
import os
import sys
import warnings

if os.environ.get("PYTHONHASHSEED") != "0" and os.environ.get("VERIF_HASHSEED_KEEP") != "1":
    os.environ["PYTHONHASHSEED"] = "0"
    os.execv(sys.executable, [sys.executable, *sys.argv])

ROOT = os.path.dirname(os.path.abspath(__file__))
warnings.simplefilter("ignore")
sys.dont_write_bytecode = True
sys.pycache_prefix = os.path.join(ROOT, "replays", "no-bytecode")  # never read stale bytecode of /repo
sys.path.insert(0, ROOT)
os.chdir(ROOT)

from sim import seams  # noqa: E402,F401  (clock seam first)


def main():
    if len(sys.argv) < 2:
        print(__doc__)
        return 2
    cmd = sys.argv[1]
    if cmd == "setup":
        from sim import core  # noqa: F401

        print("setup ok: pure Python, imported from /repo on every run")
        return 0
    from sim import engine

    if cmd == "replay":
        return engine.replay(sys.argv[2])
    if cmd == "digests":
        for d in engine.digests(sys.argv[2], int(sys.argv[3]), int(sys.argv[4])):
            print(d)
        return 0
    if cmd == "selftest":
        from sim import selftest

        return selftest.main(int(sys.argv[2]) if len(sys.argv) > 2 else 200)
    return engine.main(cmd.upper())


if __name__ == "__main__":
    try:
        rc = main()
    except Exception:
        import traceback

        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
