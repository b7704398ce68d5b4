"""Try patches against scratch copies of /repo: mutants.py DIR_OF_PATCHES|PATCH... [--props C01,C02] [--tests]

For every patch: copy /repo to a scratch directory, apply, optionally run the stable tests,
run the checks with VERIF_REPO pointing there, print which report a violation.  Development tool only.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"


def one(patch, props, tests, reverse=False):
    d = tempfile.mkdtemp(prefix="mut-", dir="/tmp")
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "__pycache__", ".venv"))
        r = subprocess.run(["git", "apply", *(["-R"] if reverse else []), patch], cwd=repo, capture_output=True, text=True)
        if r.returncode:
            return patch, "PATCH-FAILED " + r.stderr.strip()[:200], {}
        t = ""
        if tests:
            base = json.load(open("/opt/vp/BASELINE.json"))
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo, capture_output=True, text=True, env={**os.environ, "PYTHONPATH": repo})
            t = "tests:" + ("ok" if r.returncode == 0 else "FAIL " + " ".join(x for x in r.stdout.splitlines() if x.startswith("FAILED"))[:200])
            del base
        out = {}
        for p in props:
            env = {**os.environ, "VERIF_REPO": repo, "VERIF_OUT": d, "VERIF_SEED": os.environ.get("VERIF_SEED", "1")}
            r = subprocess.run([PY, os.path.join(ROOT, "check.py"), p], cwd=ROOT, capture_output=True, text=True, env=env)
            det = [x for x in r.stdout.splitlines() if x.startswith("violation class")]
            out[p] = (r.returncode, det[0] if det else (r.stdout + r.stderr)[-300:] if r.returncode else "")
        return patch, t, out
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    args = [a for a in sys.argv[1:] if not a.startswith("--")]
    opts = [a for a in sys.argv[1:] if a.startswith("--")]
    allp = [f"C{i:02d}" for i in range(1, 60) if os.path.exists(os.path.join(ROOT, "sim/props", f"c{i:02d}.py"))]
    props = next((o.split("=")[1].split(",") for o in opts if o.startswith("--props=")), None)
    work = []
    for a in args:
        a = os.path.abspath(a)
        if os.path.isdir(a):
            for n in sorted(os.listdir(a)):
                p = os.path.join(a, n, "patch.diff") if os.path.isdir(os.path.join(a, n)) else os.path.join(a, n)
                if p.endswith(".diff"):
                    work.append(p)
        else:
            work.append(a)
    jobs = int(next((o.split("=")[1] for o in opts if o.startswith("--jobs=")), "3"))
    verbose = "--verbose" in opts

    def go(p):
        pp = props
        if pp is None:
            m = os.path.join(os.path.dirname(p), "meta.json")
            pp = [json.load(open(m))["property"]] if os.path.exists(m) and "--all" not in opts else allp
        return one(p, pp, "--tests" in opts, "--reverse" in opts)

    with ThreadPoolExecutor(jobs) as ex:
        for patch, t, out in ex.map(go, work):
            name = patch[len(os.path.commonpath([os.path.dirname(p) for p in work] or [""])) :].replace("/patch.diff", "").strip("/") or os.path.basename(patch)
            caught = [p for p, (rc, _) in out.items() if rc == 1]
            odd = [p for p, (rc, _) in out.items() if rc not in (0, 1)]
            print(f"{name}: {t} caught={','.join(caught) or '-'}" + (f" ODD={odd}" if odd else ""), flush=True)
            if verbose or odd:
                for p, (rc, det) in out.items():
                    if rc:
                        print(f"    {p} rc={rc} {det}", flush=True)


main()
