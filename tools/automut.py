"""Automatic mutation of /repo's library code to look for blind spots of the checks (development tool).

automut.py list [file]            number the mutants
automut.py run OUT.jsonl [file..] for every mutant that passes the tests: run checks until one reports a violation
"""
import ast
import copy
import json
import os
import shutil
import subprocess
import sys
import tempfile
from concurrent.futures import ThreadPoolExecutor, as_completed

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PY = "/opt/venv/bin/python"
LIB = "/repo/aioreactive"
FILES = {
    "observers.py": "C01 C02 C05 C18 C19 C04 C06 C07 C09 C10 C14 C27 C26",
    "subject.py": "C16 C17 C21 C01 C26",
    "transform.py": "C03 C09 C12 C06 C21 C01 C04 C05 C07 C08 C20 C27 C26",
    "combine.py": "C07 C08 C10 C03 C05 C06 C04 C20 C01 C27 C26",
    "filtering.py": "C03 C11 C01 C02 C05 C06 C20 C21 C04 C27 C26",
    "timeshift.py": "C13 C14 C20 C06 C04 C05 C01 C02 C27 C26",
    "create.py": "C23 C15 C06 C20 C04 C01 C02 C05 C21 C27 C26",
    "subscription.py": "C19",
    "observables.py": "C18 C03 C20 C06",
    "leave.py": "C18 C24",
    "testing/virtual_events.py": "C22",
    "testing/observer.py": "C25",
    "testing/subject.py": "C25",
    "notification.py": "C01 C03 C06 C10 C13",
    "__init__.py": "C03 C07 C08 C10 C11 C13 C14 C23 C18 C21 C12 C09 C15",
    "iterable/to_async_observable.py": "C23",
    "msg.py": "C07",
}


FUNCS = {
    "AsyncIteratorObserver": "C18", "AsyncAnonymousObserver": "C03 C01", "AsyncNotificationObserver": "C10 C13 C14", "safe_observer": "C01 C02 C05 C06",
    "auto_detach_observer": "C05 C04 C01 C06", "AsyncAwaitableObserver": "C19", "AsyncSingleSubject": "C17 C21", "AsyncMultiSubject": "C16 C21",
    "merge_inner": "C07 C08 C05 C04 C06 C01", "concat_seq": "C08", "combine_latest": "C10 C05 C04 C06 C20", "with_latest_from": "C10 C05 C04 C06 C20", "zip_seq": "C03 C05 C06 C20 C01 C04",
    "transform": "C03 C21 C06 C04", "map_async": "C03 C21", "starmap_async": "C03 C21", "map": "C03 C21", "starmap": "C03 C21", "mapi": "C03 C20", "mapi_async": "C03 C20",
    "flat_map": "C07", "flat_mapi": "C07", "flat_map_async": "C07", "flat_mapi_async": "C07", "concat_map": "C08", "switch_latest": "C09 C05 C04 C06 C01 C20",
    "flat_map_latest": "C09", "flat_map_latest_async": "C09", "catch": "C12 C01 C04 C05 C06 C21 C20", "retry": "C12 C20", "_scan": "C03 C01 C05 C06 C04 C21 C20", "reduce": "C03", "reduce_async": "C03",
    "take_until": "C11 C05 C04 C06 C01", "distinct_until_changed": "C03 C01 C02 C06 C05", "delay": "C13 C04 C05 C06 C20 C01 C02", "debounce": "C14 C04 C05 C06 C01 C20", "sample": "C04 C05",
    "interval": "C15 C06 C04 C20", "timer": "C15", "of_seq": "C23 C06 C04 C20", "of_async": "C23 C06 C04", "of_async_worker": "C23 C06 C01 C04", "of_async_iterable": "C23 C06 C04 C20 C21", "defer": "C23 C06 C20",
    "single": "C23 C01", "empty": "C23", "never": "C23", "fail": "C23", "canceller": "C23 C15 C04", "create": "C23",
    "choose": "C03 C21", "choose_async": "C03 C21", "filter": "C03 C21", "filter_async": "C03 C21", "starfilter": "C03 C21", "filteri": "C03 C20", "skip": "C03 C05 C20 C01", "skip_last": "C03 C20 C01", "take": "C03 C05 C20 C01", "take_last": "C03 C20 C01", "slice": "C03 C20",
    "to_observable": "C24", "AsyncTestObserver": "C25", "AsyncSubjectBase": "C25",
}


def is_noise(s):
    if isinstance(s, ast.Expr):
        v = s.value
        if isinstance(v, ast.Constant):
            return True
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Attribute) and isinstance(v.func.value, ast.Name) and v.func.value.id in ("log", "logger"):
            return True
    return isinstance(s, (ast.Assert, ast.Import, ast.ImportFrom, ast.Pass))


OWNER = []
SWAP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}


def future(call):
    return ast.Call(func=ast.Attribute(value=ast.Call(func=ast.Name("__import__"), args=[ast.Constant("asyncio")], keywords=[]), attr="ensure_future"), args=[call], keywords=[])


def sleep0():
    return ast.Expr(ast.Await(ast.Call(func=ast.Attribute(value=ast.Call(func=ast.Name("__import__"), args=[ast.Constant("asyncio")], keywords=[]), attr="sleep"), args=[ast.Constant(0)], keywords=[])))


def sites(tree):
    """Yield (description, apply) where apply(tree_copy_node_lookup) mutates in place; nodes are found by index in ast.walk order."""
    nodes = list(ast.walk(tree))
    infn = set()
    top = {}
    for t in tree.body:
        if isinstance(t, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            for x in ast.walk(t):
                top[id(x)] = t.name
    OWNER.clear()
    OWNER.extend(top.get(id(n), "") for n in nodes)
    isasync = {}

    def mark(n, fn, asy):
        for c in ast.iter_child_nodes(n):
            if isinstance(c, (ast.FunctionDef, ast.AsyncFunctionDef)):
                for d in (c.args, c.returns, *c.decorator_list):
                    pass
                for b in c.body:
                    infn.add(id(b))
                    isasync[id(b)] = isinstance(c, ast.AsyncFunctionDef)
                    mark_b(b, isinstance(c, ast.AsyncFunctionDef))
                mark(c, True, isinstance(c, ast.AsyncFunctionDef))
            else:
                mark(c, fn, asy)

    def mark_b(n, asy):
        for c in ast.walk(n):
            if id(c) not in infn:
                infn.add(id(c))
            isasync[id(c)] = asy

    mark(tree, False, False)
    # annotations are not code
    anno = set()
    for n in nodes:
        for f in ("annotation", "returns"):
            a = getattr(n, f, None)
            if isinstance(a, ast.AST):
                anno.update(id(x) for x in ast.walk(a))
        if isinstance(n, ast.arguments):
            pass
    logs = set()
    for n in nodes:
        if isinstance(n, ast.Expr) and is_noise(n):
            logs.update(id(x) for x in ast.walk(n))
    for i, n in enumerate(nodes):
        if id(n) in anno or id(n) in logs:
            continue
        line = getattr(n, "lineno", 0)
        # statement lists
        for field in ("body", "orelse", "finalbody"):
            lst = getattr(n, field, None)
            if not isinstance(lst, list) or not lst or not isinstance(lst[0], ast.stmt):
                continue
            if not isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef, ast.If, ast.For, ast.AsyncFor, ast.While, ast.Try, ast.With, ast.AsyncWith, ast.ExceptHandler, ast.match_case)):
                continue
            for j, s in enumerate(lst):
                if is_noise(s) or isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef, ast.Nonlocal)):
                    continue

                def delete(m, field=field, j=j):
                    getattr(m, field)[j] = ast.Pass()

                yield f"{s.lineno}: delete `{ast.unparse(s).splitlines()[0][:70]}`", i, delete
                if isinstance(s, ast.If):

                    def always(m, field=field, j=j):
                        getattr(m, field)[j].test = ast.Constant(True)

                    def never(m, field=field, j=j):
                        getattr(m, field)[j].test = ast.Constant(False)

                    yield f"{s.lineno}: if-true `{ast.unparse(s.test)[:60]}`", i, always
                    if s.orelse:
                        yield f"{s.lineno}: if-false `{ast.unparse(s.test)[:60]}`", i, never
                if isinstance(s, ast.Expr) and isinstance(s.value, ast.Await) and isinstance(s.value.value, ast.Call):

                    def bg(m, field=field, j=j):
                        e = getattr(m, field)[j]
                        e.value = future(e.value.value)

                    yield f"{s.lineno}: background `{ast.unparse(s)[:70]}`", i, bg
                if isinstance(s, ast.Return) and isinstance(s.value, ast.Await) and isinstance(s.value.value, ast.Call):
                    pass
                if j + 1 < len(lst) and not is_noise(lst[j + 1]) and not isinstance(lst[j + 1], (ast.FunctionDef, ast.AsyncFunctionDef, ast.Return)) and "super()" not in ast.unparse(s) and not (getattr(n, "name", "") == "__init__"):

                    def swap(m, field=field, j=j):
                        x = getattr(m, field)
                        x[j], x[j + 1] = x[j + 1], x[j]

                    yield f"{s.lineno}: swap with next `{ast.unparse(s).splitlines()[0][:60]}`", i, swap
                if isinstance(s, ast.Try):
                    if s.finalbody:

                        def nofinal(m, field=field, j=j):
                            t = getattr(m, field)[j]
                            f = t.finalbody
                            t.finalbody = []
                            if not t.handlers:
                                getattr(m, field)[j : j + 1] = t.body + f
                            else:
                                getattr(m, field)[j + 1 : j + 1] = f

                        yield f"{s.lineno}: finally becomes sequence", i, nofinal
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(n, ast.AsyncFunctionDef) and n.name.startswith("subscribe"):
                    yield f"{s.lineno}: hoist state `{ast.unparse(s)[:60]}`", i, ("hoist", field, j)
        if isinstance(n, ast.ExceptHandler):
            if n.type is not None:

                def narrow(m):
                    m.type = ast.Name("ValueError")

                yield f"{line}: except ValueError", i, narrow

            def swallow(m):
                m.body = [ast.Pass()]

            yield f"{line}: swallow exception", i, swallow
        if id(n) not in infn:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:

            def cmp(m):
                m.ops[0] = SWAP[type(m.ops[0])]()

            yield f"{line}: compare `{ast.unparse(n)[:60]}`", i, cmp
            if isinstance(n.ops[0], (ast.Lt, ast.LtE, ast.Gt, ast.GtE)):

                def neg(m):
                    m.ops[0] = {ast.Lt: ast.GtE, ast.LtE: ast.Gt, ast.Gt: ast.LtE, ast.GtE: ast.Lt}[type(m.ops[0])]()

                yield f"{line}: negate `{ast.unparse(n)[:60]}`", i, neg
            if isinstance(n.ops[0], ast.Eq):

                def ge(m):
                    m.ops[0] = ast.GtE()

                def le(m):
                    m.ops[0] = ast.LtE()

                yield f"{line}: == to >= `{ast.unparse(n)[:60]}`", i, ge
                yield f"{line}: == to <= `{ast.unparse(n)[:60]}`", i, le
        if isinstance(n, ast.BoolOp):

            def bop(m):
                m.op = ast.And() if isinstance(m.op, ast.Or) else ast.Or()

            yield f"{line}: and/or `{ast.unparse(n)[:60]}`", i, bop
            for k in range(len(n.values)):

                def drop(m, k=k):
                    del m.values[k]
                    if len(m.values) == 1:
                        m.values = [m.values[0], m.values[0]]

                yield f"{line}: drop operand {k} of `{ast.unparse(n)[:60]}`", i, drop
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):

            def unot(m):
                m.operand = ast.UnaryOp(ast.Not(), m.operand)

            yield f"{line}: drop not `{ast.unparse(n)[:60]}`", i, unot
        if isinstance(n, ast.Constant) and not isinstance(n.value, str) and n.value is not None and n.value is not ...:
            alts = [not n.value] if isinstance(n.value, bool) else [n.value + 1, n.value - 1]
            for a in alts:

                def const(m, a=a):
                    m.value = a

                yield f"{line}: constant {n.value} -> {a}", i, const
        if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):

            def arith(m):
                m.op = ast.Sub() if isinstance(m.op, ast.Add) else ast.Add()

            yield f"{line}: arithmetic `{ast.unparse(n)[:60]}`", i, arith
        if isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id == "list" and len(n.args) == 1:

                def unlist(m):
                    m.func = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg("x")], kwonlyargs=[], kw_defaults=[], defaults=[]), body=ast.Name("x"))

                yield f"{line}: no copy `{ast.unparse(n)[:60]}`", i, unlist
            if len(n.args) > 1:

                def droplast(m):
                    m.args.pop()

                def swapargs(m):
                    m.args[0], m.args[1] = m.args[1], m.args[0]

                yield f"{line}: drop last arg `{ast.unparse(n)[:60]}`", i, droplast
                yield f"{line}: swap args `{ast.unparse(n)[:60]}`", i, swapargs
            for k in range(len(n.keywords)):

                def dropkw(m, k=k):
                    del m.keywords[k]

                yield f"{line}: drop keyword {n.keywords[k].arg} `{ast.unparse(n)[:60]}`", i, dropkw
            if isinstance(n.func, ast.Attribute) and n.func.attr == "append":

                def front(m):
                    m.func.attr = "insert"
                    m.args.insert(0, ast.Constant(0))

                yield f"{line}: insert at front `{ast.unparse(n)[:60]}`", i, front
            if isinstance(n.func, ast.Attribute) and n.func.attr == "pop" and n.args:

                def poplast(m):
                    m.args = []

                yield f"{line}: pop last `{ast.unparse(n)[:60]}`", i, poplast
            if isinstance(n.func, ast.Attribute) and n.func.attr in ("asend", "athrow", "aclose") and isinstance(n.func.value, ast.Name) and n.func.value.id in ("safe_obv", "aobv", "obv", "observer"):
                if n.func.attr == "athrow":

                    def toclose(m):
                        m.func.attr = "aclose"
                        m.args = []

                    yield f"{line}: throw->close `{ast.unparse(n)[:60]}`", i, toclose
        if isinstance(n, ast.Match):
            for k in range(len(n.cases) - 1):

                def dropcase(m, k=k):
                    del m.cases[k]

                yield f"{line}: drop case {ast.unparse(n.cases[k].pattern)[:50]}", i, dropcase


def hoist(tree, idx, field, j):
    nodes = list(ast.walk(tree))
    fn = nodes[idx]
    parent = None
    for n in nodes:
        for f in ("body", "orelse"):
            lst = getattr(n, f, None)
            if isinstance(lst, list) and fn in lst:
                parent = lst
    s = getattr(fn, field)[j]
    del getattr(fn, field)[j]
    parent.insert(parent.index(fn), s)
    name = (s.targets[0] if isinstance(s, ast.Assign) else s.target)
    names = [x.id for x in ast.walk(name) if isinstance(x, ast.Name)]
    # assignments left in fn itself must refer to the hoisted one
    if any(isinstance(x, (ast.Assign, ast.AugAssign)) and any(isinstance(t, ast.Name) and t.id in names for t in ast.walk(x)) for x in fn.body if isinstance(x, (ast.Assign, ast.AugAssign))):
        fn.body.insert(0, ast.Nonlocal(names))


def mutants(rel):
    src = open(os.path.join(LIB, rel)).read()
    tree = ast.parse(src)
    out = []
    seen = {ast.unparse(tree)}
    for desc, idx, fn in sites(tree):
        t = copy.deepcopy(tree)
        try:
            if isinstance(fn, tuple):
                hoist(t, idx, fn[1], fn[2])
            else:
                fn(list(ast.walk(t))[idx])
            ast.fix_missing_locations(t)
            code = ast.unparse(t)
            compile(code, rel, "exec")
        except Exception:
            continue
        if code in seen:
            continue
        seen.add(code)
        out.append((desc, code, OWNER[idx]))
    return out


def judge(job):
    rel, k, desc, code, owner, runs = job
    d = tempfile.mkdtemp(prefix="am-", dir="/tmp")
    res = {"file": rel, "k": k, "fn": owner, "desc": desc}
    try:
        repo = os.path.join(d, "repo")
        shutil.copytree("/repo", repo, ignore=shutil.ignore_patterns(".git", "__pycache__", ".venv", "docs"))
        open(os.path.join(repo, "aioreactive", rel), "w").write(code)
        env = {**os.environ, "PYTHONPATH": repo, "PYTHONDONTWRITEBYTECODE": "1"}
        try:
            r = subprocess.run([PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "tests"], cwd=repo, capture_output=True, text=True, env=env, timeout=60)
            if r.returncode:
                res["verdict"] = "tests"
                return res
        except subprocess.TimeoutExpired:
            res["verdict"] = "tests"
            return res
        first = FUNCS.get(owner, FILES[rel]).split() if rel != "__init__.py" else FILES[rel].split()
        first += [p for p in FILES[rel].split() if p in ("C26", "C27") and p not in first]
        allp = [f"C{i:02d}" for i in range(1, 60) if os.path.exists(os.path.join(ROOT, "sim/props", f"c{i:02d}.py"))]
        order = [p for p in first if p in allp]
        if os.environ.get("AUTOMUT_ALL"):
            order += [p for p in allp if p not in first]
        odd = []
        for p in order:
            env = {**os.environ, "VERIF_REPO": repo, "VERIF_OUT": d, "VERIF_RUNS": str(runs), "VERIF_WORKERS": "1", "VERIF_FAST": "1"}
            try:
                r = subprocess.run([PY, os.path.join(ROOT, "check.py"), p], cwd=ROOT, capture_output=True, text=True, env=env, timeout=400)
            except subprocess.TimeoutExpired:
                odd.append(p + ":timeout")
                continue
            if r.returncode == 1:
                res["verdict"] = p
                res["detail"] = next((x for x in r.stdout.splitlines() if x.startswith("violation")), "")[:300]
                return res
            if r.returncode:
                odd.append(p + ":" + (r.stdout + r.stderr)[-300:])
        res["verdict"] = "SURVIVED"
        if odd:
            res["odd"] = odd
        return res
    finally:
        shutil.rmtree(d, ignore_errors=True)


def main():
    if sys.argv[1] == "list":
        for rel in sys.argv[2:] or FILES:
            for k, (desc, _, _) in enumerate(mutants(rel)):
                print(rel, k, desc)
        return
    if sys.argv[1] == "write":
        open(sys.argv[4], "w").write(mutants(sys.argv[2])[int(sys.argv[3])][1])
        return
    if sys.argv[1] == "show":
        _, code, _ = mutants(sys.argv[2])[int(sys.argv[3])]
        import difflib

        base = ast.unparse(ast.parse(open(os.path.join(LIB, sys.argv[2])).read()))
        print("\n".join(difflib.unified_diff(base.splitlines(), code.splitlines(), lineterm="", n=4)))
        return
    out = sys.argv[2]
    runs = int(os.environ.get("AUTOMUT_RUNS", "3000"))
    done = set()
    if os.path.exists(out):
        done = {(x["file"], x["k"]) for x in map(json.loads, open(out))}
    jobs = [(rel, k, desc, code, owner, runs) for rel in sys.argv[3:] or FILES for k, (desc, code, owner) in enumerate(mutants(rel)) if (rel, k) not in done]
    only = os.environ.get("AUTOMUT_ONLY")  # an earlier OUT.jsonl: its survivors again
    if only:
        keep = {(x["file"], x["k"]) for x in map(json.loads, open(only)) if x["verdict"] == "SURVIVED"}
        jobs = [j for j in jobs if j[:2] in keep]
    print(len(jobs), "mutants", flush=True)
    with ThreadPoolExecutor(int(os.environ.get("AUTOMUT_JOBS", "7"))) as ex, open(out, "a") as f:
        for res in (x.result() for x in as_completed([ex.submit(judge, j) for j in jobs])):
            f.write(json.dumps(res) + "\n")
            f.flush()


main()
