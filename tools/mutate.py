"""Mutation campaign: how many small changes that survive the repository's tests do the checks catch?
A development tool (no check uses it).

  python tools/mutate.py list OUT.json [STRIDE]         all mutants, every STRIDE-th
  python tools/mutate.py tests IN.json OUT.jsonl WORKERS  runs the test suite on each
  python tools/mutate.py checks OUT.jsonl RES.jsonl       runs the checks on the survivors
"""
import ast
import concurrent.futures
import hashlib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SEED_REPO", "/repo")
SRC = os.path.join(REPO, "src", "sigmaepsilon", "math")
PY = "/opt/venv/bin/python"
MAP = {
    "linalg/frame.py": ["C05", "C01", "C04", "C02", "C06"],
    "linalg/meta.py": ["C04", "C05", "C01", "C03", "C06"],
    "linalg/abstract.py": ["C04", "C01", "C03", "C06"],
    "linalg/tensor.py": ["C03", "C02", "C04", "C06", "C01"],
    "linalg/vector.py": ["C03", "C02", "C04", "C06", "C01"],
    "linalg/tr.py": ["C02", "C06"],
    "linalg/top.py": ["C03"],
    "linalg/solve.py": ["C07"],
    "linalg/utils.py": ["C08", "C07", "C02", "C05", "C06", "C09", "C23", "C03"],
    "linalg/logical.py": ["C08", "C24", "C05"],
    "linalg/sparse/csr.py": ["C09", "C11"],
    "linalg/sparse/jaggedarray.py": ["C09", "C10"],
    "linalg/sparse/utils.py": ["C09", "C23"],
    "arraysetops.py": ["C10", "C09"],
    "graph/graph.py": ["C11"],
    "graph/utils.py": ["C11"],
    "function/function.py": ["C12", "C14", "C13", "C25"],
    "function/symutils.py": ["C12", "C13", "C14", "C25"],
    "function/utils.py": ["C12", "C13", "C14", "C25"],
    "function/metafunction.py": ["C12", "C13", "C25"],
    "function/relation.py": ["C13", "C14"],
    "function/testfunction.py": ["C25"],
    "function/functions.py": ["C25"],
    "optimize/lp.py": ["C14"],
    "optimize/ga.py": ["C16", "C17", "C15"],
    "optimize/bga.py": ["C16", "C17", "C15"],
    "optimize/state.py": ["C17"],
    "approx/functions.py": ["C19", "C18"],
    "approx/lagrange.py": ["C20"],
    "approx/ls.py": ["C19", "C18"],
    "approx/ls_approx.py": ["C19", "C18"],
    "approx/ls_poly.py": ["C19", "C18"],
    "approx/ls_preproc.py": ["C19", "C18"],
    "approx/mls.py": ["C22", "C19", "C18"],
    "numint.py": ["C21"],
    "knn.py": ["C22"],
    "utils.py": ["C23", "C10", "C22"],
    "logical.py": ["C24", "C08"],
    "hist.py": ["C23"],
    "decorate.py": ["C23"],
}
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is, ast.In: ast.NotIn, ast.NotIn: ast.In}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Div, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult}


def sites(tree):
    """(node, kind, apply) for every mutation; apply() changes the tree, and returns an undo"""
    res = []

    def setter(node, field, new):
        def go():
            old = getattr(node, field)
            setattr(node, field, new)
            return lambda: setattr(node, field, old)
        return go

    def item(lst, i, new):
        def go():
            old = lst[i]
            lst[i] = new
            def undo():
                lst[i] = old
            return undo
        return go

    skip = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant):
            skip.add(id(n.body[0]))
            skip.add(id(n.body[0].value))
        if isinstance(n, ast.FunctionDef):
            for d in n.decorator_list + n.args.defaults + [x for x in (n.returns,) if x] + [a.annotation for a in n.args.args if a.annotation]:
                if d in n.args.defaults:
                    continue
                for m in ast.walk(d):
                    skip.add(id(m))
        if isinstance(n, ast.Raise):
            for m in ast.walk(n):
                if m is not n:
                    skip.add(id(m))
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            skip.add(id(n))
    for n in ast.walk(tree):
        if id(n) in skip:
            continue
        if isinstance(n, ast.Compare):
            for i, o in enumerate(n.ops):
                if type(o) in CMP:
                    res.append((n, "cmp", item(n.ops, i, CMP[type(o)]())))
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            if not (isinstance(n.left, ast.Constant) and isinstance(n.left.value, str)):
                res.append((n, "bin", setter(n, "op", BIN[type(n.op)]())))
        elif isinstance(n, ast.AugAssign) and type(n.op) in BIN:
            res.append((n, "aug", setter(n, "op", BIN[type(n.op)]())))
        elif isinstance(n, ast.BoolOp):
            res.append((n, "bool", setter(n, "op", ast.Or() if isinstance(n.op, ast.And) else ast.And())))
            for i in range(len(n.values)):
                rest = [v for j, v in enumerate(n.values) if j != i]
                if len(rest) >= 1:
                    res.append((n, f"drop{i}", setter(n, "values", rest)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            res.append((n, "not", setter(n, "op", ast.UAdd()) ) if False else (n, "not", setter(n, "operand", ast.UnaryOp(ast.Not(), n.operand))))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.USub):
            res.append((n, "neg", setter(n, "op", ast.UAdd())))
        elif isinstance(n, ast.Constant):
            v = n.value
            if isinstance(v, bool):
                res.append((n, "flip", setter(n, "value", not v)))
            elif isinstance(v, int):
                res.append((n, "inc", setter(n, "value", v + 1)))
                if v > 0:
                    res.append((n, "dec", setter(n, "value", v - 1)))
            elif isinstance(v, float):
                res.append((n, "fl", setter(n, "value", v * 1000 if 0 < v < 1e-3 else v + 1)))
        elif isinstance(n, (ast.If, ast.IfExp, ast.While)):
            if not isinstance(n, ast.While):
                res.append((n, "true", setter(n, "test", ast.Constant(True))))
            res.append((n, "false", setter(n, "test", ast.Constant(False))))
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Attribute) and f.attr in ("copy", "flatten", "ravel", "squeeze", "deepcopy", "sort", "transpose") and not isinstance(f.value, ast.Name):
                pass
            if isinstance(f, ast.Attribute) and f.attr == "copy" and not n.args:
                res.append((n, "nocopy", setter(n, "func", ast.Name("__ident__", ast.Load()))) if False else (n, "nocopy", _nocopy(n)))
            if n.keywords:
                for i in range(len(n.keywords)):
                    res.append((n, f"nokw{i}", setter(n, "keywords", [k for j, k in enumerate(n.keywords) if j != i])))
            if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "np":
                alt = {"array": "asarray", "min": "max", "max": "min", "all": "any", "any": "all", "zeros": "ones", "ones": "zeros", "argmin": "argmax", "argmax": "argmin", "floor": "ceil", "ceil": "floor", "zeros_like": "ones_like", "sum": "max", "abs": "array", "ascontiguousarray": "asarray", "empty": "zeros", "copy": "asarray", "vstack": "hstack", "hstack": "vstack", "minimum": "maximum", "maximum": "minimum", "full": None}.get(f.attr)
                if alt and alt != "zeros" or (alt == "zeros" and f.attr == "ones"):
                    res.append((n, "np." + alt, setter(f, "attr", alt)))
        elif isinstance(n, ast.Slice):
            if n.lower is not None:
                res.append((n, "nolow", setter(n, "lower", None)))
            if n.upper is not None:
                res.append((n, "noup", setter(n, "upper", None)))
            if n.step is not None:
                res.append((n, "nostep", setter(n, "step", None)))
        elif isinstance(n, ast.Break):
            pass
        for field in ("body", "orelse", "finalbody"):
            b = getattr(n, field, None)
            if isinstance(b, list):
                for i, s in enumerate(b):
                    if id(s) in skip or not isinstance(s, ast.stmt):
                        continue
                    if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) or isinstance(s, (ast.AugAssign, ast.Delete, ast.Raise, ast.Continue, ast.Break)):
                        res.append((s, "del", item(b, i, ast.Pass())))
                    elif isinstance(s, ast.Assign) and any(isinstance(t, (ast.Attribute, ast.Subscript)) for t in s.targets):
                        res.append((s, "del", item(b, i, ast.Pass())))
                    elif isinstance(s, ast.Assign) and i > 0:
                        res.append((s, "del", item(b, i, ast.Pass())))
                    elif isinstance(s, ast.Return) and s.value is not None and i > 0 and not isinstance(s.value, ast.Constant):
                        res.append((s, "retnone", setter(s, "value", ast.Constant(None))))
    return res


def _nocopy(n):
    def go():
        f, a = n.func, n.args
        n.func = ast.Name("id_", ast.Load())
        keep = f.value
        n.func = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=keep)
        def undo():
            n.func, n.args = f, a
        return undo
    return go


def listing(out, stride, only=None):
    res = []
    for rel in MAP:
        path = os.path.join(SRC, rel)
        if not os.path.exists(path) or (only and rel not in only):
            continue
        text = open(path).read()
        tree = ast.parse(text)
        seen = {ast.unparse(tree)}
        for k, (node, kind, go) in enumerate(sites(tree)):
            undo = go()
            try:
                new = ast.unparse(ast.fix_missing_locations(tree))
                compile(new, rel, "exec")
            except Exception:
                undo()
                continue
            undo()
            if new in seen:
                continue
            seen.add(new)
            h = int(hashlib.sha1(f"{rel}:{k}".encode()).hexdigest(), 16)
            if h % stride:
                continue
            res.append(dict(id=f"{rel}:{k}", file=rel, k=k, kind=kind, line=getattr(node, "lineno", 0), src=ast.unparse(node).split("\n")[0][:120]))
        assert ast.unparse(tree) in seen
    json.dump(res, open(out, "w"), indent=0)
    print(len(res), "mutants")


def mutated(m):
    tree = ast.parse(open(os.path.join(SRC, m["file"])).read())
    sites(tree)[m["k"]][2]()
    return ast.unparse(ast.fix_missing_locations(tree))


def prepare(top, m):
    if not os.path.exists(top):
        subprocess.run(["git", "clone", "-q", REPO, top], check=True)
    subprocess.run(["git", "-C", top, "checkout", "-q", "--", "."], check=True)
    with open(os.path.join(top, "src/sigmaepsilon/math", m["file"]), "w") as f:
        f.write(mutated(m))


def subset(rel):
    if rel.startswith("linalg/") or rel == "arraysetops.py":
        t = ["tests/linalg", "tests/test_utils.py", "tests/test_graph.py", "tests/test_logical.py"]
    elif rel.startswith("optimize/"):
        t = ["tests/test_ga.py", "tests/test_ga_error_handling.py", "tests/test_ga_max_iterations_status.py", "tests/test_lpp.py", "tests/test_lp_gt_lt_constraints.py", "tests/test_lp_integrality_infer.py"]
    elif rel.startswith("function/"):
        t = ["tests/test_function.py", "tests/test_functions.py", "tests/test_lpp.py", "tests/test_lp_gt_lt_constraints.py", "tests/test_approx.py"]
    elif rel.startswith("approx/") or rel in ("knn.py", "numint.py"):
        t = ["tests/test_approx.py", "tests/test_mls_1d.py", "tests/test_mls_3d.py", "tests/test_mls_approximator.py", "tests/test_numint.py", "tests/test_knn.py"]
    else:
        return ["tests"]
    return t + ["tests/test_docstrings.py"]


def run_tests(top, nb, which):
    env = dict(os.environ, PYTHONPATH=top + "/src:/opt/vp/env", NUMBA_CACHE_DIR=nb, PYTHONHASHSEED="0", MPLBACKEND="agg", PYTHONDONTWRITEBYTECODE="1", NUMBA_NUM_THREADS="2")
    return subprocess.run(["nice", PY, "-m", "pytest", "-q", "-x", "-p", "no:cacheprovider", "-p", "vp_seed", "--timeout=120"] + which, cwd=top, env=env, capture_output=True, text=True, timeout=900)


def tests(src, out, workers):
    todo = json.load(open(src))
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    todo = [m for m in todo if m["id"] not in done]
    import queue

    free = queue.Queue()
    for w in range(workers):
        free.put(w)

    def one(m):
        w = free.get()
        try:
            top, nb = f"/tmp/w/mut/t{w}", f"/tmp/w/mut/nb{w}"
            prepare(top, m)
            shutil.rmtree(nb, ignore_errors=True)
            shutil.copytree(f"/tmp/w/mut/pn{w}", nb)
            try:
                r = run_tests(top, nb, subset(m["file"]))
                ok = r.returncode == 0
            except subprocess.TimeoutExpired:
                ok = False
            with open(out, "a") as f:
                f.write(json.dumps(dict(m, tests=ok)) + "\n")
        finally:
            free.put(w)

    def warm(w):
        top, pn = f"/tmp/w/mut/t{w}", f"/tmp/w/mut/pn{w}"
        shutil.rmtree(top, ignore_errors=True)
        shutil.rmtree(pn, ignore_errors=True)
        subprocess.run(["git", "clone", "-q", REPO, top], check=True)
        os.makedirs(pn)
        r = run_tests(top, pn, ["tests"])
        print("warm", w, r.returncode, flush=True)

    with concurrent.futures.ThreadPoolExecutor(workers) as ex:
        list(ex.map(warm, range(workers)))
        list(ex.map(one, todo))


def checks(src, out):
    done = set()
    if os.path.exists(out):
        done = {json.loads(l)["id"] for l in open(out)}
    for l in open(src):
        m = json.loads(l)
        if not m["tests"] or m["id"] in done:
            continue
        top = "/tmp/w/mut/c"
        prepare(top, m)
        by, codes = None, {}
        for c in MAP[m["file"]]:
            env = dict(os.environ, MC_REPO=top, MC_EVIDENCE="/tmp/w/mut/ev", MC_MAXV="1", MC_FAST="1")
            r = subprocess.run(["bash", os.path.join(HERE, "run.sh"), c, "quick"], env=env, capture_output=True, text=True)
            codes[c] = r.returncode
            if r.returncode == 1:
                by = c
                break
        with open(out, "a") as f:
            f.write(json.dumps(dict(m, by=by, codes=codes)) + "\n")
        print(m["id"], m["kind"], m["line"], m["src"], "->", by, codes, flush=True)


if __name__ == "__main__":
    a = sys.argv[1:]
    if a[0] == "list":
        listing(a[1], int(a[2]) if len(a) > 2 else 1, a[3:] or None)
    elif a[0] == "tests":
        tests(a[1], a[2], int(a[3]))
    elif a[0] == "checks":
        checks(a[1], a[2])
    elif a[0] == "diff":
        m = [x for x in map(json.loads, open(a[1])) if x["id"] == a[2]][0]
        prepare("/tmp/w/mut/d", m)
        import difflib

        old = ast.unparse(ast.parse(open(os.path.join(SRC, m["file"])).read())).split("\n")
        print("\n".join(x for x in difflib.unified_diff(old, mutated(m).split("\n"), lineterm="", n=4)))
