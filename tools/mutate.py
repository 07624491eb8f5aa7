"""Development aid (registered nowhere): random AST mutants of the files a
property is anchored in, run through the property's check and, if that stays
quiet, through the repository's tests.  Works on scratch copies.

  tools/mutate.py OUT.jsonl N SEED WORKERS PROP...
"""
import ast, copy, json, os, random, shutil, subprocess, sys, tempfile
import multiprocessing as mp

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
SKIPF = ("__repr__", "__str__")


def sites(tree):
    """(path, kind) for every mutation; path = list of (field, index)."""
    out = []

    def walk(node, path, fn):
        if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
            fn = (fn + "." if fn else "") + node.name
            if node.name in SKIPF:
                return
        if isinstance(node, ast.ClassDef):
            fn = (fn + "." if fn else "") + node.name
        if isinstance(node, (ast.Raise, ast.Assert, ast.JoinedStr)):
            return
        if isinstance(node, ast.Call) and ast.unparse(node.func).split(
                ".")[0] in ("logger", "logging", "warnings", "print"):
            return
        if fn:
            if isinstance(node, ast.Compare) and len(node.ops) == 1:
                out.append((path, "cmp", fn))
            if isinstance(node, ast.BinOp) and isinstance(
                    node.op, (ast.Add, ast.Sub, ast.Mult, ast.Div,
                              ast.MatMult, ast.FloorDiv)):
                out.append((path, "bin", fn))
            if isinstance(node, ast.AugAssign):
                out.append((path, "aug", fn))
            if isinstance(node, ast.Constant) and isinstance(
                    node.value, (int, float)):
                out.append((path, "const", fn))
            if isinstance(node, ast.UnaryOp):
                out.append((path, "unary", fn))
            if isinstance(node, ast.BoolOp):
                out.append((path, "bool", fn))
            if isinstance(node, ast.If):
                out.append((path, "if", fn))
            if isinstance(node, ast.Call):
                f = ast.unparse(node.func)
                if f.split(".")[-1] in (
                        "conj", "real", "imag", "copy", "deepcopy", "array",
                        "abs", "conjugate", "transpose", "sorted", "reversed",
                        "flatten", "ravel", "list", "zeros_like", "squeeze"):
                    out.append((path, "unwrap", fn))
                if len(node.args) == 2:
                    out.append((path, "swapargs", fn))
            if isinstance(node, (ast.Expr, ast.AugAssign)) and not (
                    isinstance(node, ast.Expr) and isinstance(
                        node.value, ast.Constant)):
                out.append((path, "del", fn))
            if isinstance(node, ast.Slice):
                out.append((path, "slice", fn))
            if isinstance(node, ast.Attribute) and node.attr == "T":
                out.append((path, "dropT", fn))
            if isinstance(node, (ast.Break, ast.Continue)):
                out.append((path, "del", fn))
        for name, val in ast.iter_fields(node):
            if name in ("annotation", "returns", "decorator_list"):
                continue
            if isinstance(val, list):
                for i, x in enumerate(val):
                    if isinstance(x, ast.AST):
                        walk(x, path + [(name, i)], fn)
            elif isinstance(val, ast.AST):
                walk(val, path + [(name, None)], fn)
    walk(tree, [], "")
    return out


def mutate(tree, path, kind, rng):
    tree = copy.deepcopy(tree)
    parent = tree
    for name, i in path[:-1]:
        parent = getattr(parent, name)
        if i is not None:
            parent = parent[i]
    name, i = path[-1]
    node = getattr(parent, name)
    if i is not None:
        node = node[i]
    new = node
    if kind == "cmp":
        t = {ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt:
             [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.Eq: [ast.NotEq],
             ast.NotEq: [ast.Eq], ast.In: [ast.NotIn], ast.NotIn: [ast.In],
             ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}[type(node.ops[0])]
        node.ops[0] = rng.choice(t)()
    elif kind in ("bin", "aug"):
        t = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.Div],
             ast.Div: [ast.Mult], ast.MatMult: [ast.Mult],
             ast.FloorDiv: [ast.Div]}.get(type(node.op))
        if t is None:
            return None
        node.op = rng.choice(t)()
    elif kind == "const":
        v = node.value
        if isinstance(v, bool):
            node.value = not v
        elif isinstance(v, int):
            node.value = rng.choice([v + 1, v - 1] if v else [1, -1])
        else:
            node.value = rng.choice([v * 2 if v else 1.0, v + 1e-3])
    elif kind == "unary":
        new = node.operand
    elif kind == "bool":
        node.op = ast.Or() if isinstance(node.op, ast.And) else ast.And()
    elif kind == "if":
        node.test = rng.choice([ast.Constant(True), ast.Constant(False)])
    elif kind == "unwrap":
        if node.args:
            new = node.args[0]
        elif isinstance(node.func, ast.Attribute):
            new = node.func.value
        else:
            return None
    elif kind == "swapargs":
        node.args = node.args[::-1]
    elif kind == "del":
        new = ast.Pass()
    elif kind == "slice":
        which = rng.choice(["lower", "upper"])
        if getattr(node, which) is None:
            return None
        setattr(node, which, None)
    elif kind == "dropT":
        new = node.value
    if i is None:
        setattr(parent, name, new)
    else:
        getattr(parent, name)[i] = new
    return ast.fix_missing_locations(tree)


def tests(W):
    t = open("/opt/vp/test.sh").read().replace(
        "cd /repo", "cd " + W).replace("-n 8", "-n 3")
    open(W + "/.t.sh", "w").write(t)
    subprocess.run(["bash", W + "/.t.sh", W + "/.out.json"],
                   stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
    b = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
    try:
        o = json.load(open(W + "/.out.json"))["passed"]
    except Exception:
        return len(b)
    return len(b - set(o))


def loop(k, q, outp, lock):
    W = "/tmp/mut/w%d" % k
    shutil.rmtree(W, ignore_errors=True)
    os.makedirs(W)
    subprocess.check_call("git -C %s archive HEAD | tar x -C %s" % (REPO, W),
                          shell=True)
    while True:
        job = q.get()
        if job is None:
            break
        f, props, fn, kind, diff, text = job
        p = os.path.join(W, f)
        orig = open(p).read()
        open(p, "w").write(text)
        caught = None
        tail = ""
        for pr in props:
            r = subprocess.run(
                ["nice", "./check", pr, "--jobs", "4"], cwd=V, env=dict(
                    os.environ, VERIF_REPO=W, VERIF_EVIDENCE=W + "/.ev"),
                stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True)
            tail = r.stdout[-300:]
            if r.returncode == 1:
                caught = pr + (" nofail" if "no-failing-input" in r.stdout
                               else "")
                break
            if r.returncode != 0:
                caught = pr + " EXIT %d" % r.returncode
                break
        miss = tests(W) if caught is None else None
        open(p, "w").write(orig)
        with lock:
            with open(outp, "a") as o:
                o.write(json.dumps(dict(file=f, fn=fn, kind=kind, diff=diff,
                                        caught=caught, tests=miss)) + "\n")
    shutil.rmtree(W, ignore_errors=True)


def main():
    outp, n, seed, workers = sys.argv[1], *map(int, sys.argv[2:5])
    rng = random.Random(seed)
    P = {}
    for l in open(V + "/properties.jsonl"):
        d = json.loads(l)
        P[d["id"]] = d["anchors"]["files"]
    byfile = {}
    for k, fs in P.items():
        if os.path.exists(V + "/vc/contracts/%s.py" % k.lower()):
            for f in fs:
                byfile.setdefault(f, []).append(k)
    jobs = []
    for pr in sys.argv[5:]:
        cand = []
        for f in P[pr]:
            src = open(os.path.join(REPO, f)).read()
            tree = ast.parse(src)
            cand += [(f, tree) + s for s in sites(tree)]
        rng.shuffle(cand)
        got = 0
        for f, tree, path, kind, fn in cand:
            m = mutate(tree, path, kind, rng)
            if m is None:
                continue
            a, b = ast.unparse(tree).split("\n"), ast.unparse(m).split("\n")
            if a == b:
                continue
            import difflib
            diff = [x for x in difflib.unified_diff(a, b, lineterm="", n=0)
                    if x[:2] not in ("--", "++", "@@")]
            props = [pr] + [x for x in byfile[f] if x != pr]
            jobs.append((f, props, fn, kind, diff, "\n".join(b) + "\n"))
            got += 1
            if got >= n:
                break
    rng.shuffle(jobs)
    q = mp.Queue()
    lock = mp.Lock()
    ps = [mp.Process(target=loop, args=(k, q, outp, lock))
          for k in range(workers)]
    for p in ps:
        p.start()
    for j in jobs:
        q.put(j)
    for _ in ps:
        q.put(None)
    for p in ps:
        p.join()


main()
