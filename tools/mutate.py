"""Automatic small changes of /repo (in scratch copies): which of those the test suite accepts do the checks notice?

python3 tools/mutate.py OUT.jsonl N SEED file[:function,...]=prop,prop ...      (3 workers)"""
import ast, copy, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]
CMP = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Pow: ast.Mult}


def sites(tree, funcs):
    """-> list of (description, mutator(tree-copy node))"""
    out = []
    for fn in ast.walk(tree):
        if not isinstance(fn, ast.FunctionDef) or (funcs and fn.name not in funcs):
            continue
        names = sorted({n.id for n in ast.walk(fn) if isinstance(n, ast.Name)} & {a.arg for a in fn.args.args} | {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
        for node in ast.walk(fn):
            p = (fn.name, getattr(node, "lineno", 0))
            if isinstance(node, ast.BinOp) and type(node.op) in BIN:
                out.append((node, "op", p))
                if isinstance(node.op, (ast.Mult, ast.Add)):
                    out.append((node, "left", p))
                    out.append((node, "right", p))
            elif isinstance(node, ast.AugAssign) and type(node.op) in BIN:
                out.append((node, "op", p))
            elif isinstance(node, ast.Compare) and type(node.ops[0]) in CMP:
                out.append((node, "cmp", p))
            elif isinstance(node, ast.Constant) and isinstance(node.value, (int, float)) and not isinstance(node.value, bool):
                out.append((node, "num+", p))
                out.append((node, "num2", p))
            elif isinstance(node, ast.Constant) and isinstance(node.value, bool):
                out.append((node, "bool", p))
            elif isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.USub, ast.Not)):
                out.append((node, "unary", p))
            elif isinstance(node, ast.BoolOp):
                out.append((node, "boolop", p))
            elif isinstance(node, ast.Attribute) and node.attr == "T":
                out.append((node, "untranspose", p))
            elif isinstance(node, ast.Call) and isinstance(node.func, ast.Attribute) and node.func.attr == "copy":
                out.append((node, "uncopy", p))
            elif isinstance(node, ast.Name) and isinstance(node.ctx, ast.Load) and node.id in names and len(names) > 1:
                out.append((node, "name", p))
                out.append((node, "name", p))
            elif isinstance(node, ast.Call) and len(node.args) >= 2:
                out.append((node, "swapargs", p))
            elif isinstance(node, (ast.If, ast.IfExp)):
                out.append((node, "iftrue", p))
        for node in ast.walk(fn):
            for f in ("body", "orelse"):
                b = getattr(node, f, None)
                if isinstance(b, list):
                    for k, s in enumerate(b):
                        if isinstance(s, (ast.AugAssign, ast.Expr)) and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                            out.append((s, "drop", (fn.name, s.lineno)))
    return out


def names_of(tree, fname):
    for fn in ast.walk(tree):
        if isinstance(fn, ast.FunctionDef) and fn.name == fname:
            return sorted({a.arg for a in fn.args.args} | {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)})
    return []


def mutate(src, rng, funcs):
    tree = ast.parse(src)
    S = sites(tree, funcs)
    node, kind, (fn, line) = rng.choice(S)
    seg = ast.get_source_segment(src, node)
    if seg is None:
        return None
    new = copy.deepcopy(node)
    if kind == "op":
        new.op = BIN[type(new.op)]()
    elif kind == "left":
        new = new.left
    elif kind == "right":
        new = new.right
    elif kind == "cmp":
        new.ops[0] = CMP[type(new.ops[0])]()
    elif kind == "num+":
        new.value = new.value + 1
    elif kind == "num2":
        new.value = new.value * 2 if new.value else 1
    elif kind == "bool":
        new.value = not new.value
    elif kind == "unary":
        new = new.operand
    elif kind == "boolop":
        new.op = ast.Or() if isinstance(new.op, ast.And) else ast.And()
    elif kind == "untranspose":
        new = new.value
    elif kind == "uncopy":
        new = new.func.value
    elif kind == "name":
        c = [x for x in names_of(tree, fn) if x != node.id]
        new.id = rng.choice(c)
    elif kind == "swapargs":
        new.args[0], new.args[1] = new.args[1], new.args[0]
    elif kind == "iftrue":
        new.test = ast.Constant(value=rng.random() < 0.5)
        if isinstance(node, ast.If):
            node, new = node.test, new.test
            seg = ast.get_source_segment(src, node)
    elif kind == "drop":
        new = ast.Pass()
    txt = ast.unparse(ast.fix_missing_locations(new))
    if kind in ("op", "left", "right", "unary", "cmp", "boolop") and not isinstance(node, ast.AugAssign):
        txt = "(" + txt + ")"
    lines = src.split("\n")
    if kind == "drop":
        pass
    # splice by position
    off = [0]
    for l in src.encode().split(b"\n"):
        off.append(off[-1] + len(l) + 1)
    a, b = off[node.lineno - 1] + node.col_offset, off[node.end_lineno - 1] + node.end_col_offset
    s = src.encode()
    res = (s[:a] + txt.encode() + s[b:]).decode()
    try:
        if ast.dump(ast.parse(res)) == ast.dump(tree):
            return None
    except SyntaxError:
        return None
    return dict(function=fn, line=line, kind=kind, old=seg[:90], new=txt[:90], src=res)


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    Q = Queue()
    W = int(os.environ.get("WORKERS", "3"))
    for k in range(W):
        d = "/tmp/mut/w%d" % k
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        Q.put(d)
    jobs = []
    for a in sys.argv[4:]:
        f, props = a.split("=")
        f, _, fs = f.partition(":")
        src = open("/repo/" + f).read()
        seen = set()
        tries = 0
        while len([j for j in jobs if j["arg"] == a]) < n and tries < 40 * n:
            tries += 1
            m = mutate(src, rng, set(fs.split(",")) if fs else None)
            if m and m["src"] not in seen:
                seen.add(m["src"])
                jobs.append(dict(m, file=f, props=props.split(","), arg=a))
    rng.shuffle(jobs)

    def work(j):
        d = Q.get()
        try:
            return work_(j, d)
        except Exception as e:
            return print("error", repr(e)[:200], flush=True)
        finally:
            subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."])
            Q.put(d)

    def work_(j, d):
        open(os.path.join(d, j["file"]), "w").write(j["src"])
        env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        env.pop("PYTHONPATH", None)
        x = d + ".xml"
        if os.path.exists(x):
            os.remove(x)
        try:
            subprocess.run("/opt/venv/bin/python -m pytest regain -q -p no:cacheprovider --timeout=60 --continue-on-collection-errors -o junit_family=xunit2 --junitxml=%s; python3 /opt/vp/results.py %s.json junit:%s" % (x, d, x), shell=True, cwd=d, env=env, capture_output=True, timeout=120)
            r = json.load(open(d + ".json"))
        except Exception:
            return
        if [t for t in BASE if t not in r["passed"]]:
            return
        res = {}
        for p in j["props"]:
            e = dict(env, VERIF_REPO=d, VERIF_OUT=d + ".out", VERIF_EVD=d + ".evd", VERIF_SEED="1", VERIF_TIER="quick")
            try:
                q = subprocess.run(["bash", os.environ.get("VERIF", "/verif") + "/check.sh", p], env=e, capture_output=True, text=True, timeout=900)
                o = q.stdout
                res[p] = "caught" if "VIOLATION" in o and "no-failing" not in o else "obligation" if "VIOLATION" in o else "rc%d %s" % (q.returncode, "reach" if ", 0 units outside" not in o else "quiet")
            except subprocess.TimeoutExpired:
                res[p] = "timeout"
            if res[p] in ("caught", "obligation"):
                break
        j = {k: v for k, v in j.items() if k != "src"}
        j["result"] = res
        with open(out, "a") as h:
            h.write(json.dumps(j) + "\n")
        print(json.dumps(res), j["file"], j["function"], j["line"], j["kind"], repr(j["old"]), "->", repr(j["new"]), flush=True)

    with ThreadPoolExecutor(W) as ex:
        list(ex.map(work, jobs))
    for k in range(W):
        shutil.rmtree("/tmp/mut/w%d" % k, ignore_errors=True)


main()
