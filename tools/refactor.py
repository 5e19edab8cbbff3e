"""Automatic behaviour-preserving edits of /repo (in scratch copies): do the checks stay quiet?

python3 tools/refactor.py OUT.jsonl N SEED file[:function,...]=prop,prop ...      (3 workers)"""
import ast, builtins, copy, json, os, random, shutil, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
from queue import Queue

BASE = json.load(open("/opt/vp/BASELINE.json"))["stable"]


def locals_of(fn):
    a = {x.arg for x in fn.args.args + fn.args.kwonlyargs} | ({fn.args.vararg.arg} if fn.args.vararg else set()) | ({fn.args.kwarg.arg} if fn.args.kwarg else set())
    s = {n.id for n in ast.walk(fn) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
    return a, s - a


class Rename(ast.NodeTransformer):
    def __init__(self, m):
        self.m = m

    def visit_Name(self, n):
        n.id = self.m.get(n.id, n.id)
        return n


def blocks(fn):
    for n in ast.walk(fn):
        if isinstance(n, (ast.Lambda, ast.ListComp, ast.GeneratorExp)):
            continue
        for f in ("body", "orelse", "finalbody"):
            b = getattr(n, f, None)
            if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                yield b


def pure_subs(expr, comp=False):
    """sub-expressions evaluated unconditionally, not inside a lambda or comprehension."""
    out = []

    def go(e, top):
        if isinstance(e, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.DictComp, ast.SetComp, ast.IfExp, ast.BoolOp, ast.Starred)):
            return
        if not top and isinstance(e, (ast.BinOp, ast.Call)):
            out.append(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                go(c, False)
            elif isinstance(c, ast.keyword) and c.arg:
                go(c.value, False)

    go(expr, True)
    return out


def names(e):
    return [n.id for n in ast.walk(e) if isinstance(n, ast.Name)]


def refactor(src, rng, funcs):
    tree = ast.parse(src)
    fns = [f for f in tree.body if isinstance(f, ast.FunctionDef) and (not funcs or f.name in funcs)]
    for c in tree.body:
        if isinstance(c, ast.ClassDef):
            fns += [f for f in c.body if isinstance(f, ast.FunctionDef) and (not funcs or f.name in funcs)]
    fns = [f for f in fns if len(f.body) > 1 or not isinstance(f.body[0], ast.Expr)]
    if not fns:
        return None
    fn = rng.choice(fns)
    params, loc = locals_of(fn)
    nested = any(isinstance(n, (ast.FunctionDef, ast.Global, ast.Nonlocal)) for n in ast.walk(fn) if n is not fn)
    kind = rng.choice(["rename", "rename-all", "hoist", "hoist", "helper", "helper", "commute", "invert", "comp-to-loop", "ternary", "inline", "enumerate", "aug"])
    what = ""
    if kind in ("rename", "rename-all"):
        if not loc or nested:
            return None
        m = {x: x + rng.choice(["_", "_new", "2"]) for x in (loc if kind == "rename-all" else [rng.choice(sorted(loc))])}
        fn.body = [Rename(m).visit(s) for s in fn.body]
        what = str(m)[:100]
    elif kind in ("hoist", "helper"):
        c = []
        for b in blocks(fn):
            for k, s in enumerate(b):
                if isinstance(s, (ast.Assign, ast.AugAssign, ast.Expr, ast.Return)) and s.value is not None and not (isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                    for e in pure_subs(s.value) if kind == "hoist" else [x for x in pure_subs(s.value) + [s.value] if isinstance(x, (ast.BinOp, ast.Call))]:
                        c.append((b, k, s, e))
        if not c:
            return None
        b, k, s, e = rng.choice(c)
        what = ast.unparse(e)[:100]
        new = None
        if kind == "hoist":
            t = "tmp_value"
            b.insert(k, ast.Assign(targets=[ast.Name(id=t, ctx=ast.Store())], value=copy.deepcopy(e)))
            new = ast.Name(id=t, ctx=ast.Load())
        else:
            fv = sorted(set(names(e)) & (params | loc))
            inner = {n.id for n in ast.walk(e) if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store)}
            fv = [v for v in fv if v not in inner]
            if nested or "super" in names(e):
                return None
            h = ast.FunctionDef(name="_helper_value", args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=v) for v in fv], kwonlyargs=[], kw_defaults=[], defaults=[]), body=[ast.Return(value=copy.deepcopy(e))], decorator_list=[])
            k = next(i for i, x in enumerate(tree.body) if x is fn or (isinstance(x, ast.ClassDef) and fn in x.body))
            tree.body.insert(k, h)
            new = ast.Call(func=ast.Name(id="_helper_value", ctx=ast.Load()), args=[ast.Name(id=v, ctx=ast.Load()) for v in fv], keywords=[])

        class R(ast.NodeTransformer):
            def generic_visit(self, n):
                return new if n is e else super().generic_visit(n)

            def visit(self, n):
                return new if n is e else super().visit(n)

        s.value = R().visit(s.value)
    elif kind == "commute":
        c = [n for n in ast.walk(fn) if isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Mult)) and not any(isinstance(x, (ast.List, ast.Tuple, ast.ListComp)) or (isinstance(x, ast.Constant) and isinstance(x.value, str)) for x in (n.left, n.right))]
        if not c:
            return None
        n = rng.choice(c)
        what = ast.unparse(n)[:100]
        n.left, n.right = n.right, n.left
    elif kind == "invert":
        c = [n for n in ast.walk(fn) if isinstance(n, ast.If) and n.orelse]
        if not c:
            return None
        n = rng.choice(c)
        what = ast.unparse(n.test)[:100]
        n.test, n.body, n.orelse = ast.UnaryOp(op=ast.Not(), operand=n.test), n.orelse, n.body
    elif kind == "comp-to-loop":
        c = []
        for b in blocks(fn):
            for k, s in enumerate(b):
                if isinstance(s, ast.Assign) and isinstance(s.value, ast.ListComp) and len(s.value.generators) == 1 and len(s.targets) == 1:
                    c.append((b, k, s, s.value, None))
                elif isinstance(s, ast.Assign) and isinstance(s.value, ast.Call) and isinstance(s.value.func, ast.Name) and s.value.func.id == "sum" and len(s.value.args) == 1 and isinstance(s.value.args[0], ast.GeneratorExp) and len(s.value.args[0].generators) == 1:
                    c.append((b, k, s, s.value.args[0], "sum"))
        if not c:
            return None
        b, k, s, e, how = rng.choice(c)
        what = ast.unparse(s)[:100]
        g = e.generators[0]
        m = {n.id: "it_" + n.id for n in ast.walk(g.target) if isinstance(n, ast.Name)}
        el, tg, ifs = Rename(m).visit(copy.deepcopy(e.elt)), Rename(m).visit(copy.deepcopy(g.target)), [Rename(m).visit(copy.deepcopy(i)) for i in g.ifs]
        nm = ast.Name(id="acc_value", ctx=ast.Load())
        if how:
            st = ast.AugAssign(target=ast.Name(id="acc_value", ctx=ast.Store()), op=ast.Add(), value=el)
            st = ast.Assign(targets=[ast.Name(id="acc_value", ctx=ast.Store())], value=ast.BinOp(left=nm, op=ast.Add(), right=el))
        else:
            st = ast.Expr(value=ast.Call(func=ast.Attribute(value=nm, attr="append", ctx=ast.Load()), args=[el], keywords=[]))
        body = [st]
        for i in ifs:
            body = [ast.If(test=i, body=body, orelse=[])]
        s.value = nm
        b[k:k] = [ast.Assign(targets=[ast.Name(id="acc_value", ctx=ast.Store())], value=ast.Constant(value=0) if how else ast.List(elts=[], ctx=ast.Load())), ast.For(target=tg, iter=g.iter, body=body, orelse=[])]
    elif kind == "ternary":
        c = [(b, k, s) for b in blocks(fn) for k, s in enumerate(b) if isinstance(s, (ast.Assign, ast.Return)) and isinstance(s.value, ast.IfExp)]
        if not c:
            return None
        b, k, s = rng.choice(c)
        what = ast.unparse(s)[:100]
        x, y = copy.deepcopy(s), copy.deepcopy(s)
        x.value, y.value = s.value.body, s.value.orelse
        b[k] = ast.If(test=s.value.test, body=[x], orelse=[y])
    elif kind == "inline":
        c = []
        for b in blocks(fn):
            for k, s in enumerate(b[:-1]):
                if isinstance(s, ast.Assign) and len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                    v = s.targets[0].id
                    uses = [n for n in ast.walk(fn) if isinstance(n, ast.Name) and n.id == v]
                    nx = b[k + 1]
                    if len(uses) == 2 and isinstance(nx, (ast.Assign, ast.Expr, ast.Return)) and nx.value is not None and [e for e in ast.walk(nx.value) if e in uses] and not any(isinstance(q, (ast.Lambda, ast.ListComp, ast.GeneratorExp, ast.For)) for q in ast.walk(nx)):
                        c.append((b, k, s, v))
        if not c:
            return None
        b, k, s, v = rng.choice(c)
        what = ast.unparse(s)[:100]

        class I(ast.NodeTransformer):
            def visit_Name(self, n):
                return s.value if n.id == v and isinstance(n.ctx, ast.Load) else n

        b[k + 1] = I().visit(b[k + 1])
        del b[k]
    elif kind == "enumerate":
        c = [n for n in ast.walk(fn) if isinstance(n, ast.For) and isinstance(n.iter, ast.Call) and isinstance(n.iter.func, ast.Name) and n.iter.func.id == "range"]
        if not c:
            return None
        n = rng.choice(c)
        what = ast.unparse(n.iter)[:100]
        if rng.random() < 0.5:  # list(range()) / bound to a name
            for b in blocks(fn):
                if n in b:
                    k = b.index(n)
                    b.insert(k, ast.Assign(targets=[ast.Name(id="index_values", ctx=ast.Store())], value=n.iter))
                    n.iter = ast.Name(id="index_values", ctx=ast.Load())
                    break
        else:
            if len(n.iter.args) == 1:
                n.iter.args = [ast.Constant(value=0)] + n.iter.args
    elif kind == "aug":
        # scalar accumulations only: names initialised from a number
        num = {t.id for s in ast.walk(fn) if isinstance(s, ast.Assign) and isinstance(s.value, ast.Constant) and isinstance(s.value.value, (int, float)) for t in s.targets if isinstance(t, ast.Name)}
        c = [(b, k, s) for b in blocks(fn) for k, s in enumerate(b) if isinstance(s, ast.AugAssign) and isinstance(s.target, ast.Name) and s.target.id in num]
        if not c:
            return None
        b, k, s = rng.choice(c)
        what = ast.unparse(s)[:100]
        b[k] = ast.Assign(targets=[ast.Name(id=s.target.id, ctx=ast.Store())], value=ast.BinOp(left=ast.Name(id=s.target.id, ctx=ast.Load()), op=s.op, right=s.value))
    res = ast.unparse(ast.fix_missing_locations(tree))
    if res == ast.unparse(ast.parse(src)):
        return None
    return dict(function=fn.name, kind=kind, what=what, src=res + "\n")


def main():
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    rng = random.Random(seed)
    Q = Queue()
    W = int(os.environ.get("WORKERS", "3"))
    for k in range(W):
        d = "/tmp/mut/r%d" % k
        shutil.rmtree(d, ignore_errors=True)
        subprocess.run(["cp", "-a", "/repo", d], check=True)
        Q.put(d)
    jobs = []
    for a in sys.argv[4:]:
        f, props = a.split("=")
        f, _, fs = f.partition(":")
        src = open("/repo/" + f).read()
        seen, tries = set(), 0
        while len([j for j in jobs if j["arg"] == a]) < n and tries < 60 * n:
            tries += 1
            m = refactor(src, rng, set(fs.split(",")) if fs else None)
            if m and m["src"] not in seen:
                seen.add(m["src"])
                jobs.append(dict(m, file=f, props=props.split(","), arg=a))
    rng.shuffle(jobs)

    def work(j):
        d = Q.get()
        try:
            return work_(j, d)
        except Exception as e:
            return print("error", repr(e)[:200], flush=True)
        finally:
            subprocess.run(["git", "-C", d, "checkout", "-q", "--", "."])
            Q.put(d)

    def work_(j, d):
        open(os.path.join(d, j["file"]), "w").write(j["src"])
        env = dict(os.environ, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1", MPLBACKEND="Agg", PYTHONDONTWRITEBYTECODE="1", PYTHONHASHSEED="0")
        env.pop("PYTHONPATH", None)
        res = {}
        for p in j["props"]:
            e = dict(env, VERIF_REPO=d, VERIF_OUT=d + ".out", VERIF_EVD=d + ".evd", VERIF_SEED="1", VERIF_TIER="quick")
            try:
                q = subprocess.run(["bash", os.environ.get("VERIF", "/verif") + "/check.sh", p, "-v"], env=e, capture_output=True, text=True, timeout=900)
                o = q.stdout
                res[p] = "ok" if q.returncode == 0 and ", 0 units outside" in o else "reach: " + next((l for l in o.splitlines() if l.startswith("unsupported")), "?")[:160] if q.returncode == 0 else "ALARM " + " | ".join(l[:200] for l in o.splitlines() if l.startswith(("FAILED", "failing", "VIOL")))[:600] if "VIOLATION" in o else "RC%d %s" % (q.returncode, (o + q.stderr)[-300:])
            except subprocess.TimeoutExpired:
                res[p] = "TIMEOUT"
        if any(v.startswith("ALARM") for v in res.values()):
            os.makedirs("/tmp/mut/alarms", exist_ok=True)
            j["saved"] = "/tmp/mut/alarms/%s-%s-%d.diff" % (j["function"], j["kind"], abs(hash(j["src"])) % 10000)
            open(j["saved"], "w").write(subprocess.run(["git", "-C", d, "diff", "-w"], capture_output=True, text=True).stdout)
            shutil.copy(os.path.join(d, j["file"]), j["saved"] + ".py")
        j = {k: v for k, v in j.items() if k != "src"}
        j["result"] = res
        with open(out, "a") as h:
            h.write(json.dumps(j) + "\n")
        print(json.dumps(res), j["file"], j["function"], j["kind"], repr(j["what"]), j.get("saved", ""), flush=True)

    with ThreadPoolExecutor(W) as ex:
        list(ex.map(work, jobs))
    for k in range(W):
        shutil.rmtree("/tmp/mut/r%d" % k, ignore_errors=True)


main()
