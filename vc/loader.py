"""Loads the repository's modules from /repo's working tree for symbolic execution.

The AST rewriting is mechanical and keeps every statement of the function; it only
  * routes `for`/`while` statements inside functions through the engine
    (concrete iterables run natively; symbolic ones are cut by an invariant),
  * routes list comprehensions / generator expressions through the engine,
  * gives the code the builtins of vc.shims and the numpy/scipy/sklearn contracts
    of vc.npshim through its import statements.
Dropped: decorators from external packages, docstrings, type annotations.
"""
import ast
import warnings
import builtins
import functools
import inspect
import os
import types

from . import terms as T
from .arrays import CTX, SNum
from .npshim import build_modules, Mod, mkstub
from .shims import OVERRIDES
from .terms import Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")

NATIVE = {"functools", "itertools", "collections", "operator", "abc", "types", "typing", "__future__", "dataclasses", "contextlib", "math", "numbers", "copy", "time", "inspect", "string", "re", "enum"}


class _Names(ast.NodeVisitor):
    def __init__(self):
        self.load, self.store, self.mut = set(), set(), set()

    def visit_Name(self, n):
        (self.store if isinstance(n.ctx, (ast.Store, ast.Del)) else self.load).add(n.id)

    def _comp(self, n):
        # comprehension targets are local to it
        inner = _Names()
        for g in n.generators:
            inner.visit(g.iter)
            for i in g.ifs:
                inner.visit(i)
        tg = _Names()
        for g in n.generators:
            tg.visit(g.target)
        if isinstance(n, ast.DictComp):
            inner.visit(n.key)
            inner.visit(n.value)
        else:
            inner.visit(n.elt)
        self.load |= inner.load - tg.store
        self.mut |= inner.mut

    visit_ListComp = visit_SetComp = visit_GeneratorExp = visit_DictComp = _comp

    def visit_Lambda(self, n):
        inner = _Names()
        inner.visit(n.body)
        args = {a.arg for a in n.args.args}
        self.load |= inner.load - args

    def visit_FunctionDef(self, n):
        self.store.add(n.name)

    def visit_Subscript(self, n):
        if isinstance(n.ctx, ast.Store):
            b = n.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                self.mut.add(b.id)
        self.generic_visit(n)

    def visit_Call(self, n):
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "pop", "update", "clear", "remove", "sort"):
            b = n.func.value
            while isinstance(b, (ast.Subscript, ast.Attribute)):
                b = b.value
            if isinstance(b, ast.Name):
                self.mut.add(b.id)
        self.generic_visit(n)


def _local_names(fn):
    """Names local to a function definition."""
    names = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    if fn.args.vararg:
        names.add(fn.args.vararg.arg)
    if fn.args.kwarg:
        names.add(fn.args.kwarg.arg)
    v = _Names()
    glob = set()
    for s in fn.body:
        v.visit(s)
    for s in ast.walk(fn):
        if isinstance(s, (ast.Global, ast.Nonlocal)):
            glob |= set(s.names)
    return (names | v.store) - glob


class Rewriter(ast.NodeTransformer):
    def __init__(self, modname):
        self.mod = modname
        self.stack = []
        self.sites = {}
        self.n = 0

    def visit_ClassDef(self, n):
        self.stack.append(("class", n.name, None))
        n = self.generic_visit(n)
        self.stack.pop()
        return n

    def visit_FunctionDef(self, n):
        self.stack.append(("fn", n.name, _local_names(n)))
        n = self.generic_visit(n)
        self.stack.pop()
        n.returns = None
        return n

    def visit_AnnAssign(self, n):
        n = self.generic_visit(n)
        if self.stack and self.stack[-1][0] == "fn" and n.value is not None:
            return ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n)
        return n

    def _infn(self):
        return self.stack and self.stack[-1][0] == "fn"

    def _site(self, node, body):
        self.n += 1
        sid = "%s:%s:%d" % (self.mod, ".".join(s[1] for s in self.stack), self.n)
        v = _Names()
        for s in body:
            v.visit(s)
        tg = _Names()
        if isinstance(node, ast.For):
            tg.visit(node.target)
            tv = _Names()
            tv.visit(node.iter)
            v.load |= tv.load
        else:
            v.visit(node.test)
        loc = self.stack[-1][2]
        stores = (v.store | v.mut & set()) & loc - tg.store
        names = sorted((v.store | v.load | v.mut) & loc - tg.store)
        self.sites[sid] = {
            "id": sid,
            "func": ".".join(s[1] for s in self.stack),
            "mod": self.mod,
            "stores": stores,
            "mutated": v.mut & loc,
            "names": names,
            "line": node.lineno,
            "target": sorted(tg.store),
        }
        return sid, names, sorted(set(names) | stores)

    def _getset(self, sid, names, k):
        src = ["def __vc_get_%d():" % k, "    __d = {}"]
        for x in names:
            src += ["    try: __d[%r] = %s" % (x, x), "    except NameError: pass"]
        src += ["    return __d", "def __vc_set_%d(__d):" % k]
        if names:
            src += ["    nonlocal " + ", ".join(names)]
            for x in names:
                src += ["    if %r in __d: %s = __d[%r]" % (x, x, x)]
        else:
            src += ["    pass"]
        return ast.parse("\n".join(src)).body

    def visit_For(self, n):
        if not self._infn():
            return self.generic_visit(n)
        sid, names, allnames = self._site(n, n.body)
        k = self.n
        n = self.generic_visit(n)
        call = ast.parse("__vc__.loop(%r, None, __vc_get_%d, __vc_set_%d)" % (sid, k, k), mode="eval").body
        call.args[1] = n.iter
        n.iter = call
        out = self._getset(sid, allnames, k) + [n]
        for s in out[:-1]:
            for x in ast.walk(s):
                if hasattr(x, "lineno"):
                    x.lineno = x.end_lineno = n.lineno
        return out

    def visit_While(self, n):
        if not self._infn():
            return self.generic_visit(n)
        sid, names, allnames = self._site(n, n.body)
        k = self.n
        n = self.generic_visit(n)
        call = ast.parse("__vc__.while_(%r, (lambda: 0), __vc_get_%d, __vc_set_%d)" % (sid, k, k), mode="eval").body
        call.args[1].body = n.test
        f = ast.For(target=ast.Name("__vc_w%d" % k, ast.Store()), iter=call, body=n.body, orelse=n.orelse, type_comment=None)
        ast.copy_location(f, n)
        out = self._getset(sid, allnames, k) + [f]
        for s in out[:-1]:
            for x in ast.walk(s):
                if hasattr(x, "lineno"):
                    x.lineno = x.end_lineno = n.lineno
        return out

    def _compr(self, n):
        n = self.generic_visit(n)
        if not self._infn():
            return n
        g0 = n.generators[0]
        inner = ast.ListComp(
            elt=n.elt,
            generators=[ast.comprehension(target=g0.target, iter=ast.List([ast.Name("__vc_e", ast.Load())], ast.Load()), ifs=g0.ifs, is_async=0)] + n.generators[1:],
        )
        lam = ast.Lambda(
            args=ast.arguments(posonlyargs=[], args=[ast.arg("__vc_e")], kwonlyargs=[], kw_defaults=[], defaults=[]),
            body=inner,
        )
        call = ast.Call(func=ast.Attribute(ast.Name("__vc__", ast.Load()), "comp", ast.Load()), args=[lam, g0.iter, ast.Constant(bool(any(g.ifs for g in n.generators)))], keywords=[])
        return ast.copy_location(call, n)

    visit_ListComp = visit_GeneratorExp = _compr


class Gate:
    """The object the rewritten code calls."""

    def __init__(self, sites):
        self.sites = sites

    def loop(self, sid, it, get, set_):
        c = CTX[0]
        if c is None:
            return iter(it)
        return c.loop(self.sites[sid], it, get, set_)

    def while_(self, sid, cond, get, set_):
        return CTX[0].while_(self.sites[sid], cond, get, set_)

    def comp(self, fn, it, filtered=False):
        c = CTX[0]
        if c is None:
            out = []
            for e in it:
                out.extend(fn(e))
            return out
        return c.comp(fn, it, filtered)


class Wrapper:
    """A repository function that has a contract: callers see the contract."""

    def __init__(self, qual, real, contract):
        self.qual, self.real, self.contract = qual, real, contract
        functools.update_wrapper(self, real)
        self.calls = 0

    def __call__(self, *a, **k):
        c = CTX[0]
        if c is None or self.qual in c.extra.get("inline", ()):
            return self.real(*a, **k)
        ap = c.extra.get("stubs", {}).get(self.qual) or self.contract
        sig = inspect.signature(self.real)
        b = sig.bind(*a, **k)  # a wrong call raises TypeError as in Python
        b.apply_defaults()
        c.extra.setdefault("calls", []).append((self.qual, dict(b.arguments)))
        return ap(c, self.real, **b.arguments)

    def __get__(self, obj, typ=None):
        return self if obj is None else types.MethodType(self, obj)


class Loader:
    def __init__(self, repo=None, contracts=None):
        self.repo = repo or REPO
        self.mods = {}
        self.ext = build_modules()
        self.contracts = contracts or {}
        self.sites = {}
        self.wrappers = {}
        self.loaded_functions = {}

    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isdir(p):
            return os.path.join(p, "__init__.py"), True
        return p + ".py", False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        path, pkg = self.path(name)
        if not os.path.exists(path):
            raise ImportError("No module named %r" % name)
        if "." in name:
            self.load(name.rsplit(".", 1)[0])
        m = types.ModuleType(name)
        m.__file__ = path
        m.__package__ = name if pkg else name.rpartition(".")[0]
        if pkg:
            m.__path__ = [os.path.dirname(path)]
        self.mods[name] = m
        src = open(path).read()
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            tree = ast.parse(src, path)
        rw = Rewriter(name)
        tree = rw.visit(tree)
        ast.fix_missing_locations(tree)
        self.sites.update(rw.sites)
        b = dict(vars(builtins))
        b.update(OVERRIDES)
        b["__import__"] = self.imp
        m.__dict__["__builtins__"] = b
        m.__dict__["__vc__"] = Gate(self.sites)
        code = compile(tree, path.replace(self.repo, "<repo>"), "exec", dont_inherit=True)
        exec(code, m.__dict__)
        for fname, obj in list(m.__dict__.items()):
            if isinstance(obj, types.FunctionType) and obj.__module__ == name:
                q = name + ":" + fname
                self.loaded_functions[q] = obj
                if q in self.contracts and self.contracts[q] is not None:
                    w = Wrapper(q, obj, self.contracts[q])
                    self.wrappers[q] = w
                    m.__dict__[fname] = w
        if "." in name:
            parent, _, last = name.rpartition(".")
            setattr(self.mods[parent], last, m)
        return m

    def imp(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pk = (globals or {}).get("__package__", "")
            parts = pk.split(".")
            base = ".".join(parts[: len(parts) - (level - 1)])
            name = base + ("." + name if name else "")
        if name == "regain" or name.startswith("regain."):
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try:
                            self.load(name + "." + f)
                        except ImportError:
                            pass
                return m
            return self.mods["regain"]
        root = name.split(".")[0]
        if name in NATIVE or root in NATIVE:
            return builtins.__import__(name, None, None, fromlist, 0)
        if name in self.ext:
            if fromlist:
                return self.ext[name]
            # import a.b as c handled through fromlist=None: returns root, attributes walked
            r = self.ext.setdefault(root, Mod(root))
            cur = r
            parts = name.split(".")
            for i in range(1, len(parts)):
                sub = ".".join(parts[: i + 1])
                if sub in self.ext:
                    cur.__dict__[parts[i]] = self.ext[sub]
                else:
                    cur.__dict__.setdefault(parts[i], Mod(sub))
                cur = cur.__dict__[parts[i]]
            return r
        if fromlist:
            return self.ext.setdefault(name, Mod(name))
        r = self.ext.setdefault(root, Mod(root))
        cur = r
        parts = name.split(".")
        for i in range(1, len(parts)):
            if not isinstance(cur.__dict__.get(parts[i]), Mod):
                cur.__dict__[parts[i]] = self.ext.setdefault(".".join(parts[: i + 1]), Mod(".".join(parts[: i + 1])))
            cur = cur.__dict__[parts[i]]
        return r

    def func(self, modname, fname):
        """The real (unwrapped) function object."""
        m = self.load(modname)
        o = m
        for part in fname.split("."):
            o = getattr(o, part)
        if isinstance(o, Wrapper):
            return o.real
        return o
