"""
qmv.loader -- the Python source files of /repo, read and rewritten mechanically on every run.

Rewriting (the only changes made to the text):
  * annotations dropped, bare `except:` -> `except Exception:`;
  * for/while loops -> calls of the loop runtime with the body as a closure
    (concrete iterables are simply iterated);
  * list/dict displays -> list/dict subclasses that can also hold summarised parts;
    comprehensions -> runtime call with the comprehension as a closure;
  * print(...) and logging.*(...) statements are dropped, arguments included.
Imports of third-party libraries resolve to models (qmv.models) or to stubs which raise
Unsupported when used.
"""
from __future__ import annotations

import ast
import builtins
import importlib
import itertools
import os
import sys
import types

from . import core, loops
from .core import C, SBool, SNum, Unsupported

REPO = os.environ.get("QMV_REPO", "/repo")


# ------------------------------------------------------------------ AST rewriting
class Names(ast.NodeVisitor):
    """Names bound in a statement list (not descending into nested scopes)."""

    def __init__(self):
        self.bound = set()
        self.globals = set()

    def visit_Name(self, n):
        if isinstance(n.ctx, (ast.Store, ast.Del)):
            self.bound.add(n.id)

    def visit_FunctionDef(self, n):
        self.bound.add(n.name)
        for d in n.decorator_list:
            self.visit(d)

    def visit_ClassDef(self, n):
        self.bound.add(n.name)

    def visit_Lambda(self, n):
        pass

    def _comp(self, n):
        pass

    visit_ListComp = visit_SetComp = visit_DictComp = visit_GeneratorExp = _comp

    def visit_Import(self, n):
        for a in n.names:
            self.bound.add((a.asname or a.name).split(".")[0])

    visit_ImportFrom = visit_Import

    def visit_ExceptHandler(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)

    def visit_Global(self, n):
        self.globals |= set(n.names)

    def visit_MatchAs(self, n):
        if n.name:
            self.bound.add(n.name)
        self.generic_visit(n)


def bound_names(stmts):
    v = Names()
    for s in stmts:
        v.visit(s)
    return v.bound - v.globals


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.cnt = 0
        self.fn = []            # stack of {"locals": set, "ret": bool}
        self.inloop = []        # stack of "loop"/"func"

    def uid(self):
        self.cnt += 1
        return self.cnt

    # ---- annotations
    def visit_AnnAssign(self, n):
        if n.value is None:
            return ast.copy_location(ast.Pass(), n)
        return self.visit(ast.copy_location(ast.Assign(targets=[n.target], value=n.value), n))

    # ---- messages: neither the call nor its arguments are part of the verified behaviour
    def visit_Expr(self, n):
        f = n.value.func if isinstance(n.value, ast.Call) else None
        if isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id == "logging" or \
                isinstance(f, ast.Name) and f.id == "print":
            return ast.copy_location(ast.Pass(), n)
        return self.generic_visit(n)

    def visit_arg(self, n):
        n.annotation = None
        return n

    def visit_FunctionDef(self, n):
        n.returns = None
        n.decorator_list = [self.visit(d) for d in n.decorator_list]
        n.args = self.visit(n.args)
        loc = bound_names(n.body)
        args = n.args
        params = {a.arg for a in args.posonlyargs + args.args + args.kwonlyargs}
        if args.vararg:
            params.add(args.vararg.arg)
        if args.kwarg:
            params.add(args.kwarg.arg)
        nl = set()
        for s in ast.walk(n):
            if isinstance(s, (ast.Nonlocal,)):
                nl |= set(s.names)
        self.fn.append({"locals": (loc | params) - nl, "ret": False})
        self.inloop.append("func")
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.inloop.pop()
        f = self.fn.pop()
        n.body = body
        pre = []
        if f.get("loops"):
            # names only bound inside moved bodies must still be locals of this function
            for nm in sorted(f["locals"] - params):
                pre.append(ast.parse(f"if False:\n    {nm} = None").body[0])
        if f["ret"]:
            h = ast.ExceptHandler(type=_n("_qmz_Return"), name="_qmz_r", body=[
                ast.Return(value=ast.Attribute(value=_n("_qmz_r"), attr="v", ctx=ast.Load()))])
            n.body = [ast.Try(body=body, handlers=[h], orelse=[], finalbody=[])]
        n.body = pre + n.body
        return n

    def visit_Lambda(self, n):
        self.generic_visit(n)
        return n

    def visit_ClassDef(self, n):
        self.fn.append({"locals": set(), "ret": False})
        self.inloop.append("func")
        self.generic_visit(n)
        self.inloop.pop()
        self.fn.pop()
        return n

    def visit_ExceptHandler(self, n):
        if n.type is None:
            n.type = _n("Exception")
        self.generic_visit(n)
        return n

    # ---- loops
    def visit_Break(self, n):
        if self.inloop and self.inloop[-1] == "loop":
            return ast.parse("raise _qmz_Break()").body[0]
        return n

    def visit_Continue(self, n):
        if self.inloop and self.inloop[-1] == "loop":
            return ast.Return(value=None)
        return n

    def visit_Return(self, n):
        self.generic_visit(n)
        if self.inloop and self.inloop[-1] == "loop":
            self.fn[-1]["ret"] = True
            v = n.value or ast.Constant(None)
            return ast.Raise(exc=ast.Call(func=_n("_qmz_Return"), args=[v], keywords=[]), cause=None)
        return n

    def _loop(self, n, kind):
        i = self.uid()
        if not self.fn or not self.fn[-1]["locals"] and not self._in_func():
            # module / class level loop: left native
            self.inloop.append("func")
            self.generic_visit(n)
            self.inloop.pop()
            return n
        self.fn[-1]["loops"] = True
        bnd = bound_names(n.body + ([ast.Assign(targets=[n.target], value=ast.Constant(0))] if kind == "for" else []))
        self.inloop.append("loop")
        body = []
        for s in n.body:
            r = self.visit(s)
            body += r if isinstance(r, list) else [r]
        self.inloop.pop()
        names = sorted(bnd)
        # every local of the enclosing function is visible to the runtime
        vis = sorted(self.fn[-1]["locals"])
        nl = [ast.Nonlocal(names=names)] if names else []
        out = []
        if kind == "for":
            it = self.visit(n.iter)
            bodyf = _fd(f"_qmz_b{i}", ["_qmz_e"], nl + [ast.Assign(targets=[n.target], value=_n("_qmz_e"))] + body)
            out.append(bodyf)
        else:
            test = self.visit(n.test)
            out.append(_fd(f"_qmz_b{i}", [], nl + body))
            out.append(_fd(f"_qmz_c{i}", [], [ast.Return(value=test)]))
        g = [f"def _qmz_g{i}():", "    __d = {}"]
        for v in vis:
            g += ["    try:", f"        __d[{v!r}] = {v}", "    except NameError:", "        pass"]
        g += ["    return __d"]
        out += ast.parse("\n".join(g)).body
        s = [f"def _qmz_s{i}(__d):"]
        if vis:
            s.append("    nonlocal " + ", ".join(vis))
            for v in vis:
                s.append(f"    if {v!r} in __d: {v} = __d[{v!r}]")
        else:
            s.append("    pass")
        out += ast.parse("\n".join(s)).body
        for v in names:
            self.fn[-1]["locals"].add(v)
        call = ast.parse(f"_qmz_for(0, _qmz_b{i}, _qmz_g{i}, _qmz_s{i})" if kind == "for" else
                         f"_qmz_while(_qmz_c{i}, _qmz_b{i}, _qmz_g{i}, _qmz_s{i})", mode="eval").body
        if kind == "for":
            call.args[0] = it
        orelse = []
        for s_ in n.orelse:
            r = self.visit(s_)
            orelse += r if isinstance(r, list) else [r]
        if orelse:
            out.append(ast.If(test=ast.UnaryOp(op=ast.Not(), operand=call), body=orelse, orelse=[]))
        else:
            out.append(ast.Expr(value=call))
        for o in out:
            ast.copy_location(o, n)
        return out

    def _in_func(self):
        return bool(self.fn) and "func" in self.inloop

    def visit_For(self, n):
        return self._loop(n, "for")

    def visit_While(self, n):
        return self._loop(n, "while")

    def _stmts(self, lst):
        out = []
        for s in lst:
            r = self.visit(s)
            out += r if isinstance(r, list) else [r]
        return out

    # ---- displays and comprehensions
    def visit_List(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load):
            return ast.Call(func=_n("_qmz_list"), args=[n], keywords=[])
        return n

    def visit_Dict(self, n):
        self.generic_visit(n)
        return ast.Call(func=_n("_qmz_dict"), args=[n], keywords=[])

    def _compr(self, n, kind):
        first = n.generators[0]
        it = self.visit(first.iter)
        first.iter = _n("_qmz_it")
        first.target = self.visit(first.target)
        first.ifs = [self.visit(x) for x in first.ifs]
        for g in n.generators[1:]:
            self.generic_visit(g)
        if kind == "dict":
            n.key, n.value = self.visit(n.key), self.visit(n.value)
        else:
            n.elt = self.visit(n.elt)
        lam = ast.Lambda(args=_args(["_qmz_it"]), body=n)
        return ast.copy_location(
            ast.Call(func=_n("_qmz_comp"), args=[lam, it, ast.Constant(kind)], keywords=[]), n)

    def visit_ListComp(self, n):
        return self._compr(n, "list")

    def visit_GeneratorExp(self, n):
        r = self._compr(n, "gen")
        lam = r.args[0]
        lam.body = ast.copy_location(ast.ListComp(elt=lam.body.elt, generators=lam.body.generators), n)
        return r

    def visit_SetComp(self, n):
        r = self._compr(n, "set")
        lam = r.args[0]
        lam.body = ast.copy_location(ast.ListComp(elt=lam.body.elt, generators=lam.body.generators), n)
        return r

    def visit_DictComp(self, n):
        return self._compr(n, "dict")

    # joining texts of a list of unknown length
    def visit_Call(self, n):
        self.generic_visit(n)
        f = n.func
        if isinstance(f, ast.Attribute) and f.attr == "join" and len(n.args) == 1 and not n.keywords and not isinstance(n.args[0], ast.Starred):
            return ast.copy_location(ast.Call(func=_n("_qmz_join"), args=[f.value, n.args[0]], keywords=[]), n)
        return n

    # chained comparisons and `in` on symbolic containers
    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.In, ast.NotIn)):
            c = ast.Call(func=_n("_qmz_in"), args=[n.left, n.comparators[0]], keywords=[])
            return ast.copy_location(c if isinstance(n.ops[0], ast.In) else ast.UnaryOp(op=ast.Not(), operand=c), n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and \
                isinstance(n.comparators[0], ast.Constant) and isinstance(n.comparators[0].value, bool):
            c = ast.Call(func=_n("_qmz_isb"), args=[n.left, n.comparators[0]], keywords=[])
            return ast.copy_location(c if isinstance(n.ops[0], ast.Is) else ast.UnaryOp(op=ast.Not(), operand=c), n)
        return n


def _n(x):
    return ast.Name(id=x, ctx=ast.Load())


def _args(names):
    return ast.arguments(posonlyargs=[], args=[ast.arg(arg=a) for a in names], kwonlyargs=[],
                         kw_defaults=[], defaults=[])


def _fd(name, args, body):
    return ast.FunctionDef(name=name, args=_args(args), body=body or [ast.Pass()], decorator_list=[],
                           returns=None, type_comment=None, type_params=[])


# NodeTransformer.generic_visit flattens lists returned for statements, except in our manual loops
def rewrite(src, fname):
    t = ast.parse(src)
    t = Rewrite().visit(t)
    ast.fix_missing_locations(t)
    return t


# ------------------------------------------------------------------ stubs
class Stub:
    """Unmodelled library object: may be named and passed around, not used."""

    def __init__(self, name):
        object.__setattr__(self, "_n_", name)

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__") or n in ("sym_len", "sym_get") or n.startswith("_qm"):
            raise AttributeError(n)
        return Stub(self._n_ + "." + n)

    def __setattr__(self, n, v):
        pass

    def __call__(self, *a, **k):
        raise Unsupported(f"call of unmodelled {self._n_}")

    def __mro_entries__(self, bases):
        return (object,)

    def __instancecheck__(self, o):
        return False

    def __or__(self, o):
        return self

    __ror__ = __or__

    def __repr__(self):
        return f"<stub {self._n_}>"

    def _no(self, *a, **k):
        raise Unsupported(f"use of unmodelled {self._n_}")

    __getitem__ = __iter__ = __len__ = __bool__ = __add__ = __radd__ = __mul__ = __rmul__ = _no
    __sub__ = __rsub__ = __truediv__ = __rtruediv__ = __lt__ = __gt__ = __le__ = __ge__ = _no
    __enter__ = __exit__ = __contains__ = __float__ = __int__ = _no


class NoLog(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n in ("INFO", "DEBUG", "WARNING", "ERROR"):
            return 0
        return lambda *a, **k: None


class NoWarn(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "catch_warnings":
            return lambda *a, **k: _Null()
        return lambda *a, **k: None


class _Null:
    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


NATIVE = {"abc", "functools", "__future__", "typing", "collections", "importlib", "importlib.metadata", "time",
          "sys", "ctypes", "copy", "string", "struct", "re"}

_code_cache = {}


class World:
    """One loading of the repository's modules (per explored path)."""

    def __init__(self, models=None, overrides=None):
        self.mods = {}
        self.models = dict(models or {})
        self.overrides = overrides or {}       # {(module, name): object}
        self.builtins = make_builtins(self)
        self.notes = []

    # import machinery used by the rewritten code
    def import_(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals.get("__package__", "")
            base = pkg.split(".")
            base = base[:len(base) - (level - 1)]
            name = ".".join(base + ([name] if name else []))
        m = self.module(name)
        if fromlist:
            for f in fromlist:
                if f != "*" and not hasattr(m, f) and name.startswith("quakemigrate"):
                    try:
                        setattr(m, f, self.module(name + "." + f))
                    except FileNotFoundError:
                        setattr(m, f, Stub(name + "." + f))
            return m
        if "." in name:
            top = self.module(name.split(".")[0])
            cur = top
            parts = name.split(".")
            for j in range(1, len(parts)):
                sub = self.module(".".join(parts[:j + 1]))
                if not isinstance(cur, Stub):
                    try:
                        setattr(cur, parts[j], sub)
                    except Exception:
                        pass
                cur = sub
            return top
        return m

    def module(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.models:
            self.mods[name] = self.models[name]
            return self.mods[name]
        if name == "logging":
            m = NoLog("logging")
        elif name == "warnings":
            m = NoWarn("warnings")
        elif name.split(".")[0] == "quakemigrate":
            return self.repo_module(name)
        elif name in NATIVE:
            m = importlib.import_module(name)
        else:
            from .models import find
            m = find(name) or Stub(name)
        self.mods[name] = m
        return m

    def repo_module(self, name):
        p = os.path.join(REPO, *name.split("."))
        ispkg = os.path.isdir(p)
        f = os.path.join(p, "__init__.py") if ispkg else p + ".py"
        if not os.path.exists(f):
            raise FileNotFoundError(f)
        m = types.ModuleType(name)
        m.__package__ = name if ispkg else name.rpartition(".")[0]
        m.__file__ = f
        self.mods[name] = m
        if "." in name:
            par = self.module(name.rpartition(".")[0]) if not ispkg or True else None
            setattr(par, name.rpartition(".")[2], m)
        if ispkg:
            # the package's own functions are executed; names it re-exports are resolved lazily
            self._package(name, m, f)
            g = m.__dict__
            g["__builtins__"], g["__name__"] = self.builtins, name
            for node, (code, names) in zip(rewrite(open(f, encoding="utf-8").read(), f).body, self._stmts(f)):
                if isinstance(node, ast.FunctionDef):
                    exec(code, g)
            return m
        g = m.__dict__
        g["__builtins__"] = self.builtins
        g["__name__"] = name
        for st in self._stmts(f):
            code, names = st
            try:
                exec(code, g)
            except Unsupported:
                for nm in names:
                    g[nm] = Stub(f"{name}.{nm}")
            except Exception as e:                      # noqa
                for nm in names:
                    g[nm] = Stub(f"{name}.{nm} ({type(e).__name__})")
            for nm in names:
                if (name, nm) in self.overrides:
                    g[nm] = self.overrides[(name, nm)]
        return m

    def _package(self, name, m, f):
        world = self
        tree = ast.parse(open(f, encoding="utf-8").read())
        lazy = {}
        for s in tree.body:
            if isinstance(s, ast.ImportFrom):
                for a in s.names:
                    mod = ("." * s.level) + (s.module or "")
                    lazy[a.asname or a.name] = (s.level, s.module or "", a.name)

        class Pkg(types.ModuleType):
            def __getattr__(self, n):
                if n in lazy:
                    lv, mod, nm = lazy[n]
                    mm = world.import_(mod, {"__package__": name}, None, (nm,), lv)
                    v = getattr(mm, nm)
                    if (name, n) in world.overrides:
                        v = world.overrides[(name, n)]
                    setattr(self, n, v)
                    return v
                if n.startswith("__"):
                    raise AttributeError(n)
                try:
                    return world.module(name + "." + n)
                except FileNotFoundError:
                    raise AttributeError(n)
        m.__class__ = Pkg

    @staticmethod
    def _stmts(f):
        src = open(f, encoding="utf-8").read()
        key = (f, src)
        if key not in _code_cache:
            out = []
            t = rewrite(src, f)
            for s in t.body:
                mod = ast.Module(body=[s], type_ignores=[])
                out.append((compile(mod, f, "exec"), sorted(bound_names([s]))))
            _code_cache[key] = out
        return _code_cache[key]

    def exec_text(self, src, fname, extra):
        g = dict(extra)
        g["__builtins__"] = self.builtins
        t = rewrite(src, fname)
        exec(compile(t, fname, "exec"), g)
        return g


# ------------------------------------------------------------------ runtime of the rewritten code
def qm_for(it, body, get, setv):
    omp = None
    if isinstance(it, Omp):
        omp, it = {"unprivate": it.bad}, it.it
        return loops.run_for(it, body, get, setv, omp)
    if not loops.is_symbolic(it):
        try:
            for e in it:
                body(e)
        except loops.Break:
            return True
        return False
    return loops.run_for(it, body, get, setv, omp)


class Omp:
    def __init__(self, bad, it):
        self.bad, self.it = bad, it


def qm_in(x, c):
    if hasattr(c, "_qm_contains"):
        return c._qm_contains(x)
    if isinstance(x, (SNum, SBool)) and isinstance(c, (list, tuple, set)):
        r = SBool(core.z3.BoolVal(False))
        for y in c:
            e = x == y
            r = r | (e if isinstance(e, SBool) else SBool(core.tobool(e)))
        return r
    return x in c


def qm_join(sep, x):
    if isinstance(sep, str) and isinstance(x, loops.QList) and x.symbolic():
        return loops.Joined(sep, x)
    return sep.join(x)


def qm_isb(x, b):
    if isinstance(x, SBool):
        return x if b else ~x
    return x is b


def make_builtins(world):
    from .models import builtins_m as bm
    b = {k: getattr(builtins, k) for k in dir(builtins)}
    b.update(bm.table())
    b["__import__"] = world.import_
    b["_qmz_Return"] = loops.Return
    b["_qmz_Break"] = loops.Break
    b["_qmz_for"] = qm_for
    b["_qmz_while"] = loops.run_while
    b["_qmz_list"] = loops.QList
    b["_qmz_dict"] = loops.QDict
    b["_qmz_comp"] = loops.comp
    b["_qmz_in"] = qm_in
    b["_qmz_join"] = qm_join
    b["_qmz_isb"] = qm_isb
    b["print"] = lambda *a, **k: None
    return b
