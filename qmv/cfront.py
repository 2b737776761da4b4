"""
qmv.cfront -- C functions of /repo, mechanically turned into Python text on every run.

clang's typed AST (JSON) of the real source file is translated expression by expression;
the result goes through the same loader/loop machinery as the Python code.  Every memory
access goes through Ptr (bounds obligation), every int32/int64 operation through i32/i64
(no-overflow obligation).  Dropped: omp num_threads/schedule, storage classes, const.
"""
from __future__ import annotations

import json
import re
import subprocess

import z3

from . import core
from .arr import Arr, iv
from .core import C, SBool, SNum, Unsupported, ex, ite, num, oblige, rl, valid

INT = {"int": 32, "int32_t": 32, "int64_t": 64, "long": 64, "unsigned int": -32, "size_t": -64,
       "unsigned long": -64, "uint32_t": -32, "uint64_t": -64, "long long": 64, "char": 8, "short": 16,
       "_Bool": 1, "bool": 1, "ptrdiff_t": 64, "ssize_t": 64, "uint8_t": -8, "int16_t": 16}


def load_ast(path, incdir):
    r = subprocess.run(["clang", "-fopenmp", "-I" + incdir, "-Xclang", "-ast-dump=json", "-fsyntax-only", path],
                       capture_output=True, text=True)
    if not r.stdout.strip():
        raise Unsupported("clang could not parse " + path + ": " + r.stderr[-500:])
    return json.loads(r.stdout)


def ctype(n):
    t = n.get("type", {})
    return (t.get("desugaredQualType") or t.get("qualType", "")).replace("const ", "").strip(), t.get("qualType", "")


def width(n):
    for t in ctype(n)[::-1]:
        t = t.replace("const ", "").strip()
        if t in INT:
            return INT[t]
    return None


def isfloat(n):
    return ctype(n)[0] in ("double", "float", "long double")


class Trans:
    def __init__(self, tu, text=""):
        self.text = text.encode('utf-8')
        self.funcs = {}
        for d in tu.get("inner", []):
            if d["kind"] == "FunctionDecl" and any(c.get("kind") == "CompoundStmt" for c in d.get("inner", [])):
                self.funcs[d["name"]] = d
        self.tmp = 0

    def function(self, name):
        d = self.funcs[name]
        self.params = [c for c in d["inner"] if c["kind"] == "ParmVarDecl"]
        self.ren = {}
        self.used = set()
        body = [c for c in d["inner"] if c["kind"] == "CompoundStmt"][0]
        pn = [self.decl(p) for p in self.params]
        lines = []
        self.stmt(body, lines, 1)
        return f"def {name}({', '.join(pn)}):\n" + "\n".join(lines or ["    pass"]) + "\n"

    def decl(self, d):
        nm = d["name"]
        while nm in self.used or nm in ("None", "True", "False", "def", "lambda", "from", "is", "in", "not", "pass"):
            nm += "_"
        self.used.add(nm)
        self.ren[d["id"]] = nm
        return nm

    def out(self, L, ind, s):
        L.append("    " * ind + s)

    # ------------------------------------------------------------- statements
    def stmt(self, n, L, ind):
        k = n["kind"]
        if k == "CompoundStmt":
            n0 = len(L)
            for c in n.get("inner", []):
                self.stmt(c, L, ind)
            if len(L) == n0:
                self.out(L, ind, "pass")
        elif k == "DeclStmt":
            for v in n["inner"]:
                if v["kind"] != "VarDecl":
                    raise Unsupported("C declaration " + v["kind"])
                nm = self.decl(v)
                init = [c for c in v.get("inner", []) if "kind" in c]
                self.out(L, ind, f"{nm} = " + (self.ex(init[0]) if init else f"__c_uninit('{nm}')"))
        elif k == "NullStmt":
            self.out(L, ind, "pass")
        elif k == "IfStmt":
            cs = n["inner"]
            self.out(L, ind, f"if {self.cond(cs[0])}:")
            self.stmt(cs[1], L, ind + 1)
            if len(cs) > 2:
                self.out(L, ind, "else:")
                self.stmt(cs[2], L, ind + 1)
        elif k == "ForStmt":
            self.for_(n, L, ind, None)
        elif k == "WhileStmt":
            self.out(L, ind, f"while {self.cond(n['inner'][0])}:")
            self.stmt(n["inner"][1], L, ind + 1)
        elif k == "BreakStmt":
            self.out(L, ind, "break")
        elif k == "ContinueStmt":
            self.out(L, ind, "continue")
        elif k == "ReturnStmt":
            self.out(L, ind, "return " + (self.ex(n["inner"][0]) if n.get("inner") else ""))
        elif k.startswith("OMP"):
            if k not in ("OMPParallelForDirective", "OMPParallelForSimdDirective", "OMPSimdDirective"):
                raise Unsupported("OpenMP directive " + k)
            self.omp(n, L, ind, parallel="Parallel" in k)
        else:
            self.expr_stmt(n, L, ind)

    def omp(self, n, L, ind, parallel):
        b, e = n["range"]["begin"]["offset"], n["range"]["end"]["offset"] + n["range"]["end"].get("tokLen", 1)
        pragma = self.text[b:e].decode("utf-8", "replace").replace("\\\n", " ")
        clauses = dict()
        for m in re.finditer(r"(\w+)\s*\(([^()]*)\)", pragma):
            clauses.setdefault(m.group(1), []).extend(x.strip() for x in m.group(2).split(","))
        for c in clauses:
            if c not in ("private", "shared", "num_threads", "schedule", "default"):
                raise Unsupported("OpenMP clause " + c)
        private = {i for i, nm in self.ren.items() if nm in clauses.get("private", [])}
        cap = None
        for c in n["inner"]:
            if c.get("kind") == "CapturedStmt":
                cap = c
        loop = None
        for c in cap["inner"]:
            if c["kind"] == "CapturedDecl":
                for x in c["inner"]:
                    if x["kind"] == "ForStmt":
                        loop = x
        if loop is None:
            raise Unsupported("OpenMP loop not found")
        if not parallel:
            self.for_(loop, L, ind, None)
            return
        # scalars assigned in the body that are neither private nor declared inside
        written, declared = set(), set()

        def walk(x):
            kk = x.get("kind")
            if kk == "VarDecl":
                declared.add(x["id"])
            tgt = None
            if kk in ("BinaryOperator", "CompoundAssignOperator") and x["opcode"].endswith("=") and x["opcode"] not in ("==", "<=", ">=", "!="):
                tgt = x["inner"][0]
            elif kk == "UnaryOperator" and x["opcode"] in ("++", "--"):
                tgt = x["inner"][0]
            while tgt is not None and tgt.get("kind") == "ParenExpr":
                tgt = tgt["inner"][0]
            if tgt is not None and tgt.get("kind") == "DeclRefExpr":
                written.add((tgt["referencedDecl"]["id"], tgt["referencedDecl"]["name"]))
            for c in x.get("inner", []):
                if c:
                    walk(c)
        walk(loop)
        iv_ = self.loopvar(loop)
        bad = sorted(nm for i, nm in written if i not in private and i not in declared and i != iv_)
        self.for_(loop, L, ind, bad, [self.ren[i] for i in sorted(private, key=lambda i: self.ren[i]) if i != iv_])

    def loopvar(self, n):
        init = n["inner"][0]
        if init.get("kind") == "BinaryOperator" and init["opcode"] == "=":
            return init["inner"][0].get("referencedDecl", {}).get("id")
        if init.get("kind") == "DeclStmt":
            return init["inner"][0]["id"]

    def for_(self, n, L, ind, omp, private=()):
        init, _cv, cond, inc, body = (n["inner"] + [{}] * 5)[:5]
        # counted form
        v = self.loopvar(n)
        okform = False
        if v and cond.get("kind") == "BinaryOperator" and cond["opcode"] in ("<", "<=") and body:
            lhs = strip(cond["inner"][0])
            if lhs.get("kind") == "DeclRefExpr" and lhs["referencedDecl"]["id"] == v and self.is_inc(inc, v) \
                    and not assigns(body, {v}) and not assigns(body, refs(cond["inner"][1])) \
                    and v not in refs(cond["inner"][1]):
                okform = True
        if init:
            self.stmt(init, L, ind)
        if okform:
            nm = self.ren[v]
            self.tmp += 1
            hi, lo = f"_hi{self.tmp}", f"_lo{self.tmp}"
            b = self.ex(cond["inner"][1])
            if cond["opcode"] == "<=":
                b = f"({b}) + 1"
            self.out(L, ind, f"{hi} = {b}")
            self.out(L, ind, f"{lo} = {nm}")
            o = "" if omp is None else f"__omp({omp!r}, "
            self.out(L, ind, f"for {nm} in {o}__c_range({lo}, {hi}){')' if o else ''}:")
            for p in private:
                self.out(L, ind + 1, f"{p} = __c_uninit('{p}')")
            self.stmt(body, L, ind + 1)
            self.out(L, ind, "else:")
            self.out(L, ind + 1, f"{nm} = __c_last({lo}, {hi})")
            if private:
                for p in private:
                    self.out(L, ind, f"{p} = __c_uninit('{p}')")
            return
        if omp is not None:
            raise Unsupported("OpenMP loop that is not a counted loop")
        if has_continue(body):
            raise Unsupported("continue in a C for loop that is not counted")
        self.out(L, ind, f"while {self.cond(cond) if cond else 'True'}:")
        self.stmt(body, L, ind + 1)
        if inc:
            self.expr_stmt(inc, L, ind + 1)

    def is_inc(self, n, v):
        if not n:
            return False
        if n["kind"] == "UnaryOperator" and n["opcode"] == "++":
            t = strip(n["inner"][0])
            return t.get("kind") == "DeclRefExpr" and t["referencedDecl"]["id"] == v
        if n["kind"] == "CompoundAssignOperator" and n["opcode"] == "+=":
            t, r = strip(n["inner"][0]), strip(n["inner"][1])
            return t.get("kind") == "DeclRefExpr" and t["referencedDecl"]["id"] == v and \
                r.get("kind") == "IntegerLiteral" and r["value"] == "1"
        return False

    def expr_stmt(self, n, L, ind):
        n = strip(n, casts=False)
        k = n["kind"]
        if k == "BinaryOperator" and n["opcode"] == "=":
            rhs = n["inner"][1]
            r0 = strip(rhs)
            if r0.get("kind") == "BinaryOperator" and r0["opcode"] == "=":
                self.expr_stmt(r0, L, ind)
                self.store(n["inner"][0], self.conv(self.ex(r0["inner"][0]), r0, n["inner"][0]), L, ind)
                return
            self.store(n["inner"][0], self.ex(rhs), L, ind)
        elif k == "BinaryOperator" and n["opcode"] == ",":
            for c in n["inner"]:
                self.expr_stmt(c, L, ind)
        elif k == "CompoundAssignOperator":
            op = n["opcode"][:-1]
            lhs, rhs = n["inner"]
            e = self.arith(op, self.ex(lhs), self.ex(rhs), n, lhs, rhs, float_=isfloat(lhs) or isfloat(rhs))
            if width(lhs) and isfloat(rhs):
                e = f"__c_f2i({e})"
            self.store(lhs, e, L, ind)
        elif k == "UnaryOperator" and n["opcode"] in ("++", "--"):
            t = n["inner"][0]
            self.store(t, self.arith("+" if n["opcode"] == "++" else "-", self.ex(t), "1", n, t, t, float_=isfloat(t)), L, ind)
        elif k == "CallExpr":
            self.out(L, ind, self.ex(n))
        elif k in ("CStyleCastExpr",):
            self.expr_stmt(n["inner"][0], L, ind)
        elif k == "ConditionalOperator":
            c, a, b = n["inner"]
            self.out(L, ind, f"if {self.cond(c)}:")
            self.expr_stmt(a, L, ind + 1)
            self.out(L, ind, "else:")
            self.expr_stmt(b, L, ind + 1)
        elif k in ("DeclRefExpr", "IntegerLiteral", "ImplicitCastExpr"):
            self.out(L, ind, "pass")
        else:
            raise Unsupported("C statement " + k)

    def store(self, lhs, e, L, ind):
        lhs = strip(lhs)
        k = lhs["kind"]
        if k == "DeclRefExpr":
            self.out(L, ind, f"{self.name(lhs)} = {e}")
        elif k == "ArraySubscriptExpr":
            b, i = lhs["inner"]
            self.out(L, ind, f"{self.ex(b)}.store({self.ex(i)}, {e})")
        elif k == "UnaryOperator" and lhs["opcode"] == "*":
            t = strip(lhs["inner"][0])
            if t.get("kind") == "UnaryOperator" and t["opcode"] == "++" and t.get("isPostfix"):
                p = t["inner"][0]
                self.out(L, ind, f"{self.ex(p)}.store(0, {e})")
                self.store(p, f"{self.ex(p)}.add(1)", L, ind)
                return
            self.out(L, ind, f"{self.ex(lhs['inner'][0])}.store(0, {e})")
        elif k == "MemberExpr":
            base = self.ex(lhs["inner"][0])
            self.out(L, ind, f"{base}.setfield('{lhs['name']}', {e})")
        else:
            raise Unsupported("C assignment to " + k)

    def name(self, n):
        d = n["referencedDecl"]
        return self.ren.get(d["id"], d["name"])

    # ------------------------------------------------------------- expressions
    def conv(self, e, src, dst):
        return e

    def cond(self, n):
        n0 = strip(n, casts=False)
        if n0["kind"] == "BinaryOperator" and n0["opcode"] in ("<", "<=", ">", ">=", "==", "!=", "&&", "||"):
            return self.ex(n0)
        if n0["kind"] == "UnaryOperator" and n0["opcode"] == "!":
            return self.ex(n0)
        return f"__c_true({self.ex(n0)})"

    def arith(self, op, a, b, n, la, lb, float_=None):
        ty = ctype(n)[0]
        if ty.endswith("*"):
            if op == "+":
                if ctype(la)[0].endswith("*"):
                    return f"({a}).add({b})"
                return f"({b}).add({a})"
            return f"({a}).add(-({b}))"
        fl = isfloat(n) if float_ is None else float_
        if fl:
            return f"({a} {op} {b})"
        w = width(n)
        if w is None:
            raise Unsupported("C arithmetic on " + ty)
        if op == "/":
            return f"__c_idiv({a}, {b})"
        if op == "%":
            return f"__c_imod({a}, {b})"
        if op not in ("+", "-", "*"):
            raise Unsupported("C operator " + op)
        return f"__c_int({a} {op} {b}, {w})"

    def ex(self, n):
        k = n["kind"]
        if k in ("ParenExpr", "ConstantExpr"):
            return self.ex(n["inner"][0])
        if k in ("ImplicitCastExpr", "CStyleCastExpr"):
            ck = n["castKind"]
            e = self.ex(n["inner"][0])
            if ck in ("LValueToRValue", "NoOp", "ArrayToPointerDecay", "FunctionToPointerDecay", "BitCast"):
                if ck == "BitCast" and ctype(n)[0].endswith("*"):
                    raise Unsupported("C pointer cast")
                return e
            if ck == "IntegralCast":
                w0, w1 = width(n["inner"][0]), width(n)
                if w1 is not None and w0 is not None and abs(w1) >= abs(w0) and (w1 > 0 or w0 < 0):
                    return e
                return f"__c_int({e}, {w1})"
            if ck == "IntegralToFloating":
                return f"__c_real({e})"
            if ck == "FloatingToIntegral":
                return f"__c_f2i({e})"
            if ck == "FloatingCast":
                if ctype(n)[0] == "float":
                    raise Unsupported("single precision arithmetic")
                return e
            if ck in ("IntegralToBoolean", "FloatingToBoolean"):
                return f"__c_true({e})"
            raise Unsupported("C cast " + ck)
        if k == "IntegerLiteral":
            return n["value"]
        if k == "FloatingLiteral":
            return repr(float(n["value"]))
        if k == "DeclRefExpr":
            return self.name(n)
        if k == "ArraySubscriptExpr":
            b, i = n["inner"]
            return f"{self.ex(b)}.load({self.ex(i)})"
        if k == "MemberExpr":
            return f"{self.ex(n['inner'][0])}.field('{n['name']}')"
        if k == "UnaryOperator":
            op = n["opcode"]
            t = n["inner"][0]
            if op == "-":
                return f"(-{self.ex(t)})"
            if op == "+":
                return self.ex(t)
            if op == "!":
                return f"(not {self.cond(t)})"
            if op == "*":
                return f"{self.ex(t)}.load(0)"
            if op == "&":
                s = strip(t)
                if s["kind"] == "ArraySubscriptExpr":
                    return f"{self.ex(s['inner'][0])}.add({self.ex(s['inner'][1])})"
            raise Unsupported("C unary " + op)
        if k == "BinaryOperator":
            op = n["opcode"]
            a, b = n["inner"]
            if op == "&&":
                return f"({self.cond(a)} and {self.cond(b)})"
            if op == "||":
                return f"({self.cond(a)} or {self.cond(b)})"
            if op in ("<", "<=", ">", ">=", "==", "!="):
                return f"({self.ex(a)} {op} {self.ex(b)})"
            return self.arith(op, self.ex(a), self.ex(b), n, a, b)
        if k == "ConditionalOperator":
            c, a, b = n["inner"]
            return f"__c_ite({self.cond(c)}, lambda: {self.ex(a)}, lambda: {self.ex(b)})"
        if k == "CallExpr":
            f = strip(n["inner"][0])
            nm = f["referencedDecl"]["name"]
            args = ", ".join(self.ex(a) for a in n["inner"][1:])
            if nm in self.funcs:
                return f"{nm}({args})"
            return f"__c_{nm}({args})"
        if k == "UnaryExprOrTypeTraitExpr":
            raise Unsupported("sizeof")
        raise Unsupported("C expression " + k)


def strip(n, casts=True):
    while n and (n.get("kind") in ("ParenExpr", "ConstantExpr") or
                 (casts and n.get("kind") == "ImplicitCastExpr")):
        n = n["inner"][0]
    return n


def refs(n):
    out = set()

    def walk(x):
        if x.get("kind") == "DeclRefExpr":
            out.add(x["referencedDecl"]["id"])
        for c in x.get("inner", []):
            if c:
                walk(c)
    walk(n)
    return out


def assigns(n, ids):
    """does n assign one of the variables `ids` (or take its address)?"""
    k = n.get("kind")
    t = None
    if k in ("BinaryOperator", "CompoundAssignOperator") and n["opcode"].endswith("=") and n["opcode"] not in ("==", "<=", ">=", "!="):
        t = strip(n["inner"][0])
    elif k == "UnaryOperator" and n["opcode"] in ("++", "--", "&"):
        t = strip(n["inner"][0])
    if t is not None and t.get("kind") == "DeclRefExpr" and t["referencedDecl"]["id"] in ids:
        return True
    return any(c and assigns(c, ids) for c in n.get("inner", []))


def has_continue(n):
    if n.get("kind") == "ContinueStmt":
        return True
    if n.get("kind") in ("ForStmt", "WhileStmt"):
        return False
    return any(c and has_continue(c) for c in n.get("inner", []))


# ------------------------------------------------------------------ run-time of the translated text
class Ptr:
    """Pointer into a (possibly row-structured) array: element offset `off` of the flat buffer."""

    def __init__(self, arr, off=0, const=False):
        self.arr, self.off, self.const = arr, off, const

    def add(self, i):
        return Ptr(self.arr, num(self.off) + i, self.const)

    def _qm_parts(self):
        return [("off", num(self.off))]

    def _qm_make(self, d):
        return Ptr(self.arr, d["off"], self.const)

    def _qm_subst(self, f):
        return Ptr(self.arr, f(num(self.off)), self.const)

    def _qm_ite(self, c, a, b):
        if a.arr is not b.arr:
            raise Unsupported("pointer to one of two arrays")
        return Ptr(a.arr, ite(c, num(a.off), num(b.off)), a.const)

    def index(self, i, what):
        t = z3.simplify(iv(num(self.off) + i), som=True)
        sh = self.arr.shape
        if len(sh) == 1:
            oblige(f"{what} within the array", z3.And(t >= 0, t < iv(sh[0])))
            return (SNum(t),)
        q, r = split_flat(t, iv(sh[1]))
        oblige(f"{what} within the array", z3.And(q >= 0, q < iv(sh[0]), r >= 0, r < iv(sh[1])))
        return (SNum(q), SNum(r))

    def load(self, i):
        ix = self.index(i, "read")
        return self.arr.at(*ix)

    def store(self, i, v):
        ix = self.index(i, "write")
        if self.const:
            oblige("const memory not written", z3.BoolVal(False))
        view = [("fix", iv(x)) for x in ix]
        self.arr._store(view, (), v if isinstance(v, (SNum, SBool)) else num(v))

    def sub(self, o):
        return self.off - o.off


class StructPtr:
    """Pointer to a read-only struct."""

    def __init__(self, **f):
        self.f = f

    def field(self, n):
        return self.f[n]

    def setfield(self, n, v):
        oblige("const memory not written", z3.BoolVal(False))


def monomials(e):
    """[(coef, [factors])] of a simplified (som) Int term."""
    e = z3.simplify(e, som=True)
    ts = e.children() if z3.is_app_of(e, z3.Z3_OP_ADD) else [e]
    out = []
    for t in ts:
        c = 1
        fs = []
        st = t.children() if z3.is_app_of(t, z3.Z3_OP_MUL) else [t]
        for f in st:
            if z3.is_int_value(f):
                c *= f.as_long()
            elif z3.is_app_of(f, z3.Z3_OP_MUL):
                for g in f.children():
                    if z3.is_int_value(g):
                        c *= g.as_long()
                    else:
                        fs.append(g)
            else:
                fs.append(f)
        out.append((c, fs))
    return out


def split_flat(t, S):
    """t = q*S + r with 0 <= r < S provable (flat index of a row-structured array)."""
    Sv = z3.simplify(S, som=True)
    W = z3.Const("stride!W", z3.IntSort())
    cands = []
    if z3.is_int_value(Sv):
        q, r = t / Sv, t % Sv
        return q, r
    tt = t
    base = None
    for c, fs in monomials(Sv):
        if c == 1 and len(fs) == 1 and fs[0].num_args() == 0:
            base = fs[0]
            break
    if base is not None:
        rest = z3.simplify(Sv - base, som=True)
        tt = z3.simplify(z3.substitute(t, (base, W - rest)), som=True)
        unW = lambda e: z3.simplify(z3.substitute(e, (W, Sv)), som=True)
        prod, lin, rem = z3.IntVal(0), z3.IntVal(0), z3.IntVal(0)
        bad = False
        for c, fs in monomials(tt):
            nW = sum(1 for f in fs if f.eq(W))
            m = z3.IntVal(c)
            o = [f for f in fs if not f.eq(W)]
            for f in o:
                m = m * f
            if nW > 1:
                bad = True
            elif nW == 1 and o:
                prod = prod + m
            elif nW == 1:
                lin = lin + m
            else:
                rem = rem + m
        if not bad:
            cands.append((prod, unW(rem + lin * W)))
            cands.append((prod + lin, unW(rem)))
    cands.append((z3.IntVal(0), t))
    for q, r in cands:
        q, r = z3.simplify(q, som=True), z3.simplify(r, som=True)
        if core.contains(q, W) or core.contains(r, W):
            continue
        if valid(z3.And(r >= 0, r < S)):
            return q, r
    q, r = cands[0]
    return z3.simplify(q, som=True), z3.simplify(r, som=True)


def c_int(e, w):
    e = num(e)
    if not e.isint:
        raise Unsupported("C integer expected")
    v = z3.simplify(e.e)
    if z3.is_int_value(v):
        n = v.as_long()
        lo, hi = (-(2 ** (w - 1)), 2 ** (w - 1) - 1) if w > 0 else (0, 2 ** (-w) - 1)
        if not lo <= n <= hi:
            oblige("no integer overflow", z3.BoolVal(False))
        return SNum(v)
    if w > 0:
        oblige(f"no int{w} overflow", z3.And(e.e >= -(2 ** (w - 1)), e.e <= 2 ** (w - 1) - 1))
    else:
        oblige(f"no uint{-w} wrap", z3.And(e.e >= 0, e.e <= 2 ** (-w) - 1))
    return e


def runtime():
    def c_last(lo, hi):
        return ite(num(lo).e < num(hi).e, num(hi), num(lo))

    def c_true(x):
        if isinstance(x, (bool, SBool)):
            return x
        return num(x) != 0

    def c_ite(c, a, b):
        if isinstance(c, bool):
            return a() if c else b()
        c = z3.simplify(core.tobool(c))
        if z3.is_true(c):
            return a()
        if z3.is_false(c):
            return b()
        with C.under(c):
            x = a()
        with C.under(z3.Not(c)):
            y = b()
        return ite(c, x, y)

    def fmx(a, b):
        return ite(num(a) > num(b), a, b)

    def idiv(a, b):
        a, b = num(a), num(b)
        oblige("no integer division by zero", b.e != 0)
        q = SNum(z3.If(z3.And(a.e >= 0, b.e > 0), a.e / b.e, core.trunc_(rl(a.e) / rl(b.e))))
        return q

    def imod(a, b):
        return num(a) - idiv(a, b) * num(b)
    return {
        "__c_uninit": Uninit,
        "__c_int": c_int, "__c_real": lambda x: SNum(rl(ex(x))), "__c_f2i": lambda x: core.cast_(num(x), "int"),
        "__c_true": c_true, "__c_ite": c_ite, "__c_last": c_last, "__c_idiv": idiv, "__c_imod": imod,
        "__c_exp": core.exp_, "__c_log": core.log_, "__c_sqrt": core.sqrt_, "__c_fabs": lambda x: abs(num(x)),
        "__c_fmax": fmx, "__c_fmin": lambda a, b: ite(num(a) < num(b), a, b), "__c_pow": core.power_,
        "__c_abs": lambda x: abs(num(x)), "__c_labs": lambda x: abs(num(x)),
    }


def Uninit(nm):
    from .loops import Poison
    return Poison(f"uninitialised C variable {nm}")


def translate(path, incdir):
    tu = load_ast(path, incdir)
    t = Trans(tu, open(path, encoding='utf-8').read())
    return {n: t.function(n) for n in t.funcs}
