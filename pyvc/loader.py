"""Mechanical extraction: the real source files of /repo are parsed on every run, rewritten (literals to exact
rationals, / ** % // to exact operators, for-loops to the loop driver) and executed by CPython on symbolic values."""
import ast, builtins, types, os, sys, copy as _copy
from fractions import Fraction
from . import core, arrays, loops, npshim
from .core import Unsupported, S, conc

def assigned_names(nodes):
    out = set()
    class V(ast.NodeVisitor):
        def visit_Name(self, n):
            if isinstance(n.ctx, (ast.Store, ast.Del)): out.add(n.id)
        def visit_FunctionDef(self, n): out.add(n.name)
        def visit_Lambda(self, n): pass
        def visit_ClassDef(self, n): out.add(n.name)
        def visit_ListComp(self, n): pass
        visit_SetComp = visit_DictComp = visit_GeneratorExp = visit_ListComp
        def visit_Import(self, n): pass
        def visit_ImportFrom(self, n): pass
    for n in nodes: V().visit(n)
    return out

def stored_names(nodes):
    """names of variables some element of which is assigned in the given statements"""
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            ts = x.targets if isinstance(x, ast.Assign) else [x.target] if isinstance(x, ast.AugAssign) else []
            for t in ts:
                for e in ast.walk(t):
                    if isinstance(e, ast.Subscript):
                        b = e.value
                        while isinstance(b, ast.Subscript): b = b.value
                        if isinstance(b, ast.Name): out.add(b.id)
    return out

def simple_while(n):
    """a while loop whose body assigns plain variables only, without inner loops or jumps"""
    if n.orelse: return False
    for b in n.body:
        for x in ast.walk(b):
            if isinstance(x, (ast.For, ast.While, ast.Break, ast.Continue, ast.Return, ast.Try, ast.With, ast.FunctionDef, ast.Lambda, ast.ClassDef, ast.Global, ast.Nonlocal, ast.Delete, ast.Yield, ast.YieldFrom)): return False
            if isinstance(x, (ast.Subscript, ast.Attribute, ast.Starred)) and isinstance(x.ctx, (ast.Store, ast.Del)): return False
            if isinstance(x, ast.Expr): return False        # a statement for its effect
    return True
PURE = {"abs", "fabs", "float32", "float64", "float", "int", "int32", "int64", "len", "sqrt", "max", "min", "maximum", "minimum"}
def pure(e):
    """an expression without effects that may be evaluated whether it is needed or not"""
    for x in ast.walk(e):
        if isinstance(x, ast.Call):
            f = x.func
            if x.keywords or not (isinstance(f, ast.Name) and f.id in PURE or isinstance(f, ast.Attribute) and isinstance(f.value, ast.Name) and f.value.id in ("np", "numpy", "math") and f.attr in PURE): return False
        elif isinstance(x, ast.Attribute):
            if not (isinstance(x.value, ast.Name) and x.value.id in ("np", "numpy", "math")): return False
        elif not isinstance(x, (ast.Name, ast.Constant, ast.BinOp, ast.UnaryOp, ast.Compare, ast.BoolOp, ast.IfExp, ast.operator, ast.unaryop, ast.cmpop, ast.boolop, ast.expr_context)): return False
    return True
def mergeable(n):
    """an if-statement whose branches only assign pure expressions to plain variables"""
    if not pure(n.test): return False
    for b in n.body + n.orelse:
        if isinstance(b, ast.Assign) and len(b.targets) == 1 and isinstance(b.targets[0], ast.Name) and pure(b.value): continue
        if isinstance(b, ast.AugAssign) and isinstance(b.target, ast.Name) and pure(b.value): continue
        if isinstance(b, ast.Pass) or isinstance(b, ast.If) and mergeable(b): continue
        return False
    return True
OPS = {ast.Div: "div", ast.FloorDiv: "fdiv", ast.Mod: "mod", ast.Pow: "pow"}
class Tr(ast.NodeTransformer):
    def __init__(self, fname, merge=False):
        self.merge, self.nm = merge, 0
        self.fname = fname; self.n = 0; self.loops = [[]]; self.func = ["<module>"]; self.counter = {}; self.brk = []
    def call(self, fn, args, node):
        return ast.copy_location(ast.Call(func=ast.Attribute(value=ast.Name(id="__vc__", ctx=ast.Load()), attr=fn, ctx=ast.Load()), args=args, keywords=[]), node)
    def visit_Constant(self, n):
        if isinstance(n.value, float):
            return self.call("lit", [ast.Constant(value=repr(n.value))], n)
        return n
    def visit_JoinedStr(self, n): return n
    def visit_BinOp(self, n):
        tiny = isinstance(n.op, ast.Add) and any(isinstance(x, ast.Constant) and isinstance(x.value, float) and 0 < abs(x.value) <= 1e-30 for x in (n.left, n.right))
        self.generic_visit(n)
        if tiny: return self.call("addtiny", [n.left, n.right], n)
        k = OPS.get(type(n.op))
        if k: return self.call(k, [n.left, n.right], n)
        return n
    def visit_AugAssign(self, n):
        self.generic_visit(n)
        k = OPS.get(type(n.op))
        if k is None: return n
        load = _copy.deepcopy(n.target)
        for x in ast.walk(load):
            if hasattr(x, "ctx") and isinstance(x.ctx, ast.Store): x.ctx = ast.Load()
        return ast.copy_location(ast.Assign(targets=[n.target], value=self.call("iop", [ast.Constant(value=k), load, n.value], n)), n)
    def visit_FunctionDef(self, n):
        self.loops.append([]); self.func.append(n.name)
        brk, self.brk = self.brk, []
        n.decorator_list = [d for d in n.decorator_list]
        self.generic_visit(n)
        self.loops.pop(); self.func.pop()
        self.brk = brk
        return n
    def visit_Lambda(self, n):
        self.generic_visit(n); return n
    # merging of simple branches (only for proofs that ask for it): both sides are evaluated and the values selected by the condition
    def visit_IfExp(self, n):
        if not (self.merge and pure(n)): self.generic_visit(n); return n
        return self.call("sel", [self.cond(n.test), self.visit(n.body), self.visit(n.orelse)], n)
    def cond(self, t):
        """a condition without short-circuiting (its parts are pure)"""
        if isinstance(t, ast.BoolOp): return self.call("allof" if isinstance(t.op, ast.And) else "anyof", [self.cond(x) for x in t.values], t)
        if isinstance(t, ast.UnaryOp) and isinstance(t.op, ast.Not): return self.call("notof", [self.cond(t.operand)], t)
        return self.visit(t)
    def visit_If(self, n):
        if not (self.merge and self.func[-1] != "<module>" and mergeable(n)): self.generic_visit(n); return n
        self.nm += 1; c = "__vlc%d" % self.nm
        def nm(x, ctx=ast.Load): return ast.Name(id=x, ctx=ctx())
        def branch(stmts, tag):
            m, out = {}, []
            class Ren(ast.NodeTransformer):
                def visit_Name(s, x): return ast.copy_location(nm(m[x.id]), x) if isinstance(x.ctx, ast.Load) and x.id in m else x
            for b in stmts:
                if isinstance(b, ast.Pass): continue
                b = _copy.deepcopy(b)
                if isinstance(b, ast.If):
                    # values of the nested branches, then selected
                    c2 = "%s_%d" % (c, len(out)) + tag
                    out.append(ast.Assign(targets=[nm(c2, ast.Store)], value=self.cond(Ren().visit(b.test))))
                    inner = {}
                    for st, t2 in ((b.body, "t"), (b.orelse, "e")):
                        st = [Ren().visit(x) for x in _copy.deepcopy(st)]
                        # names stored in st are read back under their own temporaries
                        mm, oo = branch(st, tag + t2 + str(len(out)))
                        out.extend(oo); inner[t2] = mm
                    for x in sorted(set(inner["t"]) | set(inner["e"])):
                        t = "%s%s_%s_s%d" % (c, tag, x, len(out))
                        out.append(ast.Assign(targets=[nm(t, ast.Store)], value=self.call("sel", [nm(c2), nm(inner["t"].get(x, m.get(x, x))), nm(inner["e"].get(x, m.get(x, x)))], b)))
                        m[x] = t
                    continue
                x = (b.targets[0] if isinstance(b, ast.Assign) else b.target).id
                v = b.value if isinstance(b, ast.Assign) else ast.copy_location(ast.BinOp(left=nm(x), op=b.op, right=b.value), b)
                t = "%s%s_%s_%d" % (c, tag, x, len(out))
                out.append(ast.Assign(targets=[nm(t, ast.Store)], value=self.visit(Ren().visit(v)))); m[x] = t
            return m, out
        mt, ot = branch(n.body, "t"); me, oe = branch(n.orelse, "e")
        fin = [ast.Assign(targets=[nm(x, ast.Store)], value=self.call("sel", [nm(c), nm(mt.get(x, x)), nm(me.get(x, x))], n)) for x in sorted(set(mt) | set(me))]
        plain = _copy.deepcopy(n)
        self.merge = False
        try: self.generic_visit(plain)
        finally: self.merge = True
        plain.test = nm(c)
        r = [ast.Assign(targets=[nm(c, ast.Store)], value=self.cond(n.test)), ast.If(test=self.call("symtest", [nm(c)], n), body=ot + oe + fin or [ast.Pass()], orelse=[plain])]
        for q in r:
            ast.copy_location(q, n)
            for x in ast.walk(q):
                if not hasattr(x, "lineno") and isinstance(x, (ast.expr, ast.stmt)): ast.copy_location(x, n)
            ast.fix_missing_locations(q)
        return r
    def visit_ListComp(self, n):
        self.generic_visit(n)
        g = n.generators
        if len(g) == 1 and not g[0].ifs and not g[0].is_async and isinstance(g[0].target, ast.Name):
            fn = ast.Lambda(args=ast.arguments(posonlyargs=[], args=[ast.arg(arg=g[0].target.id)], kwonlyargs=[], kw_defaults=[], defaults=[]), body=n.elt)
            r = self.call("listcomp", [g[0].iter, fn], n)
            for x in ast.walk(r):
                if not hasattr(x, "lineno") and isinstance(x, (ast.expr, ast.arg)): ast.copy_location(x, n)
            return r
        return n
    def visit_Return(self, n):
        self.generic_visit(n)
        if self.loops[-1]:
            chk = [ast.copy_location(ast.Expr(value=ast.Call(func=ast.Attribute(value=ast.Name(id=v, ctx=ast.Load()), attr="noret", ctx=ast.Load()), args=[], keywords=[])), n) for v in self.loops[-1]]
            return chk + [n]
        return n
    def visit_Assign(self, n):
        self.generic_visit(n)
        muts = []
        for t in n.targets:
            for e in ([t] if not isinstance(t, (ast.Tuple, ast.List)) else t.elts):
                if isinstance(e, (ast.Subscript, ast.Attribute)):
                    base = _copy.deepcopy(e.value)
                    muts.append(ast.copy_location(ast.Expr(value=self.call("mut", [base], n)), n))
        return muts + [n] if muts and self.func[-1] != "<module>" else n
    def visit_Attribute(self, n):
        if n.attr in ("nbytes", "tofile", "tobytes") and isinstance(n.value, ast.Call) and not n.value.keywords and isinstance(n.ctx, ast.Load):
            c = n.value
            self.generic_visit(c)
            return self.call("callattr", [c.func, ast.Constant(value=n.attr)] + c.args, n)
        self.generic_visit(n)
        return n
    def visit_Try(self, n):
        self.generic_visit(n)
        h = ast.ExceptHandler(type=ast.Attribute(value=ast.Name(id="__vc__", ctx=ast.Load()), attr="Control", ctx=ast.Load()), name=None, body=[ast.Raise()])
        ast.copy_location(h, n); n.handlers = [h] + n.handlers if n.handlers else n.handlers
        ast.fix_missing_locations(n)
        return n
    def visit_List(self, n):
        self.generic_visit(n)
        if n.elts or not isinstance(n.ctx, ast.Load) or self.func[-1] == "<module>": return n
        return ast.copy_location(ast.Call(func=ast.Attribute(value=ast.Name(id="__vc__", ctx=ast.Load()), attr="vlist", ctx=ast.Load()), args=[], keywords=[]), n)
    def visit_Call(self, n):
        self.generic_visit(n)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ("append", "extend", "insert", "pop", "remove", "clear", "update", "setdefault", "sort", "reverse"):
            n.func.value = self.call("mutm", [n.func.value], n)
        return n
    def visit_Break(self, n):
        if not self.brk or self.brk[-1] is None: return n
        var, els = self.brk[-1]
        test = ast.Call(func=ast.Attribute(value=ast.Name(id=var, ctx=ast.Load()), attr="brk", ctx=ast.Load()), args=[ast.Constant(value=els)], keywords=[])
        r = ast.If(test=test, body=[n], orelse=[])
        ast.copy_location(r, n); ast.fix_missing_locations(r)
        return r
    def visit_While(self, n):
        contract = _copy.deepcopy(n) if simple_while(n) else None
        self.brk.append(None)
        self.generic_visit(n)
        if contract is not None: self.generic_visit(contract)
        self.brk.pop()
        fn = self.func[-1]
        c = self.counter["while " + fn] = self.counter.get("while " + fn, 0) + 1
        ident = "%s@%d" % (fn, c)
        tick = ast.copy_location(ast.Expr(value=self.call("tick", [ast.Constant(value="%s:%d" % (fn, n.lineno))], n)), n)
        n.body = [tick] + n.body
        if contract is None: return n
        self.n += 1
        var = "__vw%d" % self.n
        names = sorted(assigned_names(contract.body))
        def nm(x, ctx=ast.Load): return ast.Name(id=x, ctx=ctx())
        def meth(m, *a): return ast.Call(func=ast.Attribute(value=nm(var), attr=m, ctx=ast.Load()), args=[ast.Constant(value=x) for x in a], keywords=[])
        pre = ast.Assign(targets=[nm(var, ast.Store)], value=ast.Call(func=ast.Attribute(value=nm("__vc__"), attr="whileloop", ctx=ast.Load()), args=[ast.Constant(value=ident), ast.Tuple(elts=[ast.Constant(value=x) for x in names], ctx=ast.Load())], keywords=[]))
        hav = [ast.Assign(targets=[nm(x, ast.Store)], value=meth("hav", x)) for x in names]
        body = hav + [ast.Expr(value=meth("assume")), ast.If(test=contract.test, body=[ast.Expr(value=meth("enter"))] + contract.body + [ast.Expr(value=meth("end"))], orelse=[])]
        r = [pre, ast.If(test=ast.Attribute(value=nm(var), attr="sym", ctx=ast.Load()), body=body, orelse=[n])]
        for q in r:
            ast.copy_location(q, n)
            for x in ast.walk(q):
                if not hasattr(x, "lineno") and isinstance(x, (ast.expr, ast.stmt)): ast.copy_location(x, n)
            ast.fix_missing_locations(q)
        return r
    def visit_For(self, n):
        self.n += 1
        var = "__vl%d" % self.n
        fn = self.func[-1]
        c = self.counter[fn] = self.counter.get(fn, 0) + 1
        ident = "%s#%d" % (fn, c)
        names = sorted(assigned_names(n.body))
        targets = sorted(assigned_names([n.target]))
        subs = sorted(stored_names(n.body))
        n.iter = self.visit(n.iter)
        n.target = self.visit(n.target)
        self.loops[-1].append(var); self.brk.append((var, bool(n.orelse)))
        body = []
        for b in n.body:
            r = self.visit(b)
            body += r if isinstance(r, list) else [r]
        self.brk.pop()
        orelse = []
        for b in n.orelse:
            r = self.visit(b); orelse += r if isinstance(r, list) else [r]
        self.loops[-1].pop()
        def nm(x, ctx=ast.Load): return ast.Name(id=x, ctx=ctx())
        pre = ast.Assign(targets=[nm(var, ast.Store)], value=ast.Call(func=ast.Attribute(value=nm("__vc__"), attr="loop", ctx=ast.Load()),
              args=[n.iter, ast.Constant(value=ident), ast.Tuple(elts=[ast.Constant(value=x) for x in names], ctx=ast.Load()), ast.Tuple(elts=[ast.Constant(value=x) for x in targets], ctx=ast.Load()), ast.Tuple(elts=[ast.Constant(value=x) for x in subs], ctx=ast.Load())], keywords=[]))
        symtest = ast.Attribute(value=nm(var), attr="sym", ctx=ast.Load())
        inn = [ast.Assign(targets=[nm(x, ast.Store)], value=ast.Call(func=ast.Attribute(value=nm(var), attr="inn", ctx=ast.Load()), args=[ast.Constant(value=x)], keywords=[])) for x in names if x not in targets]
        out = [ast.Assign(targets=[nm(x, ast.Store)], value=ast.Call(func=ast.Attribute(value=nm(var), attr="out", ctx=ast.Load()),
               args=[ast.Constant(value=x), ast.Lambda(args=ast.arguments(posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]), body=nm(x))], keywords=[])) for x in sorted(set(names + targets))]
        # PathEnd raised inside a merged body only ends that body path
        if inn: body = [ast.If(test=symtest, body=inn, orelse=[])] + body
        body = [ast.Try(body=body, handlers=[ast.ExceptHandler(type=ast.Attribute(value=nm("__vc__"), attr="PathEnd", ctx=ast.Load()), name=None,
                body=[ast.Expr(value=ast.Call(func=ast.Attribute(value=nm("__vc__"), attr="body_end", ctx=ast.Load()), args=[nm(var)], keywords=[]))])], orelse=[], finalbody=[])]
        orelse = [ast.Expr(value=ast.Call(func=ast.Attribute(value=nm(var), attr="completed", ctx=ast.Load()), args=[], keywords=[]))] + orelse
        loop = ast.For(target=n.target, iter=nm(var), body=body, orelse=orelse)
        fin = ast.Expr(value=ast.Call(func=ast.Attribute(value=nm("__vc__"), attr="after", ctx=ast.Load()), args=[nm(var)], keywords=[]))
        post = [fin] + ([ast.If(test=_copy.deepcopy(symtest), body=out, orelse=[])] if out else [])
        res = [pre, loop] + post
        for r in res:
            ast.copy_location(r, n)
            for x in ast.walk(r):
                if not hasattr(x, "lineno") and isinstance(x, (ast.expr, ast.stmt, ast.excepthandler)): ast.copy_location(x, n)
            ast.fix_missing_locations(r)
        return res

class VC:
    """runtime support visible to the rewritten code as __vc__"""
    PathEnd = core.PathEnd
    Control = (core.PathEnd, core.Restart, core.Unsupported)     # not exceptions of the program
    def callattr(self, f, name, *a):
        """attribute of a freshly built scalar, whose type is otherwise forgotten"""
        if isinstance(f, arrays.DT) and len(a) == 1 and not isinstance(a[0], (list, tuple, arrays.ArrBase)):
            if name == "nbytes": return f.itemsize
            return getattr(arrays.asarray(arrays.cast(a[0], f), f), name)
        return getattr(f(*a), name)
    def __init__(self): self.lits = {}; self.ticks = {}
    def sel(self, c, a, b):
        c = core.tobool(c) if not isinstance(c, bool) else c
        return a if c is True else b if c is False else core.ite(c, a, b)
    def symtest(self, c): return isinstance(c, S) and core.E.lookup(core.tobool(c).t) is None
    def anyof(self, *cs):
        r = False
        for c in cs: r = core.bor(r, core.tobool(c))
        return r
    def allof(self, *cs):
        r = True
        for c in cs: r = core.band(r, core.tobool(c))
        return r
    def notof(self, c): return core.bnot(core.tobool(c))
    def lit(self, s):
        v = self.lits.get(s)
        if v is None:
            v = self.lits[s] = float(s) if s in ("inf", "-inf", "nan") else Fraction(s)
        return v
    def _b(self, k, a, b):
        if isinstance(a, str): return a % b
        return npshim.binop(k, a, b)
    def div(self, a, b):
        if hasattr(a, "__vc_truediv__"): return a / b
        if not isinstance(a, (int, float, Fraction, S, arrays.ArrBase, list, tuple)) and hasattr(a, "__truediv__"): return a / b
        return self._b("div", a, b)
    def addtiny(self, a, b):
        if isinstance(a, arrays.ArrBase) or isinstance(b, arrays.ArrBase): return arrays.elementwise(core.add, a, b)
        return core.add(a, b)
    def fdiv(self, a, b): return self._b("fdiv", a, b)
    def mod(self, a, b): return self._b("mod", a, b)
    def pow(self, a, b): return self._b("pow", a, b)
    def iop(self, k, a, b):
        if isinstance(a, arrays.ArrBase):
            return a._inplace(npshim.BIN[k], b)
        if k == "mod" and isinstance(a, str): return a % b
        return npshim.binop(k, a, b)
    def mut(self, obj):
        if core.E is not None and core.E.loops and not isinstance(obj, arrays.ArrBase) and any(L.sym and L.active for L in core.E.loops):
            if getattr(obj, "__vc_loopsafe__", False) or isinstance(obj, loops.VList): return
            fr = sys._getframe(1)       # the constructor of a new object
            if fr.f_code.co_name == "__init__" and fr.f_code.co_argcount and fr.f_locals.get(fr.f_code.co_varnames[0]) is obj: return
            raise Unsupported("update of a shared object inside a loop with symbolic bounds")
    def listcomp(self, it, fn):
        if isinstance(it, loops.VRange) and not it.concrete(): return loops.SymList(it.vlen(), lambda k: fn(it[k]))
        return [fn(x) for x in it]
    def mutm(self, obj):
        if isinstance(obj, (list, dict, set)): self.mut(obj)
        return obj
    def vlist(self): return loops.VList()
    def loop(self, it, ident, names, targets, subs=()): return loops.Loop(it, ident, names, targets, subs)
    def whileloop(self, ident, names): return loops.While(ident, names)
    def body_end(self, L):
        if L.sym and L.mode == "merge" and core.E.subexp and core.E.subexp[-1] is L:
            L.dead = True; return
        raise core.PathEnd()
    def after(self, L):
        if L.sym and L.mode != "skip" and not L._completed: raise Unsupported("break out of a loop with symbolic bounds")
    def tick(self, ident):
        E = core.E
        n = E.ticks[ident] = E.ticks.get(ident, 0) + 1
        if n > E.maxticks: raise Unsupported("while loop %s without bound" % ident)

vc = VC()

# ---------------------------------------------------------------- builtins seen by the code
def v_len(x):
    if isinstance(x, arrays.ArrBase): return x.vlen()
    if hasattr(x, "vlen"): return x.vlen()
    return len(x)
class _Type:
    def __init__(self, name, fn, py): self.__vc_name__ = name; self.fn = fn; self.py = py
    def __call__(self, *a, **k): return self.fn(*a, **k)
    def __instancecheck__(self, x): return isinstance(x, self.py)
    def __eq__(self, o): return o is self or o is self.py
    def __hash__(self): return hash(self.py)
    def __or__(self, o): return (self, o)
def _int(x=0, *a):
    if isinstance(x, str): return int(x, *a)
    if isinstance(x, arrays.ArrBase): x = x.item()
    if isinstance(x, bytes): return int(x)
    if isinstance(x, float) and not core.fl(x) is x: x = core.fl(x)
    if isinstance(x, float):
        import math
        if math.isinf(x): raise core.VcRaise("OverflowError", "cannot convert float infinity to integer")
        raise core.VcRaise("ValueError", "cannot convert float NaN to integer")
    return core.trunc(x)
def _float(x=0):
    if isinstance(x, str):
        f = float(x); return core.fl(f)
    if isinstance(x, arrays.ArrBase): x = x.item()
    return arrays.cast(x, arrays.F64)
def _bool(x=False):
    if isinstance(x, arrays.ArrBase): x = x.item()
    return core.tobool(x) if isinstance(x, (S, Fraction)) else bool(x)
v_int = _Type("int", _int, int); v_float = _Type("float", _float, float); v_bool = _Type("bool", _bool, bool)
def v_isinstance(x, t):
    if isinstance(t, tuple): return any(v_isinstance(x, u) for u in t)
    if isinstance(t, _Type):
        if t is v_int: return core.isint(x) and not isinstance(x, bool) if isinstance(x, (S, int)) else False
        if t is v_float: return isinstance(x, float) or core.isreal(x)
        if t is v_bool: return core.isboolv(x)
    nm = getattr(t, "name_", None)
    if nm in ("floating", "integer", "number"):
        if isinstance(x, arrays.ArrBase) or core.isboolv(x): return False
        return nm == "number" and (core.isint(x) or core.isreal(x) or isinstance(x, float)) or nm == "floating" and (core.isreal(x) or isinstance(x, float)) or nm == "integer" and core.isint(x)
    if t is npshim.ndarray: return isinstance(x, arrays.ArrBase)
    if isinstance(t, arrays.DT): return False
    if t in (list, tuple, dict, str, bytes, set) or isinstance(t, type): return isinstance(x, t)
    return False
def v_min(*a, **k): return npshim.pymin(core.smin, *a, **k)
def v_max(*a, **k): return npshim.pymin(core.smax, *a, **k)
def v_abs(x): return npshim.np.abs(x)
def v_sum(x, start=0):
    if isinstance(x, arrays.ArrBase): return npshim.sum_(x)
    for y in x: start = start + y
    return start
def v_round(x, n=None):
    r = npshim.around(x, n or 0)
    return core.trunc(r) if n is None else r
def v_enumerate(it, start=0): return loops.VEnumerate(it, start)
def v_zip(*its, **k): return loops.VZip(its)
def v_all(x): return all(bool(y) for y in x)
def v_type(x, *a):
    if a: return type(x, *a)
    if isinstance(x, arrays.ArrBase): return npshim.ndarray
    if core.isboolv(x): return v_bool
    if core.isint(x): return v_int
    if core.isreal(x): return v_float
    return type(x)
def v_print(*a, **k): pass

class Stub:
    """an unmodelled module or attribute; using it leaves the verifier's subset"""
    def __init__(self, name): object.__setattr__(self, "_name", name)
    def __getattr__(self, a):
        if a.startswith("__") and a not in ("__version__",): raise AttributeError(a)
        return Stub(self._name + "." + a)
    def __call__(self, *a, **k): raise Unsupported("call to unmodelled %s" % self._name)
    def __mro_entries__(self, bases): return (object,)

SAFE = {"os", "sys", "pathlib", "copy", "time", "timeit", "platform", "tempfile", "re", "string", "math_", "logging", "warnings", "collections", "functools", "itertools", "struct_", "timeit", "queue", "enum"}

_CODE = {}
class Loader:
    def __init__(self, repo, shims=None, hook=None, merge=False):
        self.merge = merge
        self.repo = repo; self.mods = {}; self.shims = dict(shims or {}); self.hook = hook; self.files = set()
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            base = (globals or {}).get("__package__", "")
            parts = base.split(".")
            parts = parts[:len(parts) - level + 1]
            name = ".".join(parts + ([name] if name else []))
        if name in self.shims:
            m = self.shims[name]
            return m
        top = name.split(".")[0]
        if top == "numpy":
            if name == "numpy" or not fromlist: return npshim.np
            o = npshim.np
            for p in name.split(".")[1:]: o = getattr(o, p)
            return o
        if top == "numba": return npshim.numba if (name == "numba" or not fromlist) else getattr(npshim.numba, name.split(".")[1], Stub(name))
        if top == "math": return npshim.math
        if top == "pyebsdindex":
            m = self.load(name)
            if fromlist:
                for f in fromlist:
                    if not hasattr(m, f):
                        try: setattr(m, f, self.load(name + "." + f))
                        except FileNotFoundError: pass
                return m
            return self.load("pyebsdindex")
        if name == "timeit": return types.SimpleNamespace(default_timer=loops.Opaque)
        if top in SAFE:
            return builtins.__import__(name, globals, locals, fromlist, 0)
        return Stub(name)
    def path(self, name):
        p = os.path.join(self.repo, *name.split("."))
        if os.path.isfile(p + ".py"): return p + ".py", False
        if os.path.isfile(os.path.join(p, "__init__.py")): return os.path.join(p, "__init__.py"), True
        if os.path.isdir(p): return None, True
        raise FileNotFoundError(name)
    def load(self, name):
        if name in self.mods: return self.mods[name]
        path, pkg = self.path(name)
        m = types.ModuleType(name)
        self.mods[name] = m
        m.__dict__["__package__"] = name if pkg else name.rpartition(".")[0]
        m.__file__ = path or ""
        if name == "pyebsdindex":
            m._pyopencl_installed = False; m._ray_installed = True
            m.__version__ = "0"
            return m
        if path is None: return m
        self.files.add(path)
        src = open(path).read()
        code = _CODE.get((path, src, self.merge))
        if code is None:
            tree = ast.parse(src)
            tree = Tr(path, self.merge).visit(tree)
            ast.fix_missing_locations(tree)
            code = _CODE[(path, src, self.merge)] = compile(tree, path, "exec")
        b = dict(vars(builtins))
        b["__import__"] = self._import
        g = m.__dict__
        g["__builtins__"] = b
        g.update(__vc__=vc, len=v_len, range=loops.vrange, int=v_int, float=v_float, bool=v_bool, isinstance=v_isinstance, min=v_min, max=v_max,
                 abs=v_abs, sum=v_sum, round=v_round, enumerate=v_enumerate, zip=v_zip, type=v_type, print=v_print)
        old = core.E
        if core.E is None:
            core.E = core.Engine("load"); core.E._start([])
        try:
            exec(code, g)
        finally:
            core.E = old
        if self.hook: self.hook(name, m)
        if "." in name:
            par, _, leaf = name.rpartition(".")
            if par in self.mods: setattr(self.mods[par], leaf, m)
        return m
