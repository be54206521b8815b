"""Symbolic scalars, path exploration and obligation store of the verifier."""
from fractions import Fraction
import time, os, math
import z3
from .poly import Ctx, Poly, TooBig

class Unsupported(Exception):
    """The code uses something outside the verifier's subset: no obligation can be generated."""
class PathEnd(Exception):
    """Current path is infeasible / finished early."""
class Restart(Exception):
    """restart the exploration with a refined loop rule"""
class VcRaise(Exception):
    """The interpreted program raises a Python exception."""
    def __init__(self, etype, msg=""):
        self.etype, self.msg = etype, msg
        Exception.__init__(self, "%s: %s" % (etype, msg))

E = None   # current engine

def cur():
    return E

# ---------------------------------------------------------------- scalars
def isnum(x):
    return isinstance(x, (int, Fraction)) and not isinstance(x, bool)

def lift(x):
    """python value -> z3 term"""
    if isinstance(x, S): return x.t
    if isinstance(x, bool): return z3.BoolVal(x)
    if isinstance(x, int): return z3.IntVal(x)
    if isinstance(x, Fraction): return z3.RealVal(str(x))
    if isinstance(x, float):
        if math.isinf(x) or math.isnan(x): raise Unsupported("inf/nan in symbolic arithmetic")
        return z3.RealVal(str(Fraction(x)))
    if type(x).__name__ == "Poison": x._bad()
    if hasattr(x, "item"): return lift(x.item())
    raise Unsupported("cannot lift %r" % type(x))

def wrap(t):
    """z3 term -> python value or S"""
    if z3.is_int_value(t): return t.as_long()
    if z3.is_rational_value(t): return Fraction(t.numerator_as_long(), t.denominator_as_long())
    if z3.is_true(t): return True
    if z3.is_false(t): return False
    return S(t)

def toreal_t(t):
    if z3.is_int(t):
        if z3.is_int_value(t): return z3.RealVal(t.as_long())
        return z3.ToReal(t)
    if z3.is_bool(t):
        return z3.If(t, z3.RealVal(1), z3.RealVal(0))
    return t

def toint_t(t):
    if z3.is_bool(t): return z3.If(t, z3.IntVal(1), z3.IntVal(0))
    return t

def _pair(a, b):
    a, b = lift(a), lift(b)
    if z3.is_bool(a): a = toint_t(a)
    if z3.is_bool(b): b = toint_t(b)
    if z3.is_real(a) != z3.is_real(b):
        a, b = toreal_t(a), toreal_t(b)
    return a, b

def conc(x):
    return isinstance(x, (int, Fraction, bool))
def fl(x):
    """finite python floats become exact decimals"""
    if isinstance(x, float) and math.isfinite(x): return Fraction(repr(x))
    return x
def isinf(x): return isinstance(x, float) and math.isinf(x)
def isnan(x): return isinstance(x, float) and math.isnan(x)
TINY = Fraction(1, 10**9)
HUGE = Fraction(10**9)

ABSORB = Fraction(1, 10**30)
def add(a, b):
    a, b = fl(a), fl(b)
    if E is not None:
        for x, y in ((a, b), (b, a)):
            if isinstance(y, Fraction) and 0 < abs(y) <= ABSORB and (isinstance(x, S) or (isinstance(x, (int, Fraction)) and x != 0)):
                E.assumptions.add("literals below 1e-30 added to a real are absorbed"); return x
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float): return a + b
        return a if isinstance(a, float) else b
    if conc(a) and conc(b): return norm(a + b)
    if conc(a) and a == 0 and (isinstance(a, (int, bool)) or isreal(b)): return b
    if conc(b) and b == 0 and (isinstance(b, (int, bool)) or isreal(a)): return a
    x, y = _pair(a, b)
    return wrap(x + y)
def sub(a, b):
    a, b = fl(a), fl(b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float): return a - b
        return a if isinstance(a, float) else -b
    if conc(a) and conc(b): return norm(a - b)
    if conc(b) and b == 0 and (isinstance(b, (int, bool)) or isreal(a)): return a
    x, y = _pair(a, b)
    if x.eq(y): return Fraction(0) if z3.is_real(x) else 0
    return wrap(x - y)
def mul(a, b):
    a, b = fl(a), fl(b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float): return a * b
        f, o = (a, b) if isinstance(a, float) else (b, a)
        if isnan(f): return f
        if conc(o): return f * float(o) if o != 0 else math.nan
        if E.decide(_cmp(">", o, 0)): return f
        if E.decide(_cmp("<", o, 0)): return -f
        return math.nan
    if conc(a) and conc(b): return norm(a * b)
    for u, v in ((a, b), (b, a)):
        if conc(u):
            if u == 0: return Fraction(0) if (isinstance(u, Fraction) or isreal(v)) else 0
            if u == 1 and (not isinstance(u, Fraction) or isreal(v)): return v
            if u == -1 and (not isinstance(u, Fraction) or isreal(v)): return neg(v)
    x, y = _pair(a, b)
    if E is not None and E.maxdeg and z3.is_real(x): return E.cut_degree(x * y)
    if E is not None and E.opaque_arith and z3.is_real(x) and not conc(a) and not conc(b) and not (z3.is_to_real(x) and z3.is_to_real(y)):
        (x, sx), (y, sy) = unsigned(x), unsigned(y)
        if y.get_id() < x.get_id(): x, y = y, x
        E.keep(x); E.keep(y)
        return wrap(MULF(x, y) if sx == sy else -MULF(x, y))
    return wrap(x * y)
def unsigned(t):
    """term without its sign"""
    if t.decl().kind() == z3.Z3_OP_UMINUS: return t.arg(0), -1
    return t, 1
def neg(a):
    a = fl(a)
    if isinstance(a, float): return -a
    if conc(a): return norm(-a)
    t = toint_t(a.t) if z3.is_bool(a.t) else a.t
    if t.decl().kind() == z3.Z3_OP_UMINUS: return wrap(t.arg(0))
    return wrap(-t)
def norm(x):
    if isinstance(x, bool): return int(x)
    return x
def isreal(x):
    if isinstance(x, S): return z3.is_real(x.t)
    return isinstance(x, (Fraction, float))
def isint(x):
    if isinstance(x, S): return z3.is_int(x.t)
    return isinstance(x, int)
def isboolv(x):
    if isinstance(x, S): return z3.is_bool(x.t)
    return isinstance(x, bool)
def truediv(a, b):
    a, b = fl(a), fl(b)
    if isinstance(b, float):
        if isinstance(a, float) or isnan(b): return math.nan
        return Fraction(0)
    if isinstance(a, float):
        if isnan(a): return a
        return mul(a, b) if not (conc(b) and b == 0) else a
    if conc(b):
        if b == 0:
            if E is not None and E.np_division: 
                E.oblige("division by a nonzero value", False)
                raise PathEnd()
            raise VcRaise("ZeroDivisionError", "division by zero")
        if conc(a): return Fraction(a) / Fraction(b)
        if b == 1: return wrap(toreal_t(lift(a)))
        return wrap(z3.RealVal(str(1 / Fraction(b))) * toreal_t(lift(a)))
    if conc(a) and a == 0: return Fraction(0)
    if E.opaque_arith and not (z3.is_int_value(z3.simplify(lift(b)))) and not conc(b) and isreal(b) and not z3.is_to_real(lift(b)):
        E.assumptions.add("a quotient whose divisor is not shown to be nonzero has some value")
        (x, sx), (y, sy) = unsigned(toreal_t(lift(a))), unsigned(lift(b))
        return wrap(DIVF(x, y) if sx == sy else -DIVF(x, y))
    if E.zero_div_inf:
        c = _cmp("==", b, 0)
        if not E.implied(bnot(c)) and E.decide(c):
            E.assumptions.add("a nonzero value divided by an exactly vanishing one is an infinity of either sign")
            E.oblige("no 0/0", _cmp("!=", a, 0))
            E.assume(_cmp("!=", a, 0))
            return math.inf if E.decide(E.fresh("infsign", "b")) else -math.inf
    E.nonzero(b)
    return wrap(toreal_t(lift(a)) / toreal_t(lift(b)))
def floordiv(a, b):
    if conc(a) and conc(b):
        if b == 0: raise VcRaise("ZeroDivisionError", "integer division by zero")
        r = a // b
        return Fraction(r) if isinstance(a, Fraction) or isinstance(b, Fraction) else r
    if isreal(a) or isreal(b):
        q = truediv(a, b)
        return floor(q, asint=False)
    x, y = _pair(a, b)
    if conc(b):
        if b > 0: return wrap(z3.simplify(x / y))
        return wrap(-((-x) / y)) if False else floordiv(neg(a), -b)
    E.nonzero(b)
    if E.decide(wrap(y > 0)): return wrap(x / y)
    return wrap((-x) / (-y))
def mod(a, b):
    if conc(a) and conc(b):
        if b == 0: raise VcRaise("ZeroDivisionError", "modulo by zero")
        return a % b
    if isreal(a) or isreal(b):
        return sub(a, mul(b, floor(truediv(a, b), asint=False)))
    x, y = _pair(a, b)
    if conc(b) and b > 0: return wrap(x % y)
    E.nonzero(b)
    if E.decide(wrap(y > 0)): return wrap(x % y)
    return wrap(-((-x) % (-y)))
def squares(t):
    """syntactically a sum of products of squares and non-negative constants"""
    k = t.decl().kind() if z3.is_app(t) else None
    if k == z3.Z3_OP_ADD: return all(squares(c) for c in t.children())
    if k == z3.Z3_OP_TO_REAL: return squares(t.arg(0))
    if z3.is_rational_value(t): return t.numerator_as_long() >= 0
    if z3.is_int_value(t): return t.as_long() >= 0
    if k == z3.Z3_OP_MUL:
        left = []
        for c in t.children():
            if squares(c): continue
            i = [j for j, x in enumerate(left) if x.eq(c)]
            if i: left.pop(i[0])
            else: left.append(c)
        return not left
    return False
def power(a, n):
    if conc(a) and isinstance(n, int): 
        return norm(a ** n) if n >= 0 else Fraction(a) ** n
    if isinstance(n, Fraction) and n.denominator == 1:
        n = int(n); a = wrap(toreal_t(lift(a)))
    if isinstance(n, int):
        if n == 0: return 1
        if n < 0: return truediv(1, power(a, -n))
        if n > 16: raise Unsupported("large power")
        r = a
        for _ in range(n - 1): r = mul(r, a)
        return r
    if isinstance(n, Fraction):
        if n == Fraction(1, 2): return sqrt(a)
        if abs(n - Fraction(1, 3)) < Fraction(1, 10**12): return cbrt(a)
    raise Unsupported("power %r" % (n,))
def floor(x, asint=True):
    x = fl(x)
    if isinstance(x, float): return x
    if conc(x):
        r = math.floor(x)
        return r if asint else Fraction(r)
    t = lift(x)
    if z3.is_int(t): return x
    r = E.int_of_real(t, True)
    r = r[0] if r is not None else E.int_quot(t, False)
    if r is None: r = wrap(z3.ToInt(t))
    return r if asint else wrap(toreal_t(lift(r)))
def trunc(x):
    """int(x)"""
    if isinstance(x, float): 
        return int(x)
    if conc(x): return int(x)
    t = lift(x)
    if z3.is_bool(t): return wrap(toint_t(t))
    if z3.is_int(t): return x
    r = E.int_of_real(t, True)
    if r is not None and (r[1] == 0 or E.implied(_cmp(">=", r[0], 0))): return r[0]
    if E.implied(wrap(t >= 0)):
        q = E.int_quot(t, False)
        return q if q is not None else wrap(z3.ToInt(t))
    if E.decide(wrap(t >= 0)): return wrap(z3.ToInt(t))
    return wrap(-z3.ToInt(-t))
def ceil(x, asint=True):
    if conc(x):
        r = math.ceil(x); return r if asint else Fraction(r)
    t = lift(x)
    if z3.is_int(t): return x
    r = E.int_of_real(t)
    if r is None: r = E.int_quot(t, True)
    if r is None: r = wrap(-z3.ToInt(-t))
    return r if asint else wrap(toreal_t(lift(r)))
def rint(x):
    """round half to even (np.around)"""
    if conc(x): return Fraction(round(x))
    t = lift(x)
    if z3.is_int(t): return wrap(toreal_t(t))
    f = z3.ToInt(t)
    d = t - z3.ToReal(f)
    h = z3.RealVal("1/2")
    r = z3.If(d < h, f, z3.If(d > h, f + 1, z3.If(f % 2 == 0, f, f + 1)))
    return wrap(z3.ToReal(r))

def _cmp(op, a, b):
    a, b = fl(a), fl(b)
    if isinstance(a, float) or isinstance(b, float):
        # only infinities reach here
        fa = a if isinstance(a, float) else None
        fb = b if isinstance(b, float) else None
        if fa is not None and fb is not None or (conc(a) or fa is not None) and (conc(b) or fb is not None):
            return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
        inf = fa if fa is not None else fb
        if math.isnan(inf): return op == "!="
        # symbolic reals are finite
        if op == "==": return False
        if op == "!=": return True
        bigleft = (fa is not None and inf > 0) or (fb is not None and inf < 0)
        return (op in (">", ">=")) if bigleft else (op in ("<", "<="))
    if conc(a) and conc(b):
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b, "==": a == b, "!=": a != b}[op]
    if isboolv(a) and isboolv(b) and op in ("==", "!="):
        x, y = lift(a), lift(b)
        return wrap(x == y) if op == "==" else wrap(z3.simplify(x != y))
    if E is not None and E.idealize and not E.in_spec and op in ("<", "<=", ">", ">="):
        # machine-epsilon and overflow style cut-offs are idealised to 0 and +infinity
        if conc(a): a, b, op = b, a, {"<": ">", "<=": ">=", ">": "<", ">=": "<="}[op]
        if isreal(a) and not isinstance(b, Fraction) and isinstance(b, S) and isinstance(a, S):
            n, d = E.pctx.rat(toreal_t((a.t - b.t) if z3.is_real(b.t) else a.t - z3.ToReal(b.t)))
            c = n.const_val() / d.const_val() if d.is_const() else 0
            if c and abs(c) <= Fraction(2, 10**6) and any(m == ((E.pctx.atom(E.PI.t), 1),) for m in n.d):
                E.assumptions.add("tolerances of at most 2e-6 rad added to a multiple of pi are treated as the limit 0")
                # a - b = rest + c  op 0
                op = ({"<": "<", "<=": "<", ">": ">=", ">=": ">="} if c > 0 else {"<": "<=", "<=": "<=", ">": ">", ">=": ">"})[op]
                n = n - Poly.const(n.const_val())
                t = E.pctx.to_z3(n)
                z = z3.RealVal(0)
                return wrap({"<": t < z, "<=": t <= z, ">": t > z, ">=": t >= z}[op] if d.const_val() > 0 else {"<": t > z, "<=": t >= z, ">": t < z, ">=": t <= z}[op])
        if isinstance(b, Fraction) and isreal(a):
            if 0 < abs(b) <= TINY:
                E.assumptions.add("cut-offs of magnitude <= 1e-9 in comparisons are treated as the limit 0")
                op = ({"<": "<=", "<=": "<=", ">": ">", ">=": ">"} if b > 0 else {"<": "<", "<=": "<", ">": ">=", ">=": ">="})[op]
                b = Fraction(0)
            elif 0 < abs(b - round(b)) <= TINY:
                E.assumptions.add("cut-offs within 1e-9 of an integer in comparisons are treated as that integer")
                below = b < round(b)
                op = ({"<": "<", "<=": "<", ">": ">=", ">=": ">="} if below else {"<": "<=", "<=": "<=", ">": ">", ">=": ">"})[op]
                b = Fraction(round(b))
            elif abs(b) >= HUGE:
                E.assumptions.add("cut-offs of magnitude >= 1e9 in comparisons are treated as infinite")
                return (op in ("<", "<=")) if b > 0 else (op in (">", ">="))
    if conc(b) and b == 0 and isinstance(a, S) and E is not None and a.t.get_id() in E.absof and op in ("<=", ">", "==", "!="):
        return _cmp("==" if op in ("<=", "==") else "!=", E.absof[a.t.get_id()], 0)
    x, y = _pair(a, b)
    u, v = int_under(x), int_under(y)
    if u is not None and v is not None: x, y = u, v
    if x.eq(y): return op in ("<=", ">=", "==")
    r = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": z3.Not(x == y)}[op]
    return wrap(r)

def int_under(t):
    """the integer a real term is the conversion of"""
    if z3.is_app(t) and t.decl().kind() == z3.Z3_OP_TO_REAL: return t.arg(0)
    if z3.is_rational_value(t) and t.denominator_as_long() == 1: return z3.IntVal(t.numerator_as_long())
    return None
def bnot(a):
    if isinstance(a, bool): return not a
    t = tobool(a)
    return (not t) if isinstance(t, bool) else wrap(z3.Not(t.t))
def tobool(a):
    if isinstance(a, bool): return a
    if isinstance(a, S):
        if z3.is_bool(a.t): return a
        return _cmp("!=", a, 0)
    return bool(a)
def band(a, b):
    a, b = tobool(a), tobool(b)
    if a is True: return b
    if b is True: return a
    if a is False or b is False: return False
    return wrap(z3.And(a.t, b.t))
def bor(a, b):
    a, b = tobool(a), tobool(b)
    if a is False: return b
    if b is False: return a
    if a is True or b is True: return True
    return wrap(z3.Or(a.t, b.t))
def bxor(a, b):
    a, b = tobool(a), tobool(b)
    if conc(a) and conc(b): return a != b
    return wrap(z3.Xor(lift(a), lift(b)))
def ite(c, a, b):
    c = tobool(c)
    if c is True: return a
    if c is False: return b
    if a is b: return a
    if E is not None:
        v = E.lookup(c.t)
        if v is not None: return a if v else b
    if isinstance(a, float) or isinstance(b, float):
        return a if E.decide(c) else b
    if conc(a) and conc(b) and a == b and type(a) == type(b): return a
    x, y = lift(a), lift(b)
    if z3.is_bool(x) and z3.is_bool(y):
        return wrap(z3.If(c.t, x, y))
    x, y = _pair(a, b)
    if x.eq(y): return wrap(x)
    return wrap(z3.If(c.t, x, y))
def sabs(a):
    if isinstance(a, float): return abs(a)
    if conc(a): return abs(a)
    r = ite(_cmp(">=", a, 0), a, neg(a))
    if isinstance(r, S) and E is not None: E.absof[r.t.get_id()] = a; E.keep(r.t)
    return r
def smin(a, b):
    if conc(a) and conc(b): return min(a, b)
    return ite(_cmp("<=", a, b), a, b)
def smax(a, b):
    if conc(a) and conc(b): return max(a, b)
    return ite(_cmp(">=", a, b), a, b)

def arr_eq(a, b):
    if conc(a) and conc(b): return a == b
    c = _cmp("==", a, b)
    return c if isinstance(c, bool) else bool(E.implied(c))
def sqrt(a): return E.sqrt(a)
def cbrt(a): return E.cbrt(a)

_R = z3.RealSort()
SQRT, CBRT, ACOS, ATAN, COS, SIN, EXP = [z3.Function(n, _R, _R) for n in ("SQRT", "CBRT", "ACOS", "ATAN", "COS", "SIN", "EXP")]
ATAN2, MULF, DIVF = [z3.Function(n, _R, _R, _R) for n in ("ATAN2", "MULF", "DIVF")]
IDIV, IMOD, ICEIL = [z3.Function(n, z3.IntSort(), z3.IntSort(), z3.IntSort()) for n in ("IDIV", "IMOD", "ICEIL")]
class S:
    """symbolic scalar"""
    __slots__ = ("t",)
    __array_priority__ = 1000
    def __init__(self, t): self.t = t
    def __add__(s, o): return _nd(add, s, o)
    def __radd__(s, o): return _nd(add, o, s)
    def __sub__(s, o): return _nd(sub, s, o)
    def __rsub__(s, o): return _nd(sub, o, s)
    def __mul__(s, o): return _nd(mul, s, o)
    def __rmul__(s, o): return _nd(mul, o, s)
    def __truediv__(s, o): return _nd(truediv, s, o)
    def __rtruediv__(s, o): return _nd(truediv, o, s)
    def __floordiv__(s, o): return _nd(floordiv, s, o)
    def __rfloordiv__(s, o): return _nd(floordiv, o, s)
    def __mod__(s, o): return _nd(mod, s, o)
    def __rmod__(s, o): return _nd(mod, o, s)
    def __pow__(s, o): return _nd(power, s, o)
    def __neg__(s): return neg(s)
    def __pos__(s): return s
    def __abs__(s): return sabs(s)
    def __lt__(s, o): return _nd(lambda a, b: _cmp("<", a, b), s, o)
    def __le__(s, o): return _nd(lambda a, b: _cmp("<=", a, b), s, o)
    def __gt__(s, o): return _nd(lambda a, b: _cmp(">", a, b), s, o)
    def __ge__(s, o): return _nd(lambda a, b: _cmp(">=", a, b), s, o)
    def __eq__(s, o):
        if o is None or isinstance(o, (str, tuple, list, dict)): return False
        return _nd(lambda a, b: _cmp("==", a, b), s, o)
    def __ne__(s, o):
        if o is None or isinstance(o, (str, tuple, list, dict)): return True
        return _nd(lambda a, b: _cmp("!=", a, b), s, o)
    def __and__(s, o): return _nd(_and, s, o)
    def __rand__(s, o): return _nd(_and, o, s)
    def __or__(s, o): return _nd(_or, s, o)
    def __ror__(s, o): return _nd(_or, o, s)
    def __invert__(s):
        if z3.is_bool(s.t): return bnot(s)
        raise Unsupported("bitwise not")
    def __lshift__(s, o):
        if isinstance(o, int): return mul(s, 2 ** o)
        raise Unsupported("shift")
    def __rshift__(s, o):
        if isinstance(o, int): return floordiv(s, 2 ** o)
        raise Unsupported("shift")
    def __hash__(s): return hash(s.t.get_id())
    def __bool__(s): return E.decide(tobool(s))
    def __index__(s):
        raise Unsupported("symbolic value used where a concrete integer is needed")
    __int__ = __index__
    def __float__(s): raise Unsupported("float() of symbolic value")
    def __repr__(s): return "S(%s)" % (str(s.t)[:80])
    # text: a symbolic value printed becomes a token of six characters standing for its digits
    def __str__(s): return s.__format__("")
    def __format__(s, spec):
        tx = getattr(E, "texts", None)
        if tx is None: return repr(s)
        tx.append((s, spec))
        if len(tx) > 6000: raise Unsupported("too many values printed")
        return chr(0xE000 + len(tx) - 1) * 6
    def astype(s, dt, **k):
        from . import arrays
        return arrays.cast(s, arrays.as_dtype(dt))
    def item(s): return s

def _and(a, b):
    if isboolv(a) and isboolv(b): return band(a, b)
    for x, y in ((a, b), (b, a)):    # mask of the lowest bits (two's complement)
        if type(x) is int and x >= 0 and x & (x + 1) == 0 and isinstance(y, S) and z3.is_int(y.t): return mod(y, x + 1)
    raise Unsupported("bitwise and")
def _or(a, b):
    if isboolv(a) and isboolv(b): return bor(a, b)
    raise Unsupported("bitwise or")

def _nd(f, a, b):
    from . import arrays
    for x in (a, b):
        if isinstance(x, arrays.ARR):
            return arrays.elementwise(f, a, b)
    return f(a, b)

# ---------------------------------------------------------------- engine
def ratsqrt(q):
    q = Fraction(q)
    a, b = math.isqrt(q.numerator), math.isqrt(q.denominator)
    return Fraction(a, b) if a * a == q.numerator and b * b == q.denominator else None

class Obl:
    __slots__ = ("name", "hyps", "goal", "poly", "extra", "status", "by", "time", "model", "reason")
    def __init__(self, name, hyps, goal, poly, extra=None):
        self.name, self.hyps, self.goal, self.poly = name, hyps, goal, poly
        self.extra = extra
        self.status = None; self.by = None; self.time = 0; self.model = None; self.reason = ""

class Engine:
    def __init__(self, name="", prune_ms=400, maxpaths=400, tmo_ms=20000, **opts):
        self.name = name
        self.idealize = True
        self.in_spec = False
        self.np_division = False
        self.zero_div_inf = False
        self.wrap_obligations = False
        self.numba_index = False
        self.maxdeg = None          # products of higher degree become opaque (equal ones share a name)
        self.opaque_arith = False   # products and quotients of reals are uninterpreted
        self.opaque_sqrt = False    # square roots known to be non-negative only
        self.opaque_arc = False     # arccos known by its range only
        self.squeeze_generic = True
        self.interp_rule = None
        self.sum_keep = False; self.while_div = None
        self.collapse = False       # content of the rows of a loop taken from its general form also at the arbitrary iteration's own index
        self.noise_mask = False     # zeroing entries below a threshold is the identity
        self.loopmode = {}
        self.loopinfo = {}
        self.invariants = {}
        self.restarts = 0
        for k, v in opts.items(): setattr(self, k, v)
        self.obls = []
        self.paths = 0
        self.prune_ms, self.maxpaths, self.tmo_ms = prune_ms, maxpaths, tmo_ms
        self.assumptions = set()
        self.reached = 0
        self.check_bounds = True
        self.solver_time = 0.0
        self.deadline = None
    # ---- exploration
    def explore(self, thunk):
        """run thunk(engine) on every feasible path"""
        global E
        pend = [[]]
        while pend:
            prefix = pend.pop()
            self.paths += 1
            if self.paths > self.maxpaths: raise Unsupported("too many paths (> %d)" % self.maxpaths)
            if self.deadline and time.time() > self.deadline: raise Unsupported("time limit")
            self._start(prefix)
            old, E = E, self
            try:
                thunk(self)
            except PathEnd:
                pass
            except Restart:
                self.restarts += 1
                if self.restarts > 40: raise Unsupported("loop analysis does not converge")
                pend, self.obls, self.paths = [[]], [], 0
                continue
            finally:
                E = old
            pend.extend(self._alts)
    def _start(self, prefix):
        self.prefix = prefix
        self.trace = []
        self._alts = []
        self.pc = []
        self.facts = []
        self.pctx = Ctx()
        self.solver = z3.Solver()
        self.solver.set("timeout", self.prune_ms)
        self.n = 0
        self.probing = False
        self.loops = []
        self.stores = []
        self.rows = {}
        self.prods = {}
        self.lins = {}
        self.sums = []
        self.sumfacts = []
        self.subexp = []
        self.cstamp = 0
        self.ticks = {}
        self.maxticks = 2000
        self.nz2s, self.sorts, self.hard, self.sortmemo = [], [], {}, []
        self._keep = []
        self.stamp = 0
        self.sqrts = []      # list of (radicand Poly num, den, atom S)
        self.angle = {}      # poly-atom id -> dict(kind, x=..)
        self.hints = []
        self.known = {}      # z3 id -> True/False of decided conditions
        self.ghost = {}
        self.active = [0]; self.strict_sums = False
        self.args = []; self.exts = []; self.nzs = []; self.objinv = {}; self.hav = None; self.hav_merge = False; self.find_contents = None; self.find_while = None; self.on_value = None; self.texts = None
        self.posatoms, self.nzatoms = set(), set()
        self.absof = {}
        self.lf = self.lp = 0; self.scopes_z = []
        self.scopes = []
        self.lin_reset()
        self.PI = S(z3.Real("PI"))
        self.fact(self.PI.t > z3.RealVal("3.14159265358979"))
        self.fact(self.PI.t < z3.RealVal("3.14159265358980"))
    def fresh(self, name, sort="r"):
        self.n += 1
        nm = "%s!%d" % (name, self.n)
        return S({"r": z3.Real, "i": z3.Int, "b": z3.Bool}[sort](nm))
    def const(self, name, sort="r"):
        return S({"r": z3.Real, "i": z3.Int, "b": z3.Bool}[sort](name))
    def fact(self, t):
        if isinstance(t, S): t = t.t
        if t is True: return
        if t is False: t = z3.BoolVal(False)
        self.facts.append(t)
        self.solver.add(t)
        self.note_sign(t)
    def assume(self, c):
        """precondition / path assumption"""
        c = tobool(c)
        if c is True: return
        if c is False: raise PathEnd()
        self._push(c.t)
    def _push(self, t):
        self.pc.append(t)
        self.solver.add(t)
        self.note_sign(t)
        self.known[t.get_id()] = True
        s = z3.simplify(t)
        self.known[s.get_id()] = True
        self._keep += [t, s]
        if z3.is_and(t):
            for c in t.children():
                self.known[c.get_id()] = True; self._keep.append(c)
    def keep(self, t): self._keep.append(t)
    def oob(self, msg):
        if not self.probing: self.oblige("array index within bounds (%s)" % msg, False)
    def decide_bounds(self, i, n):
        c = band(_cmp(">=", i, 0), _cmp("<", i, n))
        if c is True or self.implied(c): return
        self.oblige("array index within bounds", c); self.assume(c)
    def concretize(self, v, n):
        if conc(v): return int(v)
        self.decide_bounds(v, n)
        for q in range(n):
            if self.decide(_cmp("==", v, q)): return q
        raise PathEnd()
    # ---- products of dimensions
    def prod_dim(self, a, b):
        if conc(a) and a == 1: return b
        if conc(b) and b == 1: return a
        r = mul(a, b)
        if isinstance(r, S):
            self.prods[r.t.get_id()] = self.dim_factors(a) + self.dim_factors(b); self.keep(r.t)
        return r
    def dim_factors(self, a):
        if conc(a): return [] if a == 1 else [a]
        k = a.t.get_id()
        if k in self.prods: return self.prods[k]
        if z3.is_mul(a.t):
            out = []
            for c in a.t.children(): out += self.dim_factors(wrap(c))
            return out
        s = z3.simplify(a.t)
        for k2, f in self.prods.items():
            pass
        return [a]
    def divides_dims(self, fa, fb):
        """do the factors fa divide fb (as multisets, syntactically)"""
        return self._divdims(fb, fa) is not None
    def _divdims(self, num, den):
        c = Fraction(1); rest = []
        for f in num:
            if conc(f): c *= f
            else: rest.append(f)
        for f in den:
            if conc(f): c /= f
            else:
                for i, g in enumerate(rest):
                    if g.t.eq(f.t) or self.implied(_cmp("==", g, f)): rest.pop(i); break
                else: return None
        if c.denominator != 1: return None
        return int(c), rest
    def div_dims(self, num, den):
        fn = [g for d in num for g in self.dim_factors(d)]
        fd = [g for d in den for g in self.dim_factors(d)]
        r = self._divdims(fn, fd)
        if r is None: raise Unsupported("reshape(-1): cannot divide dimensions")
        c, rest = r
        out = 1
        for g in rest: out = self.prod_dim(out, g)
        return self.prod_dim(out, c) if c != 1 else out
    def div_exact(self, a, b):
        """a/b as an integer when the factors of b divide those of a"""
        if conc(a) and conc(b): return a // b if b and a % b == 0 else None
        r = self._divdims(self.dim_factors(a), self.dim_factors(b))
        if r is None: return None
        out = 1
        for g in r[1]: out = self.prod_dim(out, g)
        return self.prod_dim(out, r[0]) if r[0] != 1 else out
    def lin_idx(self, p, B, b):
        if conc(p) and conc(B) and conc(b): return p * B + b
        r = add(mul(p, B), b)
        if isinstance(r, S):
            self.lins.setdefault(r.t.get_id(), []).append((p, B, b)); self.keep(r.t)
        return r
    def divmod_idx(self, m, B):
        if conc(m) and conc(B): return m // B, m % B
        if conc(B) and B == 1: return m, 0
        if isinstance(m, S):
            for p, B2, b in self.lins.get(m.t.get_id(), []):
                if (conc(B) and conc(B2) and B == B2) or (not conc(B) and not conc(B2) and self.implied(_cmp("==", B, B2))):
                    return p, b
        r = self._split_by(m, B)
        if r is not None: return r
        key = ("dm", lift(m).get_id(), lift(B).get_id())
        if key not in self.ghost:
            # quotient and remainder as functions of (m, B), so that they stay functions of a summation index
            p, b = S(IDIV(lift(m), lift(B))), S(IMOD(lift(m), lift(B)))
            self.fact(lift(m) == p.t * lift(B) + b.t)
            self.fact(z3.And(b.t >= 0, b.t < lift(B)))
            self.fact(z3.Implies(lift(m) >= 0, p.t >= 0))
            self.ghost[key] = (p, b); self.keep(lift(m)); self.keep(lift(B))
        return self.ghost[key]
    def _split_by(self, m, B):
        """m = p*B + b read off the normal form, when 0 <= b < B follows"""
        if conc(m) or conc(B): return None
        try: n, d = self.nf(lift(m)); nb, db = self.nf(lift(B))
        except TooBig: return None
        if not (d.is_const() and db.is_const()): return None
        for lead, vb in sorted(nb.d.items(), reverse=True):
            mb = dict(lead); vb = vb / db.const_val()
            if not mb: continue
            p, b = {}, {}
            for q, c in n.d.items():
                c = c / d.const_val()
                q_ = dict(q)
                if all(q_.get(a, 0) >= e for a, e in mb.items()) and (c / vb).denominator == 1:
                    p[tuple(sorted((a, e - mb.get(a, 0)) for a, e in q_.items() if e > mb.get(a, 0)))] = c / vb
                else: b[q] = c
            if not p: continue
            if len(nb.d) > 1: b = (n.scale(1 / d.const_val()) - Poly(p) * nb.scale(1 / db.const_val())).d
            if not all(z3.is_int(self.pctx.terms[a]) for a in Poly(p).atoms() | Poly(b).atoms()): continue
            if any(Fraction(c).denominator != 1 for c in b.values()): continue
            if len(b) >= len(n.d): continue
            P, R = self.int_of_real(self.pctx.to_z3(Poly(p))), self.int_of_real(self.pctx.to_z3(Poly(b)))
            if P is None or R is None: continue
            if self.implied(_cmp(">=", R, 0)) and self.implied(_cmp("<", R, B)): return P, R
        return None
    # ---- focus rows
    def row(self, lo, n):
        """the arbitrary-but-fixed index of the range [lo, n)"""
        for l2, n2, k in self.rows.values():
            if arr_eq(l2, lo) and arr_eq(n2, n): return k
        k = self.fresh("row", "i")
        self.rows[len(self.rows)] = (lo, n, k)
        self.fact(lift(_cmp(">=", k, lo))); self.fact(lift(_cmp("<", k, n)))
        return k
    def lookup(self, t):
        if self.known.get(t.get_id()): return True
        s = z3.simplify(t)
        if z3.is_true(s): return True
        if z3.is_false(s): return False
        if self.known.get(s.get_id()): return True
        ns = z3.simplify(z3.Not(s))
        if self.known.get(ns.get_id()): return False
        return None
    def sat(self, *cs):
        t0 = time.time()
        self.solver.push()
        for c in cs: self.solver.add(c)
        r = self.solver.check()
        self.solver.pop()
        self.solver_time += time.time() - t0
        return r
    def sorted_vals(self, vals):
        """the values (at most three) in ascending order; the same constants for the same multiset of values"""
        import itertools
        m = len(vals)
        if m == 1: return list(vals)
        P = list(itertools.permutations(range(m)))
        for old, s in self.sortmemo:
            if len(old) == m and any(all(self.implied(_cmp("==", vals[p[i]], old[i])) for i in range(m)) for p in P): return s
        s = [self.fresh("asc") for _ in range(m)] if any(isreal(v) for v in vals) else [self.fresh("asc", "i") for _ in range(m)]
        self.fact(z3.And(*[s[i].t <= s[i + 1].t for i in range(m - 1)]))
        self.fact(z3.Or(*[z3.And(*[lift(_cmp("==", s[i], vals[p[i]])) for i in range(m)]) for p in P]))
        self.sortmemo.append((list(vals), s))
        return s
    def implied(self, c, ms=None, light=False):
        """True if c provably follows on this path"""
        c = tobool(c)
        if isinstance(c, bool): return c
        r = self.lookup(c.t)
        if r is not None: return r
        if ms: self.solver.set("timeout", ms)
        q = self.infeasible(z3.Not(c.t), not self.probing, light)
        if ms: self.solver.set("timeout", self.prune_ms)
        return q
    def hardreal(self, h):
        """contains a product or quotient of real terms"""
        r = self.hard.get(h.get_id())
        if r is None:
            r = any(z3.is_real(x) and z3.is_app(x) and (x.decl().kind() == z3.Z3_OP_DIV and not z3.is_rational_value(x.arg(1)) or x.decl().kind() == z3.Z3_OP_MUL and sum(not z3.is_rational_value(y) for y in x.children()) > 1) for x in _subterms([h]))
            self.hard[h.get_id()] = r; self.keep(h)
        return r
    def infeasible(self, c, abstract=True, light=False):
        """True if c contradicts this path (light: facts with products of reals may be left out)"""
        if self.intonly(c):
            r = self.int_refutes(c)
            if r == z3.unsat: return True
            if r == z3.sat: return False
            hs = relevant(self.facts + self.pc, c)
            easy = [h for h in hs if not self.hardreal(h)]
            if len(easy) < len(hs):
                s = z3.Solver(); s.set("timeout", self.prune_ms)
                for h in easy: s.add(h)
                s.add(c); r = s.check()
                if r == z3.unsat: return True
                if light and r == z3.sat: return False
            s = z3.Solver(); s.set("timeout", self.prune_ms)
            t0 = time.time()
            for h in hs: s.add(h)
            s.add(c); r = s.check()
            self.solver_time += time.time() - t0
            if r == z3.unsat: return True
            if r == z3.sat: return False
        n = self.norm_cond(c)
        if self.linear_refutes(c): return True
        r = self.sat(c) if n is None else self.sat(c, n)
        if r == z3.unknown and abstract:
            try:
                return self.abstract_implied(z3.Not(c))
            except z3.Z3Exception:
                return False
        return r == z3.unsat
    def intonly(self, c):
        return not any(z3.is_real(x) for x in _subterms([c]))
    def int_sync(self):
        """feed new facts and path conditions without real terms to the integer solver"""
        for lst, key in ((self.facts, "zf"), (self.pc, "zp")):
            for t in lst[self.__dict__[key]:]:
                if self.intonly(t): self.zs.add(t)
                else: self.mixed.append(t)
            self.__dict__[key] = len(lst)
    def int_refutes(self, c):
        self.int_sync()
        t0 = time.time()
        self.zs.push(); self.zs.add(c); r = self.zs.check(); self.zs.pop()
        self.solver_time += time.time() - t0
        if r == z3.sat:
            cs = consts_of(c)
            if any(cs & consts_of(h) for h in self.mixed): return None
        return r
    # ---- linear arithmetic over monomials of the normal form
    def lin_reset(self):
        self.ls = z3.Solver(); self.ls.set("timeout", 1000)
        self.zs = z3.Solver(); self.zs.set("timeout", self.prune_ms); self.zf = self.zp = 0; self.mixed = []
        self.lmono, self.lmemo, self.lpending = {}, {}, 0
    def lin_sync(self):
        """feed new facts and path conditions to the linear solver"""
        for lst, key in ((self.facts, "lf"), (self.pc, "lp")):
            k = self.__dict__.get(key, 0)
            for t in lst[k:]: self.ls.add(self.linz(t))
            self.__dict__[key] = len(lst)
    def lmon(self, m, isint):
        k = (m, isint)
        v = self.lmono.get(k)
        if v is None:
            if len(m) == 1 and m[0][1] == 1:
                t = self.pctx.terms[m[0][0]]
                if z3.is_const(t): v = t
                else:
                    v = (z3.Int if z3.is_int(t) else z3.Real)("lin!a%d" % m[0][0])
                    if t.decl().kind() == z3.Z3_OP_ITE and z3.is_arith(t):
                        self.lmono[k] = v
                        c = self.linz(t.arg(0))
                        self.ls.add(z3.Implies(c, self.linz_eq(v, t.arg(1))), z3.Implies(z3.Not(c), self.linz_eq(v, t.arg(2))))
            else:
                ints = all(z3.is_int(self.pctx.terms[a]) for a, _ in m)
                v = (z3.Int if ints else z3.Real)("lin!m" + "_".join("%d.%d" % x for x in m))
                if all(e % 2 == 0 for _, e in m): self.ls.add(v >= 0)
            if z3.is_int(v) and not isint: v = z3.ToReal(v)
            self.lmono[k] = v
        return v
    def linpoly(self, p, isint):
        ts = []
        for m, c in sorted(p.d.items()):
            if m == (): ts.append(z3.IntVal(int(c)) if isint else z3.RealVal(str(c))); continue
            v = self.lmon(m, isint)
            ts.append(v if c == 1 else (z3.IntVal(int(c)) if isint else z3.RealVal(str(c))) * v)
        if not ts: return z3.IntVal(0) if isint else z3.RealVal(0)
        return ts[0] if len(ts) == 1 else z3.Sum(ts)
    def linz_eq(self, v, t):
        n, d = self.pctx.rat(t)
        if not d.is_const(): return z3.BoolVal(True)
        n = self.pctx.reduce(n).scale(1 / d.const_val())
        isint = z3.is_int(v) and self._intpoly(n)
        if z3.is_int(v) and not isint: v = z3.ToReal(v)
        return v == self.linpoly(n, isint)
    def _intpoly(self, p):
        return all(c.denominator == 1 for c in p.d.values()) and all(z3.is_int(self.pctx.terms[a]) for a in p.atoms())
    def linz(self, t):
        k = t.get_id()
        r = self.lmemo.get(k)
        if r is None:
            r = self._linz(t); self.lmemo[k] = r; self._keep.append(t)
        return r
    def _linz(self, t):
        kd = t.decl().kind() if z3.is_app(t) else None
        if kd in (z3.Z3_OP_AND, z3.Z3_OP_OR, z3.Z3_OP_NOT, z3.Z3_OP_IMPLIES, z3.Z3_OP_XOR, z3.Z3_OP_TRUE, z3.Z3_OP_FALSE) or (kd in (z3.Z3_OP_ITE, z3.Z3_OP_EQ) and z3.is_bool(t.arg(t.num_args() - 1))):
            if t.num_args() == 0: return t
            ch = [self.linz(c) for c in t.children()]
            return {z3.Z3_OP_AND: z3.And, z3.Z3_OP_OR: z3.Or, z3.Z3_OP_NOT: z3.Not, z3.Z3_OP_IMPLIES: z3.Implies, z3.Z3_OP_XOR: z3.Xor, z3.Z3_OP_ITE: z3.If}.get(kd, lambda a, b: a == b)(*ch)
        ops = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}
        if kd in ops and z3.is_arith(t.arg(0)):
            try:
                a, b = t.arg(0), t.arg(1)
                n, d = self.pctx.rat(a - b)
                if len(n.d) > 3000 or len(d.d) > 300: raise TooBig()
                n, d = self.pctx.reduce(n), self.pctx.reduce(d)
                if d.is_const(): n = n.scale(1 / d.const_val())
                elif ops[kd] != "==": n = self.pctx.reduce(n * d)
                n = self.positive_content(n)
                if len(n.d) > 400: raise TooBig()
                isint = z3.is_int(a) and self._intpoly(n)
                x = self.linpoly(n, isint); z = z3.IntVal(0) if isint else z3.RealVal(0)
                return {"<=": x <= z, "<": x < z, ">=": x >= z, ">": x > z, "==": x == z}[ops[kd]]
            except TooBig:
                pass
        if z3.is_const(t): return t
        return z3.Bool("lin!b%d" % t.get_id())
    def positive_content(self, p):
        """divide out common factors that are known to be positive"""
        if not p.d: return p
        ms = [dict(m) for m in p.d]
        com = {a: min(m.get(a, 0) for m in ms) for a in ms[0]}
        drop = {}
        for a, e in com.items():
            if e <= 0: continue
            if a in self.posatoms: drop[a] = e
            elif a in self.nzatoms and e >= 2: drop[a] = e - e % 2
        if not drop: return p
        out = {}
        for m, c in p.d.items():
            out[tuple((a, e - drop.get(a, 0)) for a, e in m if e - drop.get(a, 0))] = c
        return Poly(out)
    def linear_refutes(self, *cs):
        self.lin_sync()
        t0 = time.time()
        self.ls.push()
        for c in cs: self.ls.add(self.linz(c))
        r = self.ls.check()
        self.ls.pop()
        self.solver_time += time.time() - t0
        return r == z3.unsat
    @property
    def nscope0(self): return len(self.active)
    def scope_push(self):
        self.lin_sync(); self.int_sync(); self.zs.push()
        self.scopes_z.append((self.zf, self.zp, len(self.mixed), len(self.sortmemo)))
        g = {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else set(v) if isinstance(v, set) else v) for k, v in self.ghost.items()}
        self.scopes.append((list(self.facts), list(self.pc), dict(self.known), set(self.posatoms), set(self.nzatoms), dict(self.pctx.rel), self.lf, self.lp,
                            dict(self.lmono), dict(self.lmemo), list(self.sqrts), dict(self.angle), g))
        self.nscope = getattr(self, "nscope", 0) + 1; self.active.append(self.nscope)
        self.solver.push(); self.ls.push()
    def scope_pop(self):
        self.active.pop()
        self.solver.pop(); self.ls.pop(); self.zs.pop()
        self.zf, self.zp, k, ks = self.scopes_z.pop(); del self.mixed[k:]; del self.sortmemo[ks:]
        (self.facts, self.pc, self.known, self.posatoms, self.nzatoms, rel, self.lf, self.lp, self.lmono, self.lmemo, self.sqrts, self.angle, self.ghost) = self.scopes.pop()
        self.pctx.rel = rel
    def guarded(self, c, thunk):
        """value of thunk where c holds (used by the caller under c only): what it assumes and establishes is kept under c"""
        c = tobool(c)
        q = c if isinstance(c, bool) else self.lookup(c.t)
        if q is True: return thunk()
        if q is False: return 0
        self.scope_push()
        dead = False
        try:
            self.assume(c)
            nf, npc = len(self.facts), len(self.pc)
            try: v = thunk()
            except PathEnd: dead = True     # c contradicts the path: the value is not used
            new = self.facts[nf:] + self.pc[npc:]
        finally: self.scope_pop()
        if dead:
            self._push(z3.Not(c.t)); return 0
        for t in new: self.fact(z3.Implies(c.t, t))
        return v
    def note_sign(self, t):
        """remember atoms known positive / nonzero / zero"""
        neg_ = False
        while z3.is_not(t): t, neg_ = t.arg(0), not neg_
        if z3.is_and(t) and not neg_:
            for c in t.children(): self.note_sign(c)
            return
        if not (z3.is_app(t) and t.num_args() == 2 and z3.is_arith(t.arg(0))): return
        k = t.decl().kind()
        try: n, d = self.pctx.rat(t.arg(0) - t.arg(1))
        except TooBig: return
        if not d.is_const() or len(n.d) != 1: return
        (m, c), = n.d.items()
        if len(m) != 1: return
        a, e = m[0]
        c = c / d.const_val()
        if k == z3.Z3_OP_EQ:
            if neg_: self.nzatoms.add(a)
            else:
                old = self.pctx.rel.get(a)
                self.pctx.rel[a] = (1, Poly())
                if old is not None and old[0] > 1:
                    r = self.pctx.reduce(old[1])      # the old relation now says r == 0
                    for m, v in sorted(r.d.items(), reverse=True):
                        if len(m) == 1 and m[0][1] == 2 and m[0][0] not in self.pctx.rel and not any(x[0] == m[0][0] for mm in r.d for x in mm if mm != m):
                            self.pctx.rel[m[0][0]] = (2, (Poly({m: v}) - r).scale(1 / v)); break
            return
        if neg_: k = {z3.Z3_OP_LE: z3.Z3_OP_GT, z3.Z3_OP_LT: z3.Z3_OP_GE, z3.Z3_OP_GE: z3.Z3_OP_LT, z3.Z3_OP_GT: z3.Z3_OP_LE}.get(k)
        if k in (z3.Z3_OP_GT, z3.Z3_OP_LT):
            self.nzatoms.add(a)
            if (k == z3.Z3_OP_GT) == (c > 0) and e % 2: self.posatoms.add(a)
    def norm_cond(self, t):
        """the same comparison between polynomial normal forms"""
        neg_ = False
        while z3.is_not(t): t, neg_ = t.arg(0), not neg_
        if not (z3.is_app(t) and t.num_args() == 2 and z3.is_real(t.arg(0))) : return None
        k = t.decl().kind()
        ops = {z3.Z3_OP_LE: "<=", z3.Z3_OP_LT: "<", z3.Z3_OP_GE: ">=", z3.Z3_OP_GT: ">", z3.Z3_OP_EQ: "=="}
        if k not in ops or not self.pctx.rel: return None
        try:
            n, d = self.pctx.rat(t.arg(0) - t.arg(1))
            if not d.is_const() or len(n.d) > 3000: return None
            r = self.pctx.reduce(n)
            if len(r.d) > 400: return None
        except TooBig:
            return None
        if d.const_val() < 0: r = -r
        x, z = self.pctx.to_z3(r), z3.RealVal(0)
        q = {"<=": x <= z, "<": x < z, ">=": x >= z, ">": x > z, "==": x == z}[ops[k]]
        return z3.Not(q) if neg_ else q
    def abstract_implied(self, g):
        """retry with shared compound subterms replaced by fresh constants (a generalisation, hence sound)"""
        hy = list(self.facts) + list(self.pc)
        t0 = time.time()
        try:
            return abstract_check(hy, g, self.prune_ms)
        finally:
            self.solver_time += time.time() - t0
    def decide(self, c):
        c = tobool(c)
        if isinstance(c, bool): return c
        r = self.lookup(c.t)
        if r is not None: return r
        i = len(self.trace)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.trace.append(v)
            self._push(c.t if v else z3.Not(c.t))
            return v
        pt = not self.infeasible(c.t)
        pf = not self.infeasible(z3.Not(c.t))
        if not pt and not pf: raise PathEnd()
        if pt and pf:
            self._alts.append(self.trace + [False])
            v = True
        else:
            v = pt
        self.trace.append(v)
        self._push(c.t if v else z3.Not(c.t))
        return v
    def nonzero(self, b):
        """division: fork on zero; the zero side is a float division (inf/nan), reported as obligation"""
        c = _cmp("!=", b, 0)
        if c is True: return
        if c is False: raise VcRaise("ZeroDivisionError", "division by zero")
        if self.lookup(c.t) is True: return
        if self.implied(c):
            self.known[c.t.get_id()] = True; self.keep(c.t)
            return
        if self.while_div and "in_while" in self.ghost:
            self.assumptions.add(self.while_div); self.assume(c); return
        self.oblige("division by a nonzero value", c)
        self._push(c.t)
    # ---- obligations
    def oblige(self, name, goal, extra=None):
        goal = tobool(goal)
        if self.probing: return True
        o = Obl(name, list(self.facts) + list(self.pc), goal if isinstance(goal, bool) else goal.t, self.pctx, extra)
        o.reason = ""
        if goal is True:
            o.status, o.by = "proved", "evaluation"
        else:
            self.try_discharge(o)
        self.obls.append(o)
        return o.status == "proved"
    def lemma(self, name, c):
        """shown here, used below"""
        self.oblige(name, c)
        self.assume(c)
    def lemma_pos(self, name, x, square=None):
        """an expression shown positive here; a square root of an equal expression is then known to be positive.
        With square=d the expression is x + d*d (x is shown positive, a square is not negative)"""
        self.oblige(name, _cmp(">", x, 0))
        if square is not None: x = add(x, mul(square, square))
        self.ghost.setdefault("pos", []).append(toreal_t(lift(x)))
    def poly_proves(self, t):
        try:
            if z3.is_and(t): return all(self.poly_proves(c) for c in t.children())
            if z3.is_eq(t) and z3.is_arith(t.arg(0)):
                return self.pctx.equal(t.arg(0), t.arg(1))
        except TooBig:
            return False
        return False
    def try_discharge(self, o):
        t0 = time.time()
        t = o.goal if not isinstance(o.goal, bool) else z3.BoolVal(o.goal)
        s = z3.simplify(t)
        if z3.is_true(s):
            o.status, o.by = "proved", "simplifier"; return
        if self.poly_proves(t):
            o.status, o.by = "proved", "polynomial normal form"; o.time = time.time() - t0; return
        if self.linear_refutes(z3.Not(t)):
            o.status, o.by = "proved", "z3 linear arithmetic over normal-form monomials"; o.time = time.time() - t0; return
        n = self.norm_cond(t)
        res, by, model = solve(o.hyps, t if n is None else z3.Or(t, n), self.tmo_ms)
        o.time = time.time() - t0
        self.solver_time += o.time
        o.by = by
        if res == "proved": o.status = "proved"
        elif res == "refuted":
            o.status = "refuted"; o.model = model
        else:
            o.status = "unknown"; o.reason = str(model)
    def ground_interval(self, x):
        """rational bounds of a term built from constants and square roots of constants"""
        if conc(x): return Fraction(x), Fraction(x)
        def pol(p):
            lo = hi = Fraction(0)
            for m, v in p.d.items():
                a = b = Fraction(v)
                for at, e in m:
                    t = self.pctx.terms[at]
                    if not (z3.is_app(t) and t.decl().name() == SQRT.name()): raise Unsupported("not a ground algebraic number: %s" % str(t)[:80])
                    q = z3.simplify(t.arg(0))
                    if not z3.is_rational_value(q): raise Unsupported("not a ground algebraic number: %s" % str(t)[:80])
                    q = q.as_fraction(); K = 10 ** 24
                    r = math.isqrt(q.numerator * K * K // q.denominator)
                    l, h = Fraction(r, K), Fraction(r + 1, K)
                    for _ in range(e): a, b = min(a * l, a * h), max(b * l, b * h)
                lo += a; hi += b
            return lo, hi
        n, d = self.nf(toreal_t(lift(x)))
        (a, b), (l, h) = pol(n), pol(d)
        if l <= 0 <= h: raise Unsupported("ground denominator may be zero")
        c = [a / l, a / h, b / l, b / h]
        return min(c), max(c)
    def oblige_near(self, name, x, value, tol):
        """|x - value| <= tol for a ground algebraic number x"""
        lo, hi = self.ground_interval(x)
        ok = value - tol <= lo and hi <= value + tol
        o = Obl(name, [], ok, self.pctx, None); o.reason = "" if ok else "value in [%s, %s], expected %s" % (float(lo), float(hi), value)
        o.status, o.by = ("proved" if ok else "refuted"), "rational interval evaluation"
        self.obls.append(o)
        return ok
    def row_effects(self, r, fname, k, idx=None):
        """row k of the result r only reads row k of the input array fname"""
        from .spec import foreign_rows
        import itertools
        dims = [range(d) for d in r.shape[1:]]
        bad = []
        for ix in itertools.product(*dims):
            v = r[(k,) + ix]
            if isinstance(v, S): bad += foreign_rows(v, fname, [k])
        self.oblige("row k of the result depends on row k of the input only", not bad)
    # ---- reals that are integers
    def int_of_real(self, t, shift=False):
        """integer-valued real term as an integer term (shift: together with a constant fraction in [0, 1))"""
        n, d = self.nf(t)
        if not d.is_const(): return None
        c = d.const_val(); rest = Fraction(0)
        for m, v in n.d.items():
            if (v / c).denominator != 1:
                if m or not shift: return None
                rest = Fraction(v / c) - math.floor(Fraction(v / c))
            for a, e in m:
                if not z3.is_int(self.pctx.terms[a]): return None
        terms = []
        for m, v in sorted(n.d.items()):
            if not m: v = v - rest * c
            if v == 0: continue
            f = [z3.IntVal(int(v / c))] if (v / c != 1 or not m) else []
            for a, e in m: f += [self.pctx.terms[a]] * e
            p = f[0]
            for q in f[1:]: p = p * q
            terms.append(p)
        r = terms[0] if terms else z3.IntVal(0)
        for q in terms[1:]: r = r + q
        if shift: return wrap(r), rest
        return wrap(r) if terms else 0
    def int_quot(self, t, up):
        """floor (up: ceiling) of a quotient of integers with a positive divisor that is not a constant"""
        try: n, d = self.nf(t)
        except TooBig: return None
        if d.is_const() or not n.d: return None
        den = 1
        for q in list(n.d.values()) + list(d.d.values()): den = den * Fraction(q).denominator // math.gcd(den, Fraction(q).denominator)
        def term(p):
            ts = []
            for m, v in sorted(p.d.items()):
                f = [z3.IntVal(int(v * den))] if (v * den != 1 or not m) else []
                for a, e in m:
                    if not z3.is_int(self.pctx.terms[a]): return None
                    f += [self.pctx.terms[a]] * e
                r = f[0]
                for q in f[1:]: r = r * q
                ts.append(r)
            r = ts[0]
            for q in ts[1:]: r = r + q
            return r
        a, b = term(n), term(d)
        if a is None or b is None or not self.implied(wrap(b > 0)): return None
        key = ("iq", a.get_id(), b.get_id(), up)
        if key not in self.ghost:
            f = ICEIL if up else IDIV
            c = f(a, b); self.keep(a); self.keep(b)
            if up:
                self.fact(c * b >= a); self.fact((c - 1) * b < a); self.fact(z3.Implies(a > 0, c >= 1)); self.fact(z3.Implies(a == 0, c == 0))
            else:
                self.fact(c * b <= a); self.fact((c + 1) * b > a); self.fact(z3.Implies(a >= 0, c >= 0))
            self.ghost[key] = wrap(c)
        return self.ghost[key]
    # ---- square roots, trigonometry
    def nf(self, t):
        n, d = self.pctx.rat(t)
        n, d = self.pctx.reduce(n), self.pctx.reduce(d)
        if len(d.d) == 1 and not d.is_const() and n.d:
            # a common monomial cancels: every divisor was shown to be nonzero where the division was executed
            (m, v), = d.d.items()
            com = dict(m)
            for q in n.d:
                if not com: break
                q = dict(q); com = {a: min(e, q[a]) for a, e in com.items() if a in q}
            if com:
                cut = lambda q: tuple((a, e - com.get(a, 0)) for a, e in q if e > com.get(a, 0))
                n, d = Poly({cut(q): c for q, c in n.d.items()}), Poly({cut(m): v})
        return n, d
    def sqrt(self, a):
        if isinstance(a, float): return math.sqrt(a)
        if conc(a):
            a = Fraction(a)
            if a < 0: raise Unsupported("sqrt of negative constant")
            rn, rd = math.isqrt(a.numerator), math.isqrt(a.denominator)
            if rn * rn == a.numerator and rd * rd == a.denominator: return Fraction(rn, rd)
        t = toreal_t(lift(a))
        if self.opaque_sqrt and not conc(a):
            r = S(SQRT(t)); self.keep(r.t); self.fact(r.t >= 0)
            if self.strict_sums: self.fact((r.t == 0) == (t <= 0))
            return r
        try:
            n, d = self.nf(t)
            if n.is_const() and d.is_const():
                v = n.const_val() / d.const_val()
                if not conc(a): return self.sqrt(v)
            if d.is_const() and not self.pctx.rat(t)[1].is_const(): return self.sqrt(wrap(self.pctx.to_z3(n.scale(1 / d.const_val()))))
            if not d.is_const() and not self.probing:
                m0 = next(iter(d.d))
                if m0 in n.d and (n - d.scale(n.d[m0] / d.d[m0])).is_zero(): return self.sqrt(n.d[m0] / d.d[m0])
                if len(d.d) == 1:
                    (m, v), = d.d.items()
                    if v < 0: n, d, v = -n, -d, -v
                    extra = Poly({tuple((x, 1) for x, e in m if e % 2): Fraction(1)})
                    root = Poly({tuple((x, (e + 1) // 2) for x, e in m): Fraction(1)})
                    num = self.pctx.reduce(n * extra).scale(1 / v)
                else:
                    root, num = d, self.pctx.reduce(n * d)
                rt = wrap(self.pctx.to_z3(root))
                q = self.sqrt(wrap(self.pctx.to_z3(num)))
                return truediv(q, rt if self.decide(_cmp(">", rt, 0)) else neg(rt))
            # a factor of known sign with an even power leaves the root
            if d.is_const() and len(n.d) > 1 and not conc(a) and not self.probing:
                ms = [dict(m) for m in n.d]
                com = {x: min(m.get(x, 0) for m in ms) // 2 for x in ms[0]}
                com = {x: e for x, e in com.items() if e and (x in self.posatoms or self.implied(wrap(toreal_t(self.pctx.terms[x]) > 0)))}
                if com:
                    rest = Poly({tuple((x, e - 2 * com.get(x, 0)) for x, e in m if e > 2 * com.get(x, 0)): c for m, c in n.d.items()}).scale(1 / d.const_val())
                    root = Poly({tuple(sorted(com.items())): Fraction(1)})
                    return mul(wrap(self.pctx.to_z3(root)), self.sqrt(wrap(self.pctx.to_z3(rest))))
            # hints: known h with h*h == a
            cands = list(self.hints) + [s for _, _, s in self.sqrts]
            for i, h in enumerate(cands):
                if self.pctx.equal(h.t * h.t, t):
                    if self.decide(_cmp(">=", h, 0)): return h
                    return neg(h)
            for i, h in enumerate(self.hints):
                for g in self.hints[:i]:
                    p = h.t * g.t
                    if self.pctx.equal(p * p, t):
                        return S(p) if self.decide(_cmp(">=", S(p), 0)) else neg(S(p))
            for h in (self.hints if not n.is_const() else ()):
                q = self._ratio(n, d, h)
                if q is not None:
                    c = ratsqrt(q)
                    if c is not None: return mul(c, h) if self.decide(_cmp(">=", h, 0)) else mul(-c, h)
            if d.is_const() and len(n.d) == 1:
                (m, v), = n.d.items()
                q = Fraction(v) / d.const_val()
                if q > 0 and all(e % 2 == 0 for _, e in m):
                    c = ratsqrt(q)
                    if c is not None:
                        r = wrap(self.pctx.to_z3(Poly({tuple((a, e // 2) for a, e in m): Fraction(1)})))
                        return mul(c, r) if self.decide(_cmp(">=", r, 0)) else mul(-c, r)
            for n2, d2, s2 in self.sqrts:
                if (n * d2 - n2 * d).is_zero() or self.pctx.reduce(n * d2 - n2 * d).is_zero(): return s2
            u = z3.simplify(t) if False else t
            k = u.decl().kind()
            if k == z3.Z3_OP_MUL and not self.probing:
                ch = [wrap(c) for c in u.children()]
                if all(self.nonneg(c) for c in ch):
                    r = Fraction(1)
                    for c in ch: r = mul(r, self.sqrt(c))
                    return r
            if k == z3.Z3_OP_DIV and not self.probing:
                x, y = wrap(u.arg(0)), wrap(u.arg(1))
                if self.nonneg(x) and self.implied(_cmp(">", y, 0)):
                    return truediv(self.sqrt(x), self.sqrt(y))
        except TooBig:
            n = d = None
        r = S(SQRT(t)); self.keep(r.t)
        if not conc(a):
            c = wrap(t >= 0)
            if not squares(t) and not self.implied(c):
                self.oblige("square root of a non-negative value", c)
                self._push(c.t if isinstance(c, S) else z3.BoolVal(True))
        self.fact(r.t >= 0)
        for q in self.ghost.get("pos", ()):
            if self.pctx.equal(t, q): self.fact(r.t > 0); break
        self.fact(r.t * r.t == t)
        for q in ([n] if n is not None and d.is_const() and d.const_val() > 0 else []) + [self.pctx.rat(t)[0] if z3.is_const(t) is False and self.pctx.rat(t)[1].is_const() else Poly()]:
            if q.const_val() > 0 and all(v > 0 and all(e % 2 == 0 for _, e in m) for m, v in q.d.items()): self.fact(r.t > 0); break
        if n is not None:
            self.sqrts.append((n, d, r))
            if d.is_const():
                self.pctx.rel[self.pctx.atom(r.t)] = (2, n.scale(1 / d.const_val()))
            else:
                self.pctx.add_relation(r.t, 2, self.pctx.to_z3(n) / self.pctx.to_z3(d))
        return r
    def cbrt(self, a):
        if conc(a) and a in (0, 1): return Fraction(a)
        t = toreal_t(lift(a))
        for k, r in self.ghost.get("cbrt", []):
            if self.pctx.equal(k, t): return r
        r = S(CBRT(t)); self.keep(r.t)
        self.fact(r.t * r.t * r.t == t)
        self.fact(z3.Implies(t >= 0, r.t >= 0))
        self.fact(z3.Implies(t > 0, r.t > 0))
        self.ghost.setdefault("cbrt", []).append((t, r))
        try: self.pctx.add_relation(r.t, 3, t)
        except TooBig: pass
        return r
    def _ratio(self, n, d, h):
        """q with n/d == q*h^2, or None"""
        hn, hd = self.nf(h.t * h.t)
        a, b = self.pctx.reduce(n * hd), self.pctx.reduce(d * hn)
        if not a.d or len(a.d) != len(b.d): return None
        m = next(iter(a.d))
        if m not in b.d: return None
        q = a.d[m] / b.d[m]
        return q if q > 0 and (a - b.scale(q)).is_zero() else None
    def nonneg(self, x):
        if conc(x): return x >= 0
        n, d = self.nf(toreal_t(x.t))
        if d.is_const() and all(v * d.const_val() > 0 and all(e % 2 == 0 for _, e in m) for m, v in n.d.items()): return True
        n, d = self.pctx.rat(toreal_t(x.t))
        if d.is_const() and all(v * d.const_val() > 0 and all(e % 2 == 0 for _, e in m) for m, v in n.d.items()): return True
        return self.implied(_cmp(">=", x, 0))
    def full_angle(self, th):
        """only whole multiples of th are needed"""
        self.angle[self.pctx.atom(th.t)] = {"B": 1}
    def reg_angle(self, S_theta, **kw):
        self.angle[self.pctx.atom(S_theta.t)] = kw
    def cut_degree(self, t):
        n, d = self.nf(t)
        if not d.is_const() or max([sum(e for _, e in m) for m in n.d] or [0]) <= self.maxdeg: return wrap(t)
        key = tuple(sorted((m, c / d.const_val()) for m, c in n.d.items()))
        g = self.ghost.setdefault("cut", {})
        if key not in g:
            g[key] = self.fresh("prod")
            if all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in key):
                self.fact(g[key].t >= 0)
                for m, c in key:
                    for a, e in m: self.fact(z3.Implies(toreal_t(self.pctx.terms[a]) != 0, g[key].t > 0)) if len(m) == 1 else None
        return g[key]
    def invertible(self, a):
        """let inverse trigonometric functions return the known angle a where a lies in their principal range"""
        self.ghost.setdefault("inv", []).append(a)
    def _same(self, a, b):
        return self.poly_proves(toreal_t(lift(a)) == toreal_t(lift(b)))
    def _inverse(self, f):
        for a in self.ghost.get("inv", ()):
            c, s = self.cossin(a)
            v = f(c, s, a)
            if v is not None and self.implied(v[1]): return v[0]
        return None
    def arccos(self, x):
        if conc(x):
            if x == 1: return Fraction(0)
            if x == -1: return self.PI
            if x == 0: return truediv(self.PI, 2)
        v = self._inverse(lambda c, s_, a: ((a, band(_cmp(">=", a, 0), _cmp("<=", a, self.PI))) if self._same(c, x) else (sub(self.PI, a), band(_cmp(">=", a, 0), _cmp("<=", a, self.PI))) if self._same(neg(c), x) else None))
        if v is not None: return v
        th = S(ACOS(toreal_t(lift(x)))); self.keep(th.t)
        c = band(_cmp("<=", x, 1), _cmp(">=", x, -1))
        if not self.implied(c):
            self.oblige("arccos argument within [-1,1]", c)
            self.assume(c)
        xt = toreal_t(lift(x))
        self.fact(th.t >= 0); self.fact(th.t <= self.PI.t)
        self.fact(z3.Implies(xt == 1, th.t == 0)); self.fact(z3.Implies(xt == -1, th.t == self.PI.t))
        self.fact(z3.Implies(xt < 1, th.t > 0)); self.fact(z3.Implies(xt > -1, th.t < self.PI.t))
        self.fact(z3.Implies(xt >= 0, th.t * 2 <= self.PI.t)); self.fact(z3.Implies(xt < 0, th.t * 2 > self.PI.t))
        self.fact(z3.Implies(xt == 0, th.t * 2 == self.PI.t))
        if self.opaque_arc: return th
        s = self.sqrt(wrap(1 - xt * xt))
        self.reg_angle(th, cos=wrap(xt), sin=s, rng="0pi")
        return th
    def arctan2(self, y, x):
        if conc(y) and y == 0 and conc(x): 
            return Fraction(0) if x >= 0 else self.PI
        yt, xt = toreal_t(lift(y)), toreal_t(lift(x))
        for k in self.ghost.get("atan2", []):
            if self.pctx.equal(k[0], yt) and self.pctx.equal(k[1], xt): return k[2]
        th = S(ATAN2(yt, xt)); self.keep(th.t)
        if self.opaque_arc:
            self.fact(th.t > -self.PI.t); self.fact(th.t <= self.PI.t); return th
        r = self.sqrt(wrap(xt * xt + yt * yt))
        self.fact(th.t > -self.PI.t); self.fact(th.t <= self.PI.t)
        self.fact(z3.Implies(z3.And(yt == 0, xt >= 0), th.t == 0))
        self.fact(z3.Implies(z3.And(yt == 0, xt < 0), th.t == self.PI.t))
        self.fact(z3.Implies(yt >= 0, th.t >= 0)); self.fact(z3.Implies(yt < 0, th.t < 0))
        self.fact(z3.Implies(yt > 0, th.t > 0))
        self.fact(z3.Implies(xt > 0, z3.And(2 * th.t < self.PI.t, 2 * th.t > -self.PI.t)))
        if self.decide(_cmp("==", r, 0)):
            self.reg_angle(th, cos=Fraction(1), sin=Fraction(0), rng="0")
        else:
            self.reg_angle(th, cos=truediv(wrap(xt), r), sin=truediv(wrap(yt), r), rng="pi")
        self.ghost.setdefault("atan2", []).append((yt, xt, th))
        return th
    def arctan(self, x):
        if conc(x) and x == 0: return Fraction(0)
        if isinstance(x, float) and math.isinf(x): return truediv(self.PI, 2) if x > 0 else neg(truediv(self.PI, 2))
        v = self._inverse(lambda c, s_, a: (a, band(_cmp("<", mul(2, a), self.PI), _cmp(">", mul(2, a), neg(self.PI)))) if self._same(mul(x, c), s_) else None)
        if v is not None: return v
        th = S(ATAN(toreal_t(lift(x)))); self.keep(th.t)
        xt = toreal_t(lift(x))
        if self.opaque_arc:
            self.fact(2 * th.t < self.PI.t); self.fact(2 * th.t > -self.PI.t); return th
        r = self.sqrt(wrap(1 + xt * xt))
        self.fact(2 * th.t < self.PI.t); self.fact(2 * th.t > -self.PI.t)
        self.fact(z3.Implies(xt > 0, th.t > 0)); self.fact(z3.Implies(xt < 0, th.t < 0)); self.fact(z3.Implies(xt == 0, th.t == 0))
        self.fact(r.t >= 1)
        self.reg_angle(th, cos=truediv(1, r), sin=truediv(wrap(xt), r), rng="half")
        return th
    def _lin(self, x):
        """angle -> ({atom: coeff}, coefficient of PI)"""
        t = toreal_t(lift(x))
        n, d = self.nf(t)
        if not d.is_const(): return None
        c = d.const_val()
        pi_a = self.pctx.atom(self.PI.t)
        lin, pic, odd = {}, Fraction(0), []
        for m, v in n.d.items():
            v = v / c
            if m == (): 
                return None
            if m == ((pi_a, 1),): pic += v; continue
            md = dict(m)
            if md.get(pi_a) == 1 and v.denominator == 1 and all(z3.is_int(self.pctx.terms[a]) for a in md if a != pi_a):
                if v % 2: odd.append(tuple(x for x in m if x[0] != pi_a))
                continue    # integer multiple of pi
            if len(m) == 1 and m[0][1] == 1:
                lin[m[0][0]] = v
            else:
                return None
        return lin, pic, odd
    def parity(self, m):
        """(-1)**m for an integer monomial m"""
        g = self.ghost.setdefault("parity", {})
        if m not in g:
            x = self.fresh("parity")
            self.fact(z3.Or(x.t == 1, x.t == -1)); self.pctx.atom(x.t); self.pctx.add_relation(x.t, 2, z3.RealVal(1))
            g[m] = x
        return g[m]
    def cossin(self, x):
        """(cos x, sin x)"""
        if conc(x) and x == 0: return Fraction(1), Fraction(0)
        L = self._lin(x)
        if L is None:
            return self._opaque_angle(x)
        lin, pic, odd = L
        c, s = self._pi_mult(pic)
        for m in odd:
            e = self.parity(m); c, s = mul(e, c), mul(e, s)
        for a, q in sorted(lin.items()):
            ca, sa = self._cs_atom(a, q)
            c, s = sub(mul(c, ca), mul(s, sa)), add(mul(s, ca), mul(c, sa))
        if (pic or odd or len(lin) > 1) and not self.probing: self._range_facts(toreal_t(lift(x)), c, s)
        return c, s
    def _range_facts(self, t, c, s):
        g = self.ghost.setdefault("rangefacts", set())
        if t.get_id() in g: return
        g.add(t.get_id()); self.keep(t)
        pi = self.PI.t
        c, s = toreal_t(lift(c)), toreal_t(lift(s))
        I, A = z3.Implies, z3.And
        self.fact(I(A(t > 0, t < pi), s > 0)); self.fact(I(A(t > -pi, t < 0), s < 0)); self.fact(I(A(t > pi, t < 2 * pi), s < 0))
        self.fact(I(A(2 * t > -pi, 2 * t < pi), c > 0)); self.fact(I(A(2 * t > pi, 2 * t < 3 * pi), c < 0))
        self.fact(I(2 * t == pi, A(c == 0, s == 1))); self.fact(I(t == pi, A(c == -1, s == 0)))
        self.fact(I(t == 0, A(c == 1, s == 0))); self.fact(I(A(t >= -pi, t <= pi, s == 0, c > 0), t == 0))
        self.fact(I(A(t >= 0, t <= pi, c == 0), 2 * t == pi)); self.fact(I(A(t >= 0, t <= pi, s == 0, c < 0), t == pi))
    def _pi_mult(self, q):
        q = q % 2
        neg_ = False
        tab = {Fraction(0): (1, 0), Fraction(1, 2): (0, 1), Fraction(1): (-1, 0), Fraction(3, 2): (0, -1)}
        if q in tab: return tuple(Fraction(v) for v in tab[q])
        # multiples of pi/12 via pi/6, pi/4, pi/3
        base = {Fraction(1, 6): ("s3/2", "1/2"), Fraction(1, 4): ("s2/2", "s2/2"), Fraction(1, 3): ("1/2", "s3/2")}
        quad, rem = divmod(q, Fraction(1, 2))
        if rem not in base: raise Unsupported("cos of %s pi" % q)
        def val(k):
            if k == "1/2": return Fraction(1, 2)
            return truediv(self.sqrt(Fraction(3 if "3" in k else 2)), 2)
        c, s = val(base[rem][0]), val(base[rem][1])
        for _ in range(int(quad)): c, s = neg(s), c
        return c, s
    def _opaque_angle(self, x):
        t = toreal_t(lift(x))
        for k, c, s in self.ghost.get("opq", []):
            if self.pctx.equal(k, t): return c, s
        c, s = S(COS(t)), S(SIN(t)); self.keep(c.t); self.keep(s.t)
        self._cs_rel(c, s)
        self.ghost.setdefault("opq", []).append((t, c, s))
        return c, s
    def _cs_rel(self, c, s):
        self.pctx.atom(c.t)
        self.pctx.atom(s.t)
        self.pctx.add_relation(s.t, 2, 1 - c.t * c.t)
        self.fact(c.t * c.t + s.t * s.t == 1)
    def _cs_atom(self, a, q):
        info = self.angle.get(a)
        n, D = q.numerator, q.denominator
        if info is None:
            info = self.angle[a] = {}
        if "cos" in info and D == 1:
            c1, s1 = info["cos"], info["sin"]
        elif "cos" in info and D == 2:
            if info["rng"] == "0":
                c1, s1 = Fraction(1), Fraction(0)
            else:
                ch = self.sqrt(truediv(add(1, info["cos"]), 2))
                sh = self.sqrt(truediv(sub(1, info["cos"]), 2))
                if info["rng"] == "0pi": pass
                elif info["rng"] in ("pi", "half"):
                    if not self.decide(_cmp(">=", info["sin"], 0)): sh = neg(sh)
                c1, s1 = ch, sh
        else:
            # free angle: base = angle / 2
            B = info.get("B", 2)
            if B % D: raise Unsupported("angle fraction 1/%d" % D)
            if "base" not in info:
                th = self.pctx.terms[a]
                tr_ = toreal_t(th)
                tb = tr_ / B if B > 1 else tr_
                c, s = S(COS(tb)), S(SIN(tb)); self.keep(c.t); self.keep(s.t)
                self._cs_rel(c, s)
                info["base"] = (c, s)
                tt = z3.ToReal(th) if z3.is_int(th) else th
                if B == 1: tt = 2 * tt
                pi = self.PI.t
                # quadrant facts of the half angle (half = tt/2)
                self.fact(z3.Implies(z3.And(tt >= 0, tt <= 2 * pi), s.t >= 0))
                self.fact(z3.Implies(z3.And(tt > 0, tt < 2 * pi), s.t > 0))
                self.fact(z3.Implies(z3.And(tt >= -pi, tt <= pi), c.t >= 0))
                self.fact(z3.Implies(z3.And(tt > -pi, tt < pi), c.t > 0))
                self.fact(z3.Implies(tt == 0, z3.And(c.t == 1, s.t == 0)))
                self.fact(z3.Implies(tt == pi, z3.And(c.t == 0, s.t == 1)))
                self.fact(z3.Implies(z3.And(tt > pi, tt <= 2 * pi), c.t < 0))
            c1, s1 = info["base"]
            n = n * (B // D)
        return self._multiple(c1, s1, n)
    def _multiple(self, c1, s1, n):
        sg = 1
        if n < 0: n, sg = -n, -1
        c, s = Fraction(1), Fraction(0)
        for _ in range(n):
            c, s = sub(mul(c, c1), mul(s, s1)), add(mul(s, c1), mul(c, s1))
        return c, (neg(s) if sg < 0 else s)
    def exp(self, x):
        x = fl(x)
        if isinstance(x, float): return math.exp(x) if x < 0 else x
        if conc(x) and x == 0: return Fraction(1)
        t = toreal_t(lift(x))
        r = S(EXP(t)); self.keep(r.t)
        self.fact(r.t > 0)
        self.fact(z3.Implies(t <= 0, r.t <= 1)); self.fact(z3.Implies(t >= 0, r.t >= 1)); self.fact(z3.Implies(t < 0, r.t < 1))
        self.fact(z3.Implies(t == 0, r.t == 1))
        return r
    # ---- sums over symbolic ranges
    def sum_of(self, lo, hi, body):
        if conc(lo) and conc(hi):
            r = 0
            for i in range(lo, hi): r = add(r, body(i))
            return r
        k = self.fresh("sk", "i")
        self.scope_push()
        self.fact(lift(_cmp(">=", k, lo))); self.fact(lift(_cmp("<", k, hi)))
        nf, npc = len(self.facts), len(self.pc)
        try: d = body(k)
        except PathEnd:
            self.scope_pop()
            if self.implied(_cmp(">=", lo, hi)): return 0
            raise Unsupported("sum over an infeasible range")
        st = self.sum_term(lo, hi, k, d, start=self.n)
        st.ctx = self.facts[nf:] + self.pc[npc:]
        self.scope_pop()
        return st.declare()
    def sum_term(self, lo, hi, k, d, facts=None, step=1, start=None):
        return SumT(self, lo, hi, k, d, step)
    def extremum(self, op, s, full_, axs):
        """max/min over all axes of an array with symbolic dimensions: some element attains it, ext_at instantiates the bound"""
        if any(x is not None and a not in [q for q, _ in axs] for a, x in enumerate(full_)):
            # along some axes: the position that attains it depends on the others (and on the array)
            others = [lift(x) for a, x in enumerate(full_) if a not in [q for q, _ in axs]]
            n0 = self.ghost.setdefault("extfun", {}).setdefault(id(s), len(self.ghost.get("extfun", {}))); self.keep(s)
            w = list(full_)
            for a, n in axs:
                self.oblige("the array is not empty where its %simum is taken" % op, _cmp(">=", n, 1))
                f = z3.Function("EXT%s%d_%d" % (op, n0, a), *([z3.IntSort()] * (len(others) + 1)))
                k = f(*others); self.fact(k >= 0); self.fact(k < lift(n)); w[a] = S(k)
            return s.get(tuple(w))
        for _, n in axs:
            self.oblige("the array is not empty where its %simum is taken" % op, _cmp(">=", n, 1))
        w = [None] * len(full_)
        for a, n in axs:
            k = self.fresh("ext", "i"); self.fact(k.t >= 0); self.fact(lift(_cmp("<", k, n)))
            w[a] = k
        v = s.get(tuple(w))
        m = self.fresh(op, "i" if isint(v) else "r")
        self.fact(lift(_cmp("==", m, v)))
        self.exts.append((op, m, s, tuple(n for _, n in axs))); self.__dict__.setdefault("extval", {})[m.t.get_id()] = v; self.keep(m.t)
        return m
    def argext(self, op, s, n):
        """position of the first largest / smallest element of a 1-D array"""
        self.oblige("the array is not empty where its %simum is taken" % op, _cmp(">=", n, 1))
        w = self.fresh("arg", "i"); self.args.append(w); self.fact(w.t >= 0); self.fact(lift(_cmp("<", w, n)))
        self.exts.append((op, s.get((w,)), s, (n,)))
        return w
    def ext_at(self, *idx):
        """every maximum / minimum taken so far bounds the element at idx"""
        for op, m, s, dims in list(self.exts):
            if len(dims) != len(idx): continue
            v = s.get(tuple(idx))
            c = True
            for i, n in zip(idx, dims): c = band(c, band(_cmp(">=", i, 0), _cmp("<", i, n)))
            self.fact(z3.Implies(lift(c), lift(_cmp(">=" if op == "max" else "<=", m, v))))
    def nz_at(self, *rows):
        """membership facts of every enumeration of positions taken so far, at the given positions"""
        todo = [(i, None) for i in rows]; seen = set()
        while todo:
            i, d = todo.pop()
            for z in list(self.nzs):
                if (lift(i).get_id(), id(z)) in seen or d is not None and not (conc(d) and conc(z.N) and d == z.N or not conc(d) and not conc(z.N) and lift(d).eq(lift(z.N))): continue
                seen.add((lift(i).get_id(), id(z)))
                todo.append((z.rank(i), z.n))
    def sum_body(self, at):
        """a term with the summand and the bounds of a sum in terms of its arguments, None if it is not a sum"""
        q = self.__dict__.get("sumbodies", {}).get(at.decl().name())
        if q is None: return None
        return z3.substitute(q[0], *zip(q[1], at.children())) if q[1] else q[0]
    def find_invariant(self, loop): return None
    def fmod(self, x, m):
        """C fmod (sign of the dividend)"""
        if conc(x) and conc(m):
            return Fraction(x) - Fraction(m) * int(Fraction(x) / Fraction(m))
        k = self.fresh("fmodq", "i")
        xt, mt = toreal_t(lift(x)), toreal_t(lift(m))
        r = xt - mt * z3.ToReal(k.t)
        self.fact(z3.Implies(z3.And(mt > 0, xt >= 0), z3.And(r >= 0, r < mt, k.t >= 0)))
        self.fact(z3.Implies(z3.And(mt > 0, xt <= 0), z3.And(r <= 0, r > -mt, k.t <= 0)))
        L = self._lin(wrap(r)) if "PI" in consts_of(mt) and not self.probing else None
        if L is not None and not any("cos" in self.angle.get(a, {}) for a in L[0]): self.cossin(truediv(wrap(r), 2))
        return wrap(r)

class SumT:
    """sum over k in [lo, hi) (step) of d(k), normalised to coefficient * atom sums"""
    def __init__(self, E, lo, hi, k, d, step):
        self.E, self.lo, self.hi, self.k, self.d, self.step = E, lo, hi, k, d, step
    def declare(self):
        E, k = self.E, self.k
        d = self.d
        if conc(d):
            if d == 0: return d
            return mul(self.count(), d)
        isint_ = isint(d)
        kn = str(k.t)
        k0 = int(kn.rsplit("!", 1)[1])
        for c in consts_of(lift(d)):
            # a witness introduced while evaluating the summand may depend on the summation index
            if "!" in c and c.rsplit("!", 1)[1].isdigit() and int(c.rsplit("!", 1)[1]) > k0: raise Unsupported("witness %s inside a sum" % c)
        t = toreal_t(lift(d))
        n, den = E.nf(t)
        def kdep(a): return kn in consts_of(E.pctx.terms[a])
        if any(kdep(a) for a in den.atoms()):
            a = self.atom(t); return a
        out = Fraction(0)
        if E.sum_keep:
            # factors that do not depend on the index stay in the summand
            den_t = None if den.is_const() else E.pctx.to_z3(den)
            for m, c in sorted(n.d.items()):
                bt = None
                for a, e in m:
                    for _ in range(e):
                        x = toreal_t(E.pctx.terms[a]); bt = x if bt is None else bt * x
                bt = z3.RealVal(1) if bt is None else bt
                out = add(out, mul(Fraction(c) / (den.const_val() if den_t is None else 1), self.atom(bt if den_t is None else bt / den_t)))
            return out
        for m, c in sorted(n.d.items()):
            dep = [(a, e) for a, e in m if kdep(a)]
            ind = [(a, e) for a, e in m if not kdep(a)]
            co = Fraction(c)
            for a, e in ind:
                for _ in range(e): co = mul(co, wrap(toreal_t(E.pctx.terms[a])))
            if not dep: at = wrap(toreal_t(lift(self.count())))
            else:
                bt = None
                for a, e in dep:
                    for _ in range(e):
                        x = toreal_t(E.pctx.terms[a])
                        bt = x if bt is None else bt * x
                at = self.atom(bt)
            out = add(out, mul(co, at))
        if not (den.is_const() and den.const_val() == 1):
            out = truediv(out, wrap(E.pctx.to_z3(den)))
        if isint_:
            r = E.int_of_real(lift(out))
            if r is None: r = floor(out)
            return r
        return out
    def count(self):
        if self.step == 1: return sub(self.hi, self.lo)
        return floordiv(add(sub(self.hi, self.lo), self.step - 1), self.step)
    def atom(self, bt):
        """an uninterpreted function of the free constants of the summand"""
        E = self.E
        lo, hi = lift(self.lo), lift(self.hi)
        if conc(self.lo) and self.lo == 0: pass
        body = z3.simplify(bt)
        frees = {}
        st, seen = [body, lo, hi], set()
        while st:
            x = st.pop()
            if x.get_id() in seen: continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and str(x) != str(self.k.t): frees[x.decl().name()] = x
            st.extend(x.children())
        names = sorted(frees)
        subst = [(self.k.t, z3.Int("#k"))]
        # frees are numbered in order of appearance in the printed body
        txt = str(body) + "|" + str(lo) + "|" + str(hi)
        names.sort(key=lambda n: txt.find(n))
        for i, n in enumerate(names):
            x = frees[n]
            subst.append((x, z3.Const("#%d" % i, x.sort())))
        kb = z3.simplify(z3.substitute(body, *subst)); kl = z3.substitute(lo, *subst); kh = z3.substitute(hi, *subst)
        key = (kb.sexpr(), kl.sexpr(), kh.sexpr(), self.step)
        T = E.__dict__.setdefault("sumtable", {})
        if key not in T: T[key] = len(T)
        f = z3.Function("SUM%d" % T[key], *([frees[n].sort() for n in names] + [z3.RealSort()]))
        E.__dict__.setdefault("sumbodies", {})["SUM%d" % T[key]] = (z3.And(kb == kb, kl == kl, kh == kh), [c for _, c in subst[1:]])
        at = f(*[frees[n] for n in names]) if names else z3.Real("SUM%d" % T[key])
        E.keep(at)
        r = S(at)
        # sign facts
        if not E.probing:
            sq = list(getattr(self, "ctx", ())) + [f for x in sqrts_of(bt) for f in (x >= 0, z3.Implies(x == 0, x.arg(0) <= 0))]
            for c, fct in ((bt >= 0, at >= 0), (bt <= 0, at <= 0)):
                E.solver.push()
                E.solver.add(*sq)
                E.solver.add(lift(_cmp(">=", self.k, self.lo)), lift(_cmp("<", self.k, self.hi)), z3.Not(c))
                q = E.solver.check()
                E.solver.pop()
                if q == z3.unsat:
                    E.fact(fct)
                    if E.strict_sums:
                        E.solver.push(); E.solver.add(*sq); E.solver.add(lift(_cmp(">=", self.k, self.lo)), lift(_cmp("<", self.k, self.hi)), bt == 0); q = E.solver.check(); E.solver.pop()
                        if q == z3.unsat and E.implied(_cmp("<", self.lo, self.hi)): E.fact(at != 0)
        return r

# ---------------------------------------------------------------- back ends
def _run_z3(hyps, goal, ms, tactic=None):
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set("timeout", ms)
    for h in hyps: s.add(h)
    s.add(z3.Not(goal))
    r = s.check()
    return r, s

def solve(hyps, goal, ms):
    """-> (proved|refuted|unknown, backend, model)"""
    first = min(ms, 4000)
    try:
        r, s = _run_z3(hyps, goal, first)
    except z3.Z3Exception as e:
        return "unknown", "z3", str(e)
    if r == z3.unsat: return "proved", "z3", None
    if r == z3.sat: return "refuted", "z3", s.model()
    # relevance filter: only hypotheses sharing symbols with the goal
    try:
        rel = relevant(hyps, goal)
        if len(rel) < len(hyps):
            r, _ = _run_z3(rel, goal, first)
            if r == z3.unsat: return "proved", "z3 (relevant hypotheses)", None
    except z3.Z3Exception:
        pass
    try:
        r, s2 = _run_z3(hyps, goal, ms, "qfnra-nlsat")
        if r == z3.unsat: return "proved", "z3 nlsat", None
        if r == z3.sat: return "refuted", "z3 nlsat", s2.model()
    except z3.Z3Exception:
        pass
    try:
        if abstract_check(hyps, goal, first): return "proved", "z3 (abstracted subterms)", None
    except z3.Z3Exception:
        pass
    rc = cvc5_check(hyps, goal, ms)
    if rc == "unsat": return "proved", "cvc5", None
    return "unknown", "z3+cvc5", "timeout/unknown (%s)" % s.reason_unknown()

def _subterms(ts):
    out, seen, st = [], set(), list(ts)
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id()); out.append(x); st.extend(x.children())
    return out
def abstract_check(hyps, goal, ms):
    """proves goal from the purely relational reading of the comparisons: operands of the comparisons become constants"""
    cand = {}
    for h in hyps + [goal]:
        for x in _subterms([h]):
            if z3.is_app(x) and x.decl().kind() in (z3.Z3_OP_LE, z3.Z3_OP_LT, z3.Z3_OP_GE, z3.Z3_OP_GT, z3.Z3_OP_EQ) and z3.is_arith(x.arg(0)):
                for a in x.children():
                    if a.num_args() and a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB): cand[a.get_id()] = a
            if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and z3.is_arith(x):
                for a in x.children():
                    if z3.is_arith(a) and a.num_args() and a.decl().kind() in (z3.Z3_OP_ADD, z3.Z3_OP_SUB): cand[a.get_id()] = a
    # keep the inner-most candidates only
    ids = set(cand)
    keep = [a for a in cand.values() if not any(y.get_id() in ids for c in a.children() for y in _subterms([c]))]
    if not keep: return False
    sub = [(a, z3.FreshConst(a.sort())) for a in keep]
    s = z3.Solver(); s.set("timeout", ms)
    for h in relevant(hyps, goal): s.add(z3.substitute(h, *sub))
    s.add(z3.Not(z3.substitute(goal, *sub)))
    return s.check() == z3.unsat

def sqrts_of(t):
    r, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == SQRT.name(): r.append(x)
        st.extend(x.children())
    return r
def funcs_of(t):
    return {x.decl().name() for x in _subterms([t]) if z3.is_app(x) and x.num_args() and x.decl().kind() == z3.Z3_OP_UNINTERPRETED}
def consts_of(t, memo={}):
    k = t.get_id()
    if k in memo: return memo[k][1]
    out, st, seen = set(), [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        elif z3.is_app(x):
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
            st.extend(x.children())
        elif z3.is_quantifier(x): st.append(x.body())
    memo[k] = (t, out)
    return out

def relevant(hyps, goal, rounds=2):
    syms = set(consts_of(goal))
    keep = set()
    for _ in range(rounds):
        new = set()
        for i, h in enumerate(hyps):
            if i in keep: continue
            c = consts_of(h)
            if c & syms:
                keep.add(i); new |= c
        if not new - syms: break
        syms |= new
    return [hyps[i] for i in sorted(keep)]

def cvc5_check(hyps, goal, ms):
    try:
        import cvc5
        s = z3.Solver()
        for h in hyps: s.add(h)
        s.add(z3.Not(goal))
        txt = "(set-logic ALL)\n" + s.to_smt2()
        tm = cvc5.TermManager() if hasattr(cvc5, "TermManager") else None
        sl = cvc5.Solver(tm) if tm else cvc5.Solver()
        sl.setOption("tlimit-per", str(ms)); sl.setOption("verbosity", "-1")
        p = cvc5.InputParser(sl)
        p.setStringInput(cvc5.InputLanguage.SMT_LIB_2_6, txt.replace("(check-sat)", ""), "q")
        sm = p.getSymbolManager()
        while True:
            c = p.nextCommand()
            if c.isNull(): break
            c.invoke(sl, sm)
        r = sl.checkSat()
        return "unsat" if r.isUnsat() else "sat" if r.isSat() else "unknown"
    except Exception as e:
        return "error %s" % str(e)[:80]
