"""Exact polynomials / rational functions over Q with atoms = z3 terms.
Used to discharge polynomial identities by normal-form reduction modulo
oriented relations (a term-rewriting back end, complete when the leading
monomials of the relations are pairwise coprime)."""
from fractions import Fraction
import z3

class Poly:
    __slots__ = ("d",)
    def __init__(self, d=None):
        self.d = d if d is not None else {}
    @staticmethod
    def const(c):
        c = Fraction(c)
        return Poly({(): c}) if c else Poly({})
    @staticmethod
    def atom(a):
        return Poly({((a, 1),): Fraction(1)})
    def __add__(self, o):
        d = dict(self.d)
        for m, c in o.d.items():
            v = d.get(m, 0) + c
            if v: d[m] = v
            else: d.pop(m, None)
        return Poly(d)
    def __neg__(self): return Poly({m: -c for m, c in self.d.items()})
    def __sub__(self, o): return self + (-o)
    def __mul__(self, o):
        if len(self.d) > len(o.d): self, o = o, self
        d = {}
        for m1, c1 in self.d.items():
            for m2, c2 in o.d.items():
                m = mmul(m1, m2)
                v = d.get(m, 0) + c1 * c2
                if v: d[m] = v
                else: d.pop(m, None)
        return Poly(d)
    def scale(self, c):
        c = Fraction(c)
        return Poly({m: v * c for m, v in self.d.items()}) if c else Poly({})
    def __pow__(self, n):
        r = Poly.const(1)
        for _ in range(n): r = r * self
        return r
    def is_zero(self): return not self.d
    def is_const(self): return all(m == () for m in self.d)
    def const_val(self): return self.d.get((), Fraction(0))
    def atoms(self):
        return {a for m in self.d for a, _ in m}
    def key(self):
        return tuple(sorted(self.d.items()))

def mmul(m1, m2):
    if not m1: return m2
    if not m2: return m1
    d = dict(m1)
    for a, e in m2: d[a] = d.get(a, 0) + e
    return tuple(sorted(d.items()))

class TooBig(Exception): pass

class Ctx:
    """atom table + relations: atom id -> (power, Poly) meaning atom**power -> Poly"""
    MAXTERMS = 60000
    def __init__(self):
        self.ids = {}      # z3 ast id -> atom index
        self.terms = []    # atom index -> z3 term
        self.memo = {}
        self.rel = {}      # atom index -> (power, num Poly)
    def atom(self, t):
        k = t.get_id()
        if k not in self.ids:
            self.ids[k] = len(self.terms)
            self.terms.append(t)
        return self.ids[k]
    # ---- rational function (num, den) of a z3 term
    def rat(self, t):
        k = t.get_id()
        r = self.memo.get(k)
        if r is None:
            r = self._rat(t)
            self.memo[k] = r
            self._keep = getattr(self, "_keep", [])
            self._keep.append(t)
        return r
    def _rat(self, t):
        one = Poly.const(1)
        if z3.is_rational_value(t):
            return Poly.const(Fraction(t.numerator_as_long(), t.denominator_as_long())), one
        if z3.is_int_value(t):
            return Poly.const(t.as_long()), one
        k = t.decl().kind()
        ch = t.children()
        if k == z3.Z3_OP_ADD:
            n, d = self.rat(ch[0])
            for c in ch[1:]:
                n2, d2 = self.rat(c)
                n, d = radd(n, d, n2, d2)
            return n, d
        if k == z3.Z3_OP_SUB:
            n, d = self.rat(ch[0])
            for c in ch[1:]:
                n2, d2 = self.rat(c)
                n, d = radd(n, d, -n2, d2)
            return n, d
        if k == z3.Z3_OP_UMINUS:
            n, d = self.rat(ch[0])
            return -n, d
        if k == z3.Z3_OP_MUL:
            n, d = self.rat(ch[0])
            for c in ch[1:]:
                n2, d2 = self.rat(c)
                n, d = n * n2, d * d2
                if len(n.d) > self.MAXTERMS: raise TooBig()
            return n, d
        if k == z3.Z3_OP_DIV:
            n, d = self.rat(ch[0]); n2, d2 = self.rat(ch[1])
            return n * d2, d * n2
        if k == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]) and ch[1].denominator_as_long() == 1 and 0 <= ch[1].numerator_as_long() < 12:
            n, d = self.rat(ch[0]); e = ch[1].numerator_as_long()
            return n ** e, d ** e
        if k == z3.Z3_OP_TO_REAL:
            if z3.is_int_value(ch[0]): return Poly.const(ch[0].as_long()), one
            kk = ch[0].decl().kind()
            if kk in (z3.Z3_OP_ADD, z3.Z3_OP_SUB, z3.Z3_OP_MUL, z3.Z3_OP_UMINUS):
                return self.rat(ch[0])
            return Poly.atom(self.atom(ch[0])), one
        return Poly.atom(self.atom(t)), one
    def reduce(self, p):
        """normal form modulo self.rel (each atom**pow -> Poly in 'smaller' atoms)"""
        rel = self.rel
        if not rel: return p
        work = p.d
        for _ in range(400):
            out = {}
            changed = False
            for m, c in work.items():
                hit = None
                for a, e in m:
                    r = rel.get(a)
                    if r is not None and e >= r[0]:
                        if hit is None or a > hit[0]: hit = (a, e, r)
                if hit is None:
                    v = out.get(m, 0) + c
                    if v: out[m] = v
                    else: out.pop(m, None)
                else:
                    changed = True
                    a, e, (pw, rp) = hit
                    rest = tuple((x, y) for x, y in m if x != a)
                    if e - pw: rest = mmul(rest, ((a, e - pw),))
                    for m2, c2 in rp.d.items():
                        mm = mmul(rest, m2)
                        v = out.get(mm, 0) + c * c2
                        if v: out[mm] = v
                        else: out.pop(mm, None)
            work = out
            if len(work) > self.MAXTERMS: raise TooBig()
            if not changed: return Poly(work)
        raise TooBig()
    def add_relation(self, lead_term, power, rhs_term):
        n, d = self.rat(rhs_term)
        if not d.is_const(): return False
        a = self.atom(lead_term)
        self.rel[a] = (power, n.scale(1 / d.const_val()))
        return True
    def equal(self, a, b):
        """True if a==b is an identity modulo the relations (denominators nonzero is the caller's duty)"""
        n1, d1 = self.rat(a); n2, d2 = self.rat(b)
        return self.reduce(n1 * d2 - n2 * d1).is_zero()
    def iszero(self, a):
        n, d = self.rat(a)
        return self.reduce(n).is_zero()
    def to_z3(self, p):
        def atomterm(a):
            t = self.terms[a]
            return z3.ToReal(t) if z3.is_int(t) else t
        terms = []
        for m, c in sorted(p.d.items()):
            f = [z3.RealVal(str(c))] if (c != 1 or not m) else []
            for a, e in m: f += [atomterm(a)] * e
            terms.append(f[0] if len(f) == 1 else z3.Product(f) if len(f) > 1 else z3.RealVal(1))
        if not terms: return z3.RealVal(0)
        return terms[0] if len(terms) == 1 else z3.Sum(terms)

def radd(n, d, n2, d2):
    if d.d == d2.d: return n + n2, d
    if d2.is_const() and d.is_const():
        return n.scale(1 / d.const_val()) + n2.scale(1 / d2.const_val()), Poly.const(1)
    return n * d2 + n2 * d, d * d2
