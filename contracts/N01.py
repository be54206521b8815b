"""NLPAR kernel: weighted mean over the search window"""
import ast, types
from pyvc import core, arrays
from pyvc.core import _cmp, band, bor, bnot, add, sub, mul, S, smin, smax
from pyvc.spec import *
from contracts.N02 import window
from contracts.N03 import sums
EXPLANATION = "nlpar_nb, for any scan shape (smaller than the window included), pattern size, search radius, pixel list, noise map, lambda, threshold and offset, at an arbitrary scan point and pixel: the window bounds are those of the search window shifted to stay inside the scan, shown to lie in the scan, to contain the point and to hold min(2r+1, n) rows and columns; the table of the window (position, distance, offset of every slot) is described by a content contract preserved by an arbitrary iteration of both window loops; a distance found in the cache is the one stored under the key (the documented distance of the two points, symmetric in them); the weights and the running sum and the partial results of the output are followed through the last two loops by contents and invariants. Result: output = sum over the window of pattern times exp(-max(distance - threshold, 0) / lambda^2) (+ offset for the point itself) divided by the sum of these; the weights are positive and sum to one, and the output lies between any bounds that hold for the patterns of the window at that pixel."
ASSUMPTIONS = ["number of scan points at most 2^32 (the pair key has 32 bits per point)", "dthresh >= -1e6, diff_offset >= 0, lambda > 0", "contract of numba.typed.Dict: a value found under a key is the one stored last under that key", "the loop nest of the kernel has its present arrangement and the arrays of the window their present names (otherwise the tasks are undecided, never an alarm, and only the bounded suite decides)", "calcnlpar hands the kernel its patterns, noise and pixel list: N02"]
Z, R = z3.IntSort(), z3.RealSort()
D2, N2 = z3.Function("DIFF2", Z, Z, Z, Z, R), z3.Function("NPIX", Z, Z, Z, Z, R)
PY, PX = z3.Function("SLOTROW", Z, Z), z3.Function("SLOTCOL", Z, Z)
PD = z3.Function("PAIRVALUE", Z, R)
BF, AF, PF = z3.Function("WSUM", Z, R), z3.Function("WPART", Z, R), z3.Function("PARTIAL", Z, Z, R)
def skeleton(fn, path):
    """nesting of the loops of a function"""
    for n in ast.walk(ast.parse(open(path).read())):
        if isinstance(n, ast.FunctionDef) and n.name == fn:
            def go(x):
                out = []
                for c in ast.iter_child_nodes(x):
                    if isinstance(c, (ast.For, ast.While)): out.append(go(c))
                    elif not isinstance(c, (ast.FunctionDef, ast.Lambda)): out += go(c)
                return out
            return go(n)
def kernel(sat):
    def th(E, L):
        m = L.load("pyebsdindex.nlpar_cpu")
        if skeleton("nlpar_nb", m.__file__) != [[[[[[]]], [], [[]]]]]: raise Unsupported("the loops of the kernel are arranged differently")
        y_, x_, s1_, s2_, q_ = ["nlpar_nb#%d" % i for i in (3, 4, 6, 7, 8)]
        nr, nc, npix, sr = [E.const(x, "i") for x in ("nrows", "ncols", "npix", "sr")]
        for v in (nr, nc, npix): E.assume(v >= 1)
        E.assume(sr >= 0); n = E.prod_dim(nr, nc); E.assume(_cmp("<=", n, 2 ** 32))
        nind = E.const("nindices", "i"); E.assume(nind >= 1)
        DF, IF, SG = z3.Function("DATA", Z, Z, R), z3.Function("IND", Z, Z), z3.Function("SIGMA", Z, Z, R)
        data = marr("data", (n, npix), lambda i: S(DF(lift(i[0]), lift(i[1]))), arrays.F32)
        def ind(i):
            v = S(IF(lift(i[0]))); E.fact(z3.And(v.t >= 0, v.t < lift(npix))); return v
        indices = marr("indices", (nind,), ind, arrays.DTS["uint64"])
        sg = lambda r, c: S(SG(lift(r), lift(c)))
        sigma = marr("sigma", (nr, nc), lambda i: sg(*i), arrays.F32)
        lam, dth, off = E.const("lam"), E.const("dthresh"), E.const("diff_offset")
        E.assume(lam > 0); E.assume(_cmp(">=", dth, -10 ** 6)); E.assume(off >= 0)
        mx = E.const("maximum"); m.np.max = lambda a, *k, **kw: mx
        thr = mul(mx, Fraction(999, 1000)) if sat else add(mx, 1)
        def at(l=None):
            if l is not None and hasattr(l, "at_"): return l.at_
            r = at_()
            if l is not None: l.at_ = r
            return r
        def at_():
            L_ = [l for l in E.loops if l.sym and l.active and l.mode == "map"]
            if len(L_) < 2: raise Unsupported("points are not visited by two loops")
            return L_[1].kv, L_[0].kv
        def px(r, c, q): return S(DF(lift(add(c, mul(nc, r))), IF(lift(q))))
        def body(which, j, i, y, x, q):
            d0, d1 = px(j, i, q), px(y, x, q)
            return core.ite(band(_cmp("<", d0, thr), _cmp("<", d1, thr)), mul(sub(d0, d1), sub(d0, d1)) if which else Fraction(1), Fraction(0))
        def sym(f, j, i, y, x):
            a = [lift(v) for v in (j, i, y, x)]
            E.fact(f(*a) == f(a[2], a[3], a[0], a[1])); return S(f(*a))
        def d2(*p): return sym(D2, *p)
        def n2(*p):
            v = sym(N2, *p); E.fact(v.t >= 0); return v
        DIST, RAW, STEP = [z3.Function(nm, Z, Z, Z, Z, R) for nm in ("DISTANCE", "RAW", "STEP")]
        WT = z3.Function("WEIGHT", Z, Z, Z, R)
        def quo(a, b): return S(lift(a) / lift(b))
        def name(f, *p): return S(f(*[lift(v) for v in p]))
        def distance(j, i, y, x): return sym(DIST, j, i, y, x)
        def define(j, i, y, x):
            """definitions of the named values of a pair of points"""
            E.fact(lift(_cmp("==", name(RAW, j, i, y, x), core.ite(own(j, i, y, x), Fraction(-10 ** 6), distance(j, i, y, x)))))
            E.fact(lift(_cmp("==", name(STEP, j, i, y, x), core.ite(own(j, i, y, x), off, Fraction(0)))))
            """squared difference of two patterns in units of its standard deviation"""
            s2 = add(mul(sg(j, i), sg(j, i)), mul(sg(y, x), sg(y, x)))
            N = n2(j, i, y, x)
            dn = mul(s2, E.sqrt(mul(2, N)))
            c = lift(_cmp(">", dn, Fraction(1, 10 ** 8))); d = distance(j, i, y, x)
            E.fact(z3.Implies(c, d.t == quo(sub(d2(j, i, y, x), mul(N, s2)), dn).t))
            E.fact(z3.Implies(z3.Not(c), lift(_cmp("==", d, mul(10 ** 6, N)))))
        def identify(ts, j, i, y, x):
            for app in sums(ts):
                q = E.sum_body(app)
                if q is None: continue
                lo, hi, bd = q.arg(1).arg(0), q.arg(2).arg(0), q.arg(0).arg(0)
                k = E.fresh("q", "i"); E.fact(z3.And(k.t >= 0, k.t < lift(nind)))
                if not E.implied(S(z3.And(lo == 0, hi == lift(nind)))): continue
                bq = S(z3.substitute(bd, (z3.Int("#k"), k.t)))
                for which in (0, 1):
                    if E.implied(_cmp("==", bq, body(which, j, i, y, x, k))):
                        E.fact(app == lift(d2(j, i, y, x) if which else n2(j, i, y, x))); break
        # slots of the window, row by row
        def bounds(f, p, n_):
            """bounds of the window around p on an axis of n_ points, by name; f: their definitions are shown to give what the names are used for"""
            return S(f[0](lift(p))), S(f[1](lift(p)))
        FY, FX = [(z3.Function("WIN%s0" % a, Z, Z), z3.Function("WIN%s1" % a, Z, Z)) for a in "YX"]
        def shape(j, i):
            (y0, y1), (x0, x1) = bounds(FY, j, nr), bounds(FX, i, nc)
            return y0, x0, sub(y1, y0), sub(x1, x0)
        def named(l):
            """the code's window bounds are those of the contract; from here on they are known by name"""
            j, i = at()
            if l.dom[2] != 1: raise Unsupported("window visited in steps")
            q = add(mul(2, sr), 1)
            p, n_, f, a = (j, nr, FY, "rows") if l.ident == y_ else (i, nc, FX, "columns")
            lo, hi = window(p, n_, sr)
            E.oblige("window: first of the %s" % a, _cmp("==", l.dom[0], lo)); E.oblige("window: last of the %s" % a, _cmp("==", l.dom[1], hi))
            l.dom = (*bounds(f, p, n_), 1)
            if l.ident == x_: return
            for p, n_, f, a in ((j, nr, FY, "rows"), (i, nc, FX, "columns")):
                for nm, g in (("inside the scan", lambda lo, hi: band(_cmp(">=", lo, 0), _cmp("<=", hi, n_))), ("contains the point", lambda lo, hi: band(_cmp("<=", lo, p), _cmp("<", p, hi))),
                              ("within the search radius", lambda lo, hi: _cmp("==", sub(hi, lo), smin(q, n_)))):
                    E.oblige("window: %s, %s" % (a, nm), g(*window(p, n_, sr)))
                    if nm[0] == "w": g = lambda lo, hi: _cmp("<=", sub(hi, lo), q)
                    E.fact(lift(g(*bounds(f, p, n_))))
            y0, x0, H, W = shape(j, i)
            E.lemma("the window has a point", _cmp(">=", mul(H, W), 1))
            E.lemma("as many slots as the window has points", _cmp("<=", mul(H, W), mul(q, q)))
        def slot(j, i, y, x):
            y0, x0, H, W = shape(j, i)
            t = add(mul(sub(y, y0), W), sub(x, x0))
            E.fact(z3.Implies(lift(inwin(j, i, y, x)), z3.And(PY(lift(t)) == lift(y), PX(lift(t)) == lift(x))))
            return t
        def inwin(j, i, y, x):
            y0, x0, H, W = shape(j, i)
            return band(band(_cmp(">=", y, y0), _cmp("<", y, add(y0, H))), band(_cmp(">=", x, x0), _cmp("<", x, add(x0, W))))
        def count(j, i):
            y0, x0, H, W = shape(j, i); return mul(H, W)
        def point(j, i, t):
            t = lift(t); y, x = S(PY(t)), S(PX(t))
            y0, x0, H, W = shape(j, i)
            c = z3.And(t >= 0, t < lift(count(j, i))); f = z3.And(lift(inwin(j, i, y, x)), t == lift(add(mul(sub(y, y0), W), sub(x, x0))))
            E.fact(f if E.implied(S(c)) else z3.Implies(c, f))
            return y, x
        def own(j, i, y, x): return band(_cmp("==", y, j), _cmp("==", x, i))
        def raw(j, i, t): return name(RAW, j, i, *point(j, i, t))
        def step(j, i, t): return name(STEP, j, i, *point(j, i, t))
        def weight(j, i, t): return name(WT, j, i, t)
        def define_weight(j, i, t):
            y, x = point(j, i, t)
            E.fact(lift(_cmp("==", name(STEP, j, i, y, x), core.ite(own(j, i, y, x), off, Fraction(0)))))
            E.fact(lift(_cmp("==", weight(j, i, t), weight_(j, i, t))))
        def weight_(j, i, t):
            return add(E.exp(core.neg(quo(smax(sub(raw(j, i, t), dth), 0), mul(lam, lam)))), step(j, i, t))
        def lin(y, x): return E.lin_idx(y, nc, x)
        class Pairs:
            """the cache of differences: a value found under a key is the one stored under it"""
            __vc_loopsafe__ = True
            def key(self, key):
                j, i = at(); l = [l for l in E.loops if l.sym and l.active]
                if len(l) < 4: raise Unsupported("cache used outside the window loops")
                y, x = l[2].k, l[3].k
                a, b = lin(j, i), lin(y, x)
                exp_ = add(smin(a, b), mul(smax(a, b), 2 ** 32))
                if not E.implied(_cmp("==", key, exp_)): raise Unsupported("key of a pair of points")
                v = S(PD(lift(exp_))); 
                E.fact(z3.Implies(z3.Not(lift(own(j, i, y, x))), v.t == lift(distance(j, i, y, x))))
                E.fact(lift(key) == lift(exp_))
                return v, (j, i, y, x)
            def __contains__(self, key): return E.decide(E.const("known!%d" % E.n, "b"))
            def __getitem__(self, key): return self.key(key)[0]
            def __setitem__(self, key, v):
                s, p = self.key(key)
                identify([lift(v)] + list(E.pc), *p); define(*p)
                E.oblige("value remembered for a pair of points", _cmp("==", v, s))
        m.numba.typed = types.SimpleNamespace(Dict=types.SimpleNamespace(empty=lambda **k: Pairs()))
        m.numba.core = types.SimpleNamespace(types=types.SimpleNamespace(uint64=None, float32=None))
        def cnt(l, k):
            """slots filled"""
            j, i = at(l); y0, x0, H, W = shape(j, i)
            if l.ident == y_: return mul(sub(k, y0), W)
            y = l.y_
            return add(mul(sub(y, y0), W), sub(k, x0))
        def upto(l, f, rest=lambda j, i, t: 0):
            def content(pre, idx, k):
                j, i = at(l)
                return core.ite(_cmp("<", idx[0], cnt(l, k)), f(j, i, idx[0]), Fraction(0) if f is not pt else 0)
            return content
        def pt(j, i, t): return lin(*point(j, i, t))
        gq, LO, HI = E.const("pixel", "i"), E.const("lowest"), E.const("highest")
        E.assume(band(band(gq >= 0, _cmp("<", gq, npix)), _cmp("<=", LO, HI)))
        def W_(j, i, t): return weight(j, i, t)
        def T(j, i):
            v = S(BF(lift(count(j, i)))); return v
        def P(j, i, k, q):
            k, q = lift(k), lift(q)
            E.fact(PF(z3.IntVal(0), q) == 0)
            p = S(k - 1); y, x = point(j, i, p)
            E.fact(z3.Implies(k >= 1, PF(k, q) == PF(k - 1, q) + DF(lift(lin(y, x)), q) * lift(quo(W_(j, i, p), T(j, i)))))
            return S(PF(k, q))
        def find_contents(l):
            if l.ident in (y_, x_, s1_, s2_): at(l)
            if l.ident == x_: l.y_ = [q for q in E.loops if q.ident == y_][-1].k
            if l.ident in (y_, x_):
                named(l)
                return {"pindx": upto(l, pt), "weights": upto(l, raw), "diff_step": upto(l, step)}
            if l.ident == s1_:
                def w(pre, idx, k):
                    j, i = at(l); t = idx[0]
                    return core.ite(_cmp("<", t, k), weight(j, i, t), pre(idx))
                return {"weights": w}
            if l.ident == s2_:
                def w(pre, idx, k):
                    j, i = at(l); t = idx[0]
                    return core.ite(_cmp("<", t, k), quo(weight(j, i, t), T(j, i)), pre(idx))
                def o(pre, idx, k):
                    j, i = at(l)
                    r, c = E.divmod_idx(idx[0], nc)
                    return core.ite(own(j, i, r, c), P(j, i, k, idx[1]), pre(idx))
                return {"weights": w, "dataout": o}
            if l.ident == q_:
                at(l); ko = [q for q in E.loops if q.ident == s2_][-1].k
                def o(pre, idx, k):
                    j, i = at(l)
                    r, c = E.divmod_idx(idx[0], nc)
                    return core.ite(band(own(j, i, r, c), _cmp("<", idx[1], k)), P(j, i, add(ko, 1), idx[1]), pre(idx))
                return {"dataout": o}
            return None
        E.find_contents = find_contents
        def on_value(l, v):
            if l.ident == s1_: define_weight(*at(l), l.k)
            if l.ident != x_: return
            j, i = at(l); y = l.y_
            identify([lift(v)] + list(E.pc), j, i, y, l.k); define(j, i, y, l.k)
        E.on_value = on_value
        def one(e):
            if not e._vals: return None
            if len(e._vals) != 1: raise Unsupported("state carried through the loop")
            return list(e._vals.values())[0]
        def find_inv(l):
            if l.ident in (y_, x_):
                def inv(e):
                    v = one(e)
                    j, i = at(l)
                    out = [] if v is None else [("slots filled", _cmp("==", v, cnt(l, e.k)))]
                    if l.ident == x_ and e._assuming:
                        slot(j, i, l.y_, e.k)
                    return out
                return inv
            if l.ident == s1_:
                def inv(e):
                    v = one(e); j, i = at(l); k = lift(e.k)
                    E.fact(BF(z3.IntVal(0)) == 0)
                    E.fact(z3.Implies(k >= 1, BF(k) == BF(k - 1) + lift(weight(j, i, S(k - 1)))))
                    if v is None: return []
                    if not e._assuming and not core.conc(e.k): define_weight(j, i, S(k - 1))
                    return [("sum of the weights so far", _cmp("==", v, S(BF(k)))), ("the sum is positive", bor(_cmp("<", e.k, 1), S(BF(k) > 0)))]
                return inv
            if l.ident == s2_:
                # a pattern whose weights are positive and whose values at a pixel lie between two bounds over the window has its result between them
                def inv(e):
                    if e._vals: raise Unsupported("state carried through the loop")
                    j, i = at(l); k = lift(e.k); t = T(j, i)
                    E.fact(z3.And(AF(z3.IntVal(0)) == 0, BF(z3.IntVal(0)) == 0))
                    p = S(k - 1)
                    if not core.conc(e.k):
                        y, x = point(j, i, p); c = z3.And(k >= 1, k <= lift(count(j, i)))
                        d = DF(lift(lin(y, x)), gq.t); w = lift(weight(j, i, p)); u = quo(weight(j, i, p), t).t
                        E.fact(z3.Implies(c, z3.And(AF(k) == AF(k - 1) + u, BF(k) == BF(k - 1) + w)))
                        E.fact(z3.Implies(c, z3.And(LO.t <= d, d <= HI.t)))       # the bounds: of every pattern of the window at the pixel
                        if not e._assuming:
                            define_weight(j, i, p)
                            E.lemma("weights are positive", weight(j, i, p) > 0)
                            E.lemma("the sum of the weights is positive", t > 0)
                            for nm, g in (("not negative", u >= 0), ("times the sum", u * t.t == w), ("not below", d * u >= LO.t * u), ("not above", d * u <= HI.t * u)): E.lemma("normalised weight: " + nm, S(g))
                    Pk = P(j, i, e.k, gq)
                    return [("normalised weights", S(AF(k) * t.t == BF(k))), ("not below the smallest value", S(LO.t * AF(k) <= Pk.t)), ("not above the largest value", S(Pk.t <= HI.t * AF(k)))]
                return inv
        E.find_invariant = find_inv
        kw = dict(diff_offset=off)
        out = m.NLPAR.nlpar_nb(data, lam, sr, dth, sigma, nr, nc, indices, bool(sat), **kw)
        j, i = E.row(0, nr), E.row(0, nc)
        E.oblige("one pattern per point", band(_cmp("==", out.shape[0], n), _cmp("==", out.shape[1], npix)))
        E.oblige("weighted mean over the window", _cmp("==", out[lin(j, i), gq], S(PF(lift(count(j, i)), gq.t))))
        E.lemma("the weights of the mean sum to one", S(AF(lift(count(j, i))) == 1))
        E.oblige("not outside the range of the patterns in the window", band(_cmp(">=", out[lin(j, i), gq], LO), _cmp("<=", out[lin(j, i), gq], HI)))
    return th
def proofs(tier):
    f = ["nlpar_cpu.NLPAR.nlpar_nb"]
    return [Proof("kernel, saturated pixels %s" % ("left out" if s else "kept"), f, kernel(s), tmo_ms=20000, opaque_sqrt=True, limit=300, zero_div_inf=False) for s in (True, False)]
