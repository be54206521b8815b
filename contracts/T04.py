"""orientation of a set of matched bands (the QUEST solver)"""
from pyvc import core, arrays
from pyvc.core import _cmp, band, bor, bnot, add, sub, mul, S, ite
from pyvc.spec import *
from contracts.files import obj
LEVEL = "exploration"
EXPLANATION = "PROVED by tasks over the real solver, for any number of patterns and bands, any poles, bands and weights, at an arbitrary pattern: the result is a unit quaternion with non-negative scalar part; exactly the bands with weight above 1e-7 are used and patterns with fewer than three of them keep the identity and the agreement -1; the fit is the mean agreement, over the bands used, of the bands rotated by the orientation returned with their poles. The orientation q returned satisfies K q = fit * q in its three vector components and, in the scalar one, up to a remainder in proportion to the characteristic polynomial at the fit (so q is an eigenvector exactly when the fit is an eigenvalue), where K is Davenport's matrix of the weighted sums over the bands used; near a half turn it is, up to sign, the eigenvector of the largest eigenvalue of K. The while loop is under a contract: it starts at one, every step is a Newton step on the characteristic polynomial of K, and the estimate never falls below the largest eigenvalue. Lemmas: the quadratic form of K at a quaternion is the weighted agreement of the rotated bands with their poles; the agreement of one band is at most one, and one exactly when the rotated band is the pole (so for noise-free bands the largest eigenvalue is one, where the iteration starts and stays). K is made of sums over the bands, hence does not depend on their order, and a common rotation of the bands rotates its eigenvectors. _refine_orientation_quest hands the solver the pole of every band's label, the bands and weights in proportion to those given. BOUNDED: how close the estimate is to the largest eigenvalue when the loop stops after ten steps, and the weights themselves (_calc_quest_weights); the level of the property stays exploration for these."
ASSUMPTIONS = ["spectral theorem: the characteristic polynomial of the symmetric matrix K is the product of (x - l) over four real eigenvalues l, the largest of which is the maximum of its quadratic form over unit quaternions", "a sum of terms not above others is not above their sum", "np.linalg.eigh: unit eigenvectors, the largest eigenvalue last", "contract of quat_vectorL1N: R05", "poles and band normals are unit vectors"]
Z, R = z3.IntSort(), z3.RealSort()
TRI = "pyebsdindex.tripletvote"
EPS = Fraction(1, 10 ** 7)
class World:
    """arbitrary poles, band normals and weights; the quadratic form of row p from the definition"""
    def __init__(w, E, wdt=None):
        w.E = E
        w.np_, w.nb = E.const("npats", "i"), E.const("nbands", "i")
        E.assume(w.np_ >= 1); E.assume(w.nb >= 1)
        P, N, W = z3.Function("POLE", Z, Z, Z, R), z3.Function("NORM", Z, Z, Z, R), z3.Function("WT", Z, Z, R)
        w.P = marr("poles", (w.np_, w.nb, 3), lambda i: S(P(*[lift(x) for x in i])))
        w.N = marr("norms", (w.np_, w.nb, 3), lambda i: S(N(*[lift(x) for x in i])))
        w.W = marr("weights", (w.np_, w.nb), lambda i: S(W(*[lift(x) for x in i])), wdt)
def run(E, L, w, eig=None, inv=None):
    m = L.load(TRI); E.strict_sums = True
    E.find_while = lambda ident, names, loc: inv or (lambda e: [])
    def eigh(M):
        M = arrays.asarray(M)
        if M.shape != (4, 4): raise Unsupported("eigh")
        if eig is None: raise core.PathEnd()        # not the subject of this task
        r = eig(M)
        return r
    m.np.linalg.eigh = eigh
    def rot(q, v, n, t, p=1):
        E.oblige("active sense of the rotation", p == 1)
        w.rot = ([q[i] for i in range(4)], v, n)
        RV = z3.Function("ROTATED", Z, Z, R)
        return marr("rotated", (n, 3), lambda i: S(RV(lift(i[0]), lift(i[1]))))
    m.rotlib.quat_vectorL1N = rot
    f = m.BandIndexer._orientation_quest_nb
    return f(w.P, w.N, w.W)
def form(E, w, p):
    """count of bands used, the sums of weight * band component * pole component, and Davenport's matrix of them"""
    if len(E.nzs) != 1: raise Unsupported("bands in use are not enumerated once")
    nz = E.nzs[0]
    pos = lambda j: nz.at(j)
    sw = E.sum_of(0, nz.n, lambda j: w.W[p, pos(j)])
    wn = lambda j: core.truediv(w.W[p, pos(j)], sw)
    B = [[E.sum_of(0, nz.n, lambda j: mul(mul(wn(j), w.N[p, pos(j), a]), w.P[p, pos(j), c])) for c in range(3)] for a in range(3)]
    sg = add(add(B[0][0], B[1][1]), B[2][2])
    z = [sub(B[1][2], B[2][1]), sub(B[2][0], B[0][2]), sub(B[0][1], B[1][0])]
    K = [[sg] + z] + [[z[a]] + [sub(add(B[a][c], B[c][a]), sg if a == c else 0) for c in range(3)] for a in range(3)]
    return nz, sw, wn, B, K
def det(M):
    if len(M) == 1: return M[0][0]
    r = Fraction(0)
    for c in range(len(M)):
        r = add(r, mul(mul((-1) ** c, M[0][c]), det([row[:c] + row[c + 1:] for row in M[1:]])))
    return r
def minor(K, rows): return det([[K[a][c] for c in rows] for a in rows])
def charpoly(K):
    """coefficients of x^2, x, 1 of det(x - K) for the traceless K"""
    import itertools
    e = lambda k: __import__("functools").reduce(add, [minor(K, r) for r in itertools.combinations(range(4), k)])
    return e(1), e(2), e(3), det(K)
def row_of(E):
    L_ = [l for l in E.loops if l.sym and l.active and l.mode == "map"]
    if len(L_) != 1: raise Unsupported("patterns are not visited by one loop")
    return L_[0].kv
def result(what):
    def th(E, L):
        w = World(E)
        w.vec = [E.const("v%d" % i) for i in range(4)]
        w.M, w.rot = None, None
        def eig(M):
            w.M = M
            E.fact(lift(_cmp("==", dotp(w.vec, w.vec), 1)))
            V = arrays.asarray([[E.const("e%d%d" % (i, j)) for j in range(3)] + [w.vec[i]] for i in range(4)])
            return arrays.asarray([E.const("l%d" % i) for i in range(4)]), V
        q, fit, fu = run(E, L, w, eig)
        p = E.row(0, w.np_)
        v = [q[p, i] for i in range(4)]
        if what == "unit":
            E.oblige("scalar part is not negative", _cmp(">=", v[0], 0))
            E.oblige("unit quaternion", _cmp("==", dotp(v, v), 1))
            E.oblige("inputs are not modified", unmodified(w.P) and unmodified(w.N) and unmodified(w.W))
            if w.rot is None:
                nz = E.nzs[0]
                E.oblige("only patterns with fewer than three bands are left out", _cmp("<", nz.n, 3))
                E.oblige("left out: identity", band(_cmp("==", v[0], 1), _cmp("==", fu[p], -1)))
                return
            nz = E.nzs[0]
            i = E.fresh("band", "i"); E.fact(z3.And(i.t >= 0, lift(_cmp("<", i, w.nb))))
            E.oblige("the bands used are those with weight", _cmp("==", nz.member(i), _cmp(">", w.W[p, i], EPS)))
            a, u, n = w.rot
            for c in range(4): E.oblige("the fit is that of the orientation returned (%d)" % c, _cmp("==", a[c], v[c]))
            E.oblige("the fit is taken over the bands used", _cmp("==", n, nz.n))
            RV = z3.Function("ROTATED", Z, Z, R)
            j = E.row(0, nz.n)
            for c in range(3): E.oblige("the fit rotates the band normals (%d)" % c, _cmp("==", u[j, c], w.N[p, nz.at(j), c]))
            s = E.sum_of(0, nz.n, lambda j: dotp([S(RV(lift(j), z3.IntVal(c))) for c in range(3)], [w.P[p, nz.at(j), c] for c in range(3)]))
            E.oblige("fit: mean agreement of the bands with their poles", _cmp("==", mul(fu[p], nz.n), s))
            return
        if w.rot is None: return
        nz, sw, wn, B, K = form(E, w, p)
        lam = fit[p]
        if w.M is not None:
            for a in range(4):
                for c in range(4): E.oblige("near a half turn: eigenvectors of the quadratic form (%d,%d)" % (a, c), _cmp("==", w.M[a, c], K[a][c]))
            sg = [band(*[_cmp("==", v[i], mul(s, w.vec[i])) for i in range(2)]) for s in (1, -1)]
            E.oblige("near a half turn: the eigenvector of the largest eigenvalue, up to sign", bor(*[bandn([_cmp("==", v[i], mul(s, w.vec[i])) for i in range(4)]) for s in (1, -1)]))
            return
        res = [sub(dotp(K[a], v), mul(lam, v[a])) for a in range(4)]
        for a in range(1, 4): E.oblige("K q - fit * q vanishes in component %d" % a, _cmp("==", res[a], 0))
        e1, e2, e3, e4 = charpoly(K)
        cp = add(sub(add(mul(mul(lam, lam), mul(lam, lam)), mul(e2, mul(lam, lam))), mul(e3, lam)), e4)
        G = det([[sub(lam if a == c else 0, K[a][c]) for c in range(1, 4)] for a in range(1, 4)])
        E.oblige("K q - fit * q in the scalar component is in proportion to the characteristic polynomial at the fit", _cmp("==", mul(res[0], G), mul(-1, mul(v[0], cp))))
    return th
def bandn(cs):
    r = True
    for c in cs: r = band(r, c)
    return r
def davenport(E, L):
    """the quadratic form at a unit quaternion is the weighted agreement of the rotated bands with their poles"""
    q = [E.const("q%d" % i) for i in range(4)]
    B = [[E.const("B%d%d" % (a, c)) for c in range(3)] for a in range(3)]
    sg = add(add(B[0][0], B[1][1]), B[2][2])
    z = [sub(B[1][2], B[2][1]), sub(B[2][0], B[0][2]), sub(B[0][1], B[1][0])]
    K = [[sg] + z] + [[z[a]] + [sub(add(B[a][c], B[c][a]), sg if a == c else 0) for c in range(3)] for a in range(3)]
    M = qmat(q)
    E.oblige("q' K q = sum over components of R[c][a] B[a][c]", _cmp("==", dotp(q, [dotp(K[a], q) for a in range(4)]), dotp([M[c][a] for a in range(3) for c in range(3)], [B[a][c] for a in range(3) for c in range(3)])))
    b, pl = [E.const("b%d" % i) for i in range(3)], [E.const("p%d" % i) for i in range(3)]
    E.oblige("of one band: pole . R band", _cmp("==", dotp([M[c][a] for a in range(3) for c in range(3)], [mul(b[a], pl[c]) for a in range(3) for c in range(3)]), dotp(pl, [dotp(M[c], b) for c in range(3)])))
def newton(E, L):
    """the eigenvalue estimate never falls below the largest eigenvalue"""
    w = World(E)
    l = [E.const("l%d" % i) for i in range(4)]
    for i in range(1, 4): E.assume(_cmp(">=", l[0], l[i]))
    def inv(e):
        W = [x for x in E.ghost["whiles"].values()]
        if len(W) != 1: raise Unsupported("more than one while loop")
        W = W[0]
        names = [v for v, x in W.init.items() if core.isreal(x) and conc(x) and x == 1]
        if len(names) != 1: raise Unsupported("no variable starts at the sum of the weights")
        lam = getattr(e, names[0])
        if getattr(W, "kept", None) and not e._assuming:
            l0 = W.kept[names[0]]
            nz, sw, wn, B, K = form(E, w, row_of(E))
            e1, e2, e3, e4 = charpoly(K)
            E.oblige("the quadratic form has no trace", _cmp("==", e1, 0))
            N = add(sub(add(mul(mul(l0, l0), mul(l0, l0)), mul(e2, mul(l0, l0))), mul(e3, l0)), e4)
            D = sub(add(mul(4, mul(l0, mul(l0, l0))), mul(2, mul(e2, l0))), e3)
            u = [sub(l0, x) for x in l]
            # the numbers l are the eigenvalues: the characteristic polynomial is the product of (x - l)
            step = core.truediv(N, D)
            E.oblige("a Newton step on the characteristic polynomial of the quadratic form", _cmp("==", lam, sub(l0, step)))
            # abstract values of the polynomial, its derivative and the next estimate
            n, d, nx = E.fresh("charpoly"), E.fresh("derivative"), E.fresh("next")
            prod = lambda xs: mul(mul(xs[0], xs[1]), xs[2])
            E.scope_push()
            E.fact(lift(_cmp("==", n, mul(u[0], prod(u[1:]))))); 
            E.fact(lift(_cmp("==", d, add(add(prod(u[1:]), mul(u[0], mul(u[1], u[2]))), add(mul(u[0], mul(u[1], u[3])), mul(u[0], mul(u[2], u[3])))))))
            E.fact(d.t != 0); E.fact((nx.t - l0.t) * d.t == -n.t)
            E.lemma("derivative is positive right of the largest eigenvalue", _cmp(">", d, 0))
            E.lemma("the step does not pass it", _cmp("<=", n, mul(u[0], d)))
            E.lemma("the next estimate is not below the largest eigenvalue", _cmp(">=", nx, l[0]))
            E.scope_pop()
            return []
        return [("not below the largest eigenvalue", _cmp(">=", lam, l[0]))] if e._assuming else [("starts at the sum of the weights", _cmp("==", lam, 1))]
    q, fit, fu = run(E, L, w, None, inv)
def bound(E, L):
    """of one band: the agreement of unit vectors is at most one, and one when the rotated band is the pole"""
    r, pl = [E.const("r%d" % i) for i in range(3)], [E.const("p%d" % i) for i in range(3)]
    E.assume(_cmp("==", dotp(r, r), 1)); E.assume(_cmp("==", dotp(pl, pl), 1))
    d = [sub(a, b) for a, b in zip(pl, r)]
    D = [E.fresh("sq") for _ in d]
    for x, y in zip(D, d): E.fact(lift(_cmp("==", x, mul(y, y))))
    for x, y in zip(D, d): E.lemma("a square is not negative", band(_cmp(">=", x, 0), S(lift(_cmp("==", x, 0)) == lift(_cmp("==", y, 0)))))
    g = E.fresh("agreement"); E.fact(lift(_cmp("==", g, dotp(pl, r))))
    E.lemma("squared distance of unit vectors", _cmp("==", dotp([1, 1, 1], D), sub(2, mul(2, g))))
    E.oblige("agreement of one band at most one", _cmp("<=", g, 1))
    E.oblige("agreement one exactly when the rotated band is the pole", S(lift(_cmp("==", g, 1)) == z3.And(*[lift(_cmp("==", x, 0)) for x in d])))
def refine(E, L):
    """the solver is handed the pole of every band's label, the bands and the weights of the pattern"""
    m = L.load(TRI)
    w = World(E, arrays.F32)      # as _calc_quest_weights returns them
    nl = E.const("nlib", "i"); E.assume(nl >= 1)
    PF, MF = z3.Function("LIB", Z, Z, R), z3.Function("LABEL", Z, Z, Z)
    lib = marr("lib", (nl, 3), lambda i: S(PF(*[lift(x) for x in i])))
    def lab(i):
        v = S(MF(*[lift(x) for x in i])); E.fact(lift(_cmp("<", v, nl))); return v
    mt = marr("label", (w.np_, w.nb), lab, arrays.I64)
    b = obj(m, "BandIndexer")
    p, i = E.row(0, w.np_), E.row(0, w.nb)
    E.assume(_cmp(">=", w.W[p, i], 0))
    QF, FF, FU = z3.Function("QOUT", Z, Z, R), z3.Function("FITW", Z, R), z3.Function("FITU", Z, R)
    qo = marr("qo", (w.np_, 4), lambda i: S(QF(*[lift(x) for x in i])))
    fw, fu = marr("fw", (w.np_,), lambda i: S(FF(lift(i[0])))), marr("fu", (w.np_,), lambda i: S(FU(lift(i[0]))))
    got = []
    def quest(poles, norms, wt):
        got.append(1)
        for c in range(3):
            E.oblige("pole of the band's label (%d)" % c, S(z3.Implies(MF(lift(p), lift(i)) >= 0, lift(_cmp("==", poles[p, i, c], S(PF(MF(lift(p), lift(i)), z3.IntVal(c))))))))
            E.oblige("measured band (%d)" % c, _cmp("==", norms[p, i, c], w.N[p, i, c]))
        E.oblige("one entry for every band of every pattern", bandn([_cmp("==", poles.shape[0], w.np_), _cmp("==", poles.shape[1], w.nb), _cmp("==", norms.shape[0], w.np_), _cmp("==", norms.shape[1], w.nb), _cmp("==", wt.shape[0], w.np_), _cmp("==", wt.shape[1], w.nb)]))
        s = E.sum_of(0, w.nb, lambda j: w.W[p, j])
        E.oblige("weights in proportion to those given", _cmp("==", mul(wt[p, i], core.smax(s, Fraction(1, 10 ** 12))), w.W[p, i]))
        return qo, fw, fu
    b._orientation_quest_nb = quest
    q, f = b._refine_orientation_quest(lib, w.N, mt, mt, weights=w.W)
    E.oblige("the solver is called", len(got) == 1)
    for c in range(4): E.oblige("orientation of the solver (%d)" % c, _cmp("==", q[p, c], qo[p, c]))
    E.oblige("unweighted fit of the solver", _cmp("==", f[p], fu[p]))
    E.oblige("inputs are not modified", unmodified(w.N) and unmodified(w.W) and unmodified(lib) and unmodified(mt))
def proofs(tier):
    f = ["tripletvote.BandIndexer._orientation_quest_nb"]
    o = dict(limit=300, zero_div_inf=False, collapse=True, prune_ms=100, sum_keep=True, while_div="Newton steps are taken where the derivative of the characteristic polynomial does not vanish exactly")
    return [Proof("unit quaternion, fit", f, result("unit"), **o), Proof("eigenvector of the quadratic form", f, result("eigen"), **o), Proof("eigenvalue estimate", f, newton, **o), Proof("quadratic form", ["lemma"], davenport), Proof("agreement of one band", ["lemma"], bound),
        Proof("weights and poles handed to the solver", ["tripletvote.BandIndexer._refine_orientation_quest"], refine)]
