"""expansion of reflector families"""
import types
from pyvc import core, arrays, npshim
from pyvc.core import _cmp, band, bor, bnot, ite, add, sub, mul, S
from pyvc.spec import *
from contracts.files import obj, pick
LEVEL = "exploration"
EXPLANATION = "PROVED by tasks: _symrotpoles gives for every symmetry operator the plane whose Cartesian normal is the rotated Cartesian normal of the given one; _hkl_unique of any number of poles keeps at least one row for every distinct (rounded) triple of indices and never two rows of one triple (the positional encoding of the triples is shown to be injective); _calc_pole_dot_int is the cosine of the angle between the normals in the given metric; _xstalplane2cart the Cartesian normal. build_trip_lib for 1 to 3 families of any size against these contracts: the set of a family is made from all operators and both senses, the complete list is the families one after the other, each plane is attributed to its family, start and number of every family are right, the stored normal is the unit vector of the plane's Cartesian normal and the angle table the angles between all planes. BOUNDED: the number of families in build_trip_lib (3); that the rounded triples of a family are its integer indices (rounding of floating point) and addphase, by the suite on the real code, so the property stays at exploration level."
ASSUMPTIONS = ["contract of np.unique: the positions of one element of every distinct value", "contract of quat_vector: R05; the symmetry operators: S01, S02; structure matrices and their inverses: C01", "the part of build_trip_lib that builds the triplets (T02) is run on one angle of 90 degrees per pair of families: it does not feed the list of planes"]
Z, R = z3.IntSort(), z3.RealSort()
TRI = "pyebsdindex.tripletvote"
def bi(m, **k): return obj(m, "BandIndexer", **k)
def fn(name, shape, dt=None):
    f = z3.Function(name, *([Z] * len(shape) + [Z if dt is not None and dt.kind == "i" else R]))
    return marr(name, shape, lambda i: S(f(*[lift(x) for x in i])), dt)
def symrot(many):
    def th(E, L):
        m = L.load(TRI)
        n = E.const("nsym", "i") if many else 1
        if many: E.assume(n >= 2)
        A, Ai, h, Q = sarr("A", (3, 3)), sarr("Ai", (3, 3)), sarr("h", (3,)), fn("Q", (n, 4))
        W = fn("W", (n, 3))
        b = bi(m, qsymops=Q)
        def qv(q, v, p=None):
            E.oblige("all operators of the phase are applied", q is Q)
            for k in range(3): E.oblige("to the Cartesian normal of the plane", _cmp("==", v[k], dotp([A[k, j] for j in range(3)], [h[j] for j in range(3)])))
            return W if many else W[0, :]
        m.rotlib.quat_vector = qv
        r = b._symrotpoles(h, types.SimpleNamespace(reciprocalStructureMatrix=A, invReciprocalStructureMatrix=Ai, directStructureMatrix=sarr("D", (3, 3)), invDirectStructureMatrix=sarr("Di", (3, 3))))
        r = r.reshape((-1, 3))
        E.oblige("one plane per operator", _cmp("==", r.shape[0], n))
        k = pick(E, n)
        for c in range(3): E.oblige("the plane of the rotated normal", _cmp("==", r[k, c], dotp([Ai[c, j] for j in range(3)], [W[k, j] for j in range(3)])))
    return th
def cosine(E, L):
    m = L.load(TRI); b = bi(m)
    n1, n2 = E.const("n1", "i"), E.const("n2", "i"); E.assume(band(n1 >= 1, n2 >= 1))
    P1, P2, G = fn("P1", (n1, 3)), fn("P2", (n2, 3)), sarr("G", (3, 3))
    r = b._calc_pole_dot_int(P1, P2, rMetricTensor=G)
    E.oblige("one value per pair", band(_cmp("==", r.shape[0], n1), _cmp("==", r.shape[1], n2)))
    i, j = pick(E, n1), pick(E, n2)
    def form(a, x, c, y): return dotp([a[x, k] for k in range(3)], [dotp([G[k, l] for l in range(3)], [c[y, l] for l in range(3)]) for k in range(3)])
    aa, bb, ab = form(P1, i, P1, i), form(P2, j, P2, j), form(P1, i, P2, j)
    E.assume(band(_cmp(">", aa, 0), _cmp(">", bb, 0)))
    v = r[i, j]
    x = core.truediv(ab, mul(E.sqrt(aa), E.sqrt(bb)))
    E.oblige("cosine of the angle between the planes, kept in [-1, 1]", _cmp("==", v, core.smax(-1, core.smin(1, x))))
def cart(E, L):
    m = L.load(TRI); b = bi(m)
    n = E.const("n", "i"); E.assume(n >= 1)
    P, A = fn("P", (n, 3)), sarr("A", (3, 3))
    r = b._xstalplane2cart(P, rStructMatrix=A)
    i = pick(E, n)
    E.oblige("one normal per plane", band(_cmp("==", r.shape[0], n), _cmp("==", r.shape[1], 3)))
    for c in range(3): E.oblige("Cartesian normal of the plane", _cmp("==", r[i, c], dotp([A[c, k] for k in range(3)], [P[i, k] for k in range(3)])))
class Unique:
    """contract of np.unique(x, return_index=True): positions of one element of every distinct value"""
    def __init__(s, E): s.E = E; s.n = s.x = None
    def __call__(s, x, return_index=False, axis=None, **k):
        E = s.E
        if s.x is not None or not return_index or k: raise Unsupported("np.unique")
        s.x, s.axis = x, axis
        s.N = x.shape[0]
        s.n = E.const("nunique", "i"); E.assume(band(s.n >= 1, _cmp("<=", s.n, s.N)))
        f, g = z3.Function("UNQ", Z, Z), z3.Function("WHERE", Z, Z)
        s.f, s.g = f, g
        def at(i):
            v = S(f(lift(i))); E.fact(z3.Implies(z3.And(lift(i) >= 0, lift(i) < s.n.t), z3.And(v.t >= 0, lift(_cmp("<", v, s.N))))); return v
        s.at = at
        return object(), marr("unq", (s.n,), lambda i: at(i[0]), arrays.I64)
    def value(s, r): return [s.x[r]] if s.axis is None else [s.x[r, c] for c in range(s.x.shape[1])]
    def place(s, r):
        """position of row r's value among the distinct ones"""
        k = S(s.g(lift(r))); E = s.E
        E.fact(z3.And(k.t >= 0, k.t < s.n.t))
        for a, b in zip(s.value(s.at(k)), s.value(r)): E.fact(lift(_cmp("==", a, b)))
        return k
    def distinct(s, i, j):
        """values at two different positions differ"""
        E = s.E
        E.fact(z3.Or(lift(i) == lift(j), *[lift(_cmp("!=", a, b)) for a, b in zip(s.value(s.at(i)), s.value(s.at(j)))]))
def injective(E, name, b, x, y, v):
    """x[0] + b x[1] + b^2 x[2] with digits below b: equal values have equal digits; v: condition that the values are equal"""
    E.scope_push(); E.fact(lift(v))
    for c in range(3):
        for d in (x, y): E.lemma(name + ": digits", band(_cmp(">=", d[c], 0), _cmp("<", d[c], b)))
    for c in (0, 1):
        # d = b * k with |d| < b
        d = sub(x[c], y[c]); k = sub(y[c + 1], x[c + 1])
        if c == 0: k = add(k, mul(b, sub(y[2], x[2])))
        K = E.fresh("K", "i"); E.fact(lift(_cmp("==", K, k)))
        E.lemma(name + ": difference is a multiple of the base", _cmp("==", d, mul(b, K)))
        E.lemma(name + ": +", S(z3.Implies(K.t >= 1, lift(_cmp(">=", mul(b, K), b))))); E.lemma(name + ": -", S(z3.Implies(K.t <= -1, lift(_cmp("<=", mul(b, K), core.neg(b))))))
        E.lemma(name + ": no multiple but zero", _cmp("==", K, 0))
        E.lemma(name + ": digit %d" % c, _cmp("==", x[c], y[c]))
        E.lemma(name + ": rest", _cmp("==", k, 0))
    E.lemma(name + ": digit 2", _cmp("==", x[2], y[2]))
    E.scope_pop()
    E.fact(z3.Implies(lift(v), z3.And(*[lift(_cmp("==", p, q)) for p, q in zip(x, y)])))
def unique(E, L):
    m = L.load(TRI); b = bi(m)
    n = E.const("n", "i"); E.assume(n >= 1)
    P = fn("POLE", (n, 3))
    u = Unique(E); m.np.unique = u
    r = b._hkl_unique(P, reduceInversion=False)
    hk = lambda a, i: [core.rint(a[i, c]) for c in range(3)]
    q = pick(E, n)
    if u.x is None:
        E.oblige("a single pole is kept", band(_cmp("==", n, 1), _cmp("==", r.shape[0], 1)))
        for c in range(3): E.oblige("as it is", _cmp("==", r[0, c], P[0, c]))
        return
    E.oblige("poles kept are those picked", _cmp("==", r.shape[0], u.n))
    # completeness
    k = u.place(q); s = u.at(k)
    base, dig = digits(E, u, P, n, hk, s, q)
    injective(E, "encoding", base, dig(s), dig(q), _cmp("==", u.x[s], u.x[q]))
    for c in range(3):
        E.oblige("every triple of indices is kept", _cmp("==", hk(r, k)[c], hk(P, q)[c]))
    # no duplicates
    i, j = pick(E, u.n), pick(E, u.n); E.fact(lift(_cmp("!=", i, j)))
    u.distinct(i, j)
    E.oblige("no triple of indices is kept twice", bor(bor(_cmp("!=", hk(r, i)[0], hk(r, j)[0]), _cmp("!=", hk(r, i)[1], hk(r, j)[1])), _cmp("!=", hk(r, i)[2], hk(r, j)[2])))
def digits(E, u, P, n, hk, *rows):
    """base of the positional encoding of the triples and their digits"""
    for r in rows:
        for c in range(3): E.ext_at(r, c)
    lo = [S(lift(m)) for op, m, s, d in E.exts if op == "min"]; hi = [S(lift(m)) for op, m, s, d in E.exts if op == "max"]
    for a in lo:
        for b in [add(x, k) for x in hi for k in (1, 2)] + [add(sub(x, y), k) for x in hi for y in lo for k in (1, 2)]:
            dig = lambda r: [sub(x, a) for x in hk(P, r)]
            if E.implied(_cmp("==", u.x[rows[0]], dotp(dig(rows[0]), [1, b, mul(b, b)]))) : return b, dig
    raise Unsupported("encoding of the triples")
def library(nf, four=False):
    """build_trip_lib for nf families against the contracts above"""
    def th(E, L):
        m = L.load(TRI)
        A, Rm, PI = sarr("A", (3, 3)), sarr("Gr", (3, 3)), E.PI
        mats = types.SimpleNamespace(reciprocalStructureMatrix=A, reciprocalMetricTensor=Rm, directStructureMatrix=object(), metricTensor=object(), invReciprocalStructureMatrix=object(), invDirectStructureMatrix=object())
        fam = sarr("FAMS", (nf, 3), arrays.I64)
        if four: given = arrays.asarray([[fam[i, 0], fam[i, 1], -(fam[i, 0] + fam[i, 1]), fam[i, 2]] for i in range(nf)], arrays.I64)
        b = bi(m, spacegroup=194 if four else 225, latticeparameter=object(), polefamilies=given if four else fam, crystalmats=mats, lauecode=62 if four else 43, lut=object())
        nsym = E.const("nsym", "i"); E.assume(nsym >= 1)
        n = [E.const("n%d" % i, "i") for i in range(nf)]
        for x in n: E.assume(x >= 1)
        ORB = [fn("ORBIT%d" % i, (nsym, 3)) for i in range(nf)]; U = [fn("PLANES%d" % i, (n[i], 3)) for i in range(nf)]
        done = []
        def symrot(pole, cm):
            i = [k for k in range(nf) if all(E.implied(_cmp("==", pole[c], fam[k, c])) for c in range(3))]
            E.oblige("the reflectors given are expanded", len(i) == 1 and cm is mats)
            if len(i) != 1: raise core.PathEnd()
            return ORB[i[0]]
        def hkl_unique(x, reduceInversion=True, rMT=None):
            x = x.reshape((-1, 3))
            if reduceInversion: return fn("ONEWAY%d" % len(done), (1, 3))       # not part of the list of planes
            N = x.shape[0]
            E.oblige("a family is made from all operators and both senses", _cmp("==", N, mul(2, nsym)))
            k = pick(E, nsym); f = None
            for i in range(nf):
                for a, c in ((k, add(k, nsym)), (add(k, nsym), k)):
                    if f is None and all(E.implied(_cmp("==", x[a, q], ORB[i][k, q])) and E.implied(_cmp("==", x[c, q], core.neg(ORB[i][k, q]))) for q in range(3)): f = i
            if f is None:
                if len(done) >= nf: raise Unsupported("families expanded in another way")
                f = len(done)
                for q in range(3):
                    E.oblige("a family holds the plane of every operator", _cmp("==", x[k, q], ORB[f][k, q]))
                    E.oblige("and its other sense", _cmp("==", x[add(k, nsym), q], core.neg(ORB[f][k, q])))
            done.append(f)
            return U[f]
        pairs = []
        def dot_int(p1, p2, rMetricTensor=None):
            E.oblige("angles between planes are taken in the reciprocal metric", rMetricTensor is Rm)
            p1, p2 = p1.reshape((-1, 3)), p2.reshape((-1, 3))
            D = z3.Function("COS%d" % len(pairs), Z, Z, R)
            r = marr("cos", (p1.shape[0], p2.shape[0]), lambda i: S(D(lift(i[0]), lift(i[1]))))
            def bounded(i):
                v = S(D(lift(i[0]), lift(i[1]))); E.fact(z3.And(v.t >= -1, v.t <= 1)); return v
            r = marr("cos", (p1.shape[0], p2.shape[0]), bounded)
            pairs.append((p1, p2, D)); return r
        CART = []
        def cart(p, rStructMatrix=None):
            E.oblige("normals are taken with the structure matrix of the phase", rStructMatrix is A)
            c = fn("NORMAL%d" % len(CART), (p.shape[0], 3)); CART.append((p.copy(), c)); return c.copy()
        def uniq(x, return_index=False, **k): return arrays.asarray([9000], arrays.I64), arrays.asarray([0], arrays.I64)
        m.np.unique = uniq
        b._symrotpoles, b._hkl_unique, b._calc_pole_dot_int, b._xstalplane2cart, b._sortlib_id = symrot, hkl_unique, dot_int, cart, lambda a, i, findDups=False: (a, i)
        b.build_trip_lib()
        c = b.completelib
        total = 0
        for x in n: total = add(total, x)
        P, N3, fid = c["poles"], c["polesCart"], c["familyid"]
        E.oblige("every family is expanded once", sorted(done) == list(range(nf)))
        E.oblige("all planes of all families", band(_cmp("==", P.shape[0], total), band(_cmp("==", N3.shape[0], total), _cmp("==", fid.shape[0], total))))
        off = 0
        for f in range(nf):
            E.oblige("number of planes of a family", _cmp("==", c["nFamily"][f], n[f])); E.oblige("first plane of a family", _cmp("==", c["famIndex"][f], off))
            j = pick(E, n[f]); p = add(off, j)
            for q in range(3):
                v = P[p, q]
                w = U[f][j, q] if E.implied(_cmp("==", v, U[f][j, q])) else U[f][sub(sub(n[f], 1), j), q]
                E.oblige("planes of a family are those of its set", _cmp("==", v, w))
            E.oblige("a plane is attributed to its family", _cmp("==", fid[p], f))
            off = add(off, n[f])
        p, r = pick(E, total), pick(E, total)
        src = [(a, k) for a, k in CART if E.implied(_cmp("==", a.shape[0], total)) and all(E.implied(_cmp("==", a[p, q], P[p, q])) for q in range(3))]
        E.oblige("normals are those of the planes listed", len(src) == 1)
        if len(src) != 1: return
        k = src[0][1]; l2 = dotp([k[p, q] for q in range(3)], [k[p, q] for q in range(3)])
        E.scope_push(); E.fact(lift(_cmp(">", l2, 0)))
        s = E.sqrt(l2)
        for q in range(3): E.oblige("unit normal of the plane", _cmp("==", mul(N3[p, q], s), k[p, q]))
        E.scope_pop()
        tab = [d for a, e, d in pairs if all(E.implied(_cmp("==", x.shape[0], total)) for x in (a, e)) and all(E.implied(_cmp("==", x[y, q], P[y, q])) for x in (a, e) for y in (p, r) for q in range(3))]
        E.oblige("angles between all planes listed", len(tab) == 1)
        if len(tab) != 1: return
        T = c["angTable"]
        E.oblige("one angle per pair", band(_cmp("==", T.shape[0], total), _cmp("==", T.shape[1], total)))
        E.oblige("angle of a pair of planes, in degrees", _cmp("==", T[p, r], core.truediv(mul(npshim.np.arccos(S(tab[0](lift(p), lift(r)))), 180), PI)))
        E.oblige("number of families", _cmp("==", b.npolefamilies, nf))
        pf = b.polefamilies
        for f in range(nf):
            for q in range(3): E.oblige("reflectors kept", _cmp("==", pf[f, (0, 1, 3)[q] if four else q], fam[f, q]))
            if four: E.oblige("third index", _cmp("==", pf[f, 2], core.neg(add(fam[f, 0], fam[f, 1]))))
    return th
def proofs(tier):
    t = "tripletvote.BandIndexer."
    return [Proof("_symrotpoles, %s" % ("any number of operators" if k else "one operator"), [t + "_symrotpoles"], symrot(k)) for k in (True, False)] + [
        Proof("_calc_pole_dot_int", [t + "_calc_pole_dot_int"], cosine), Proof("_xstalplane2cart", [t + "_xstalplane2cart"], cart), Proof("_hkl_unique", [t + "_hkl_unique"], unique)] + [
        Proof("build_trip_lib (bounded), %d famil%s%s" % (k, "y" if k == 1 else "ies", ", four indices" if h else ""), [t + "build_trip_lib"], library(k, h)) for k, h in ((1, False), (2, False), (3, False), (2, True))]
