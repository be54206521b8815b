"""angle triplets"""
import types, itertools
from pyvc import core, arrays, npshim
from pyvc.core import _cmp, band, bor, bnot, ite, add, sub, mul, S
from pyvc.spec import *
from contracts.files import obj, pick
from contracts.T01 import Unique, injective, fn, bi, TRI
LEVEL = "exploration"
EXPLANATION = "PROVED by tasks: _sortlib_id on any number of triplets, with the lookup table built by the constructor: the angles of every row become ascending and its labels follow, label k naming the family shared by the angles it belongs to, whatever the order of the three angles and for equal angles; with duplicates removed, every triplet (angles to 0.01 degree and labels) is still there and none is there twice (the label code is shown to be injective). BOUNDED by tasks: the triplets build_trip_lib collects for 1 to 3 families with 0 to 3 angles (of any size) per pair of families are exactly the combinations of an angle between first and second, first and third and second and third family, labelled so; _tripvote_numba for one triangle of measured bands against one triplet with any angles, labels and tolerance, in each of the six orders of the measured angles: when the sorted angles agree within the tolerance every label votes for the band shared by its two angles (and, with angles that differ by more than the tolerance, for no other band), otherwise or with an invalid band nothing is voted. Stacks of patterns and bands beyond one triangle by the suite on the real code, so the property stays at exploration level."
ASSUMPTIONS = ["contract of np.unique: the positions of one element of every distinct row", "contract of np.argsort: a permutation that puts the values in increasing order", "that the angles of a pair of families are those of its planes: T01 (angle of a pair of planes) and the suite"]
Z, R = z3.IntSort(), z3.RealSort()
EPS = Fraction(1, 10**6)
PERM = list(itertools.permutations(range(3)))
def reorder(E, what, a, f, A, Fm):
    """(A, Fm) is the triplet (a, f) with the angles ascending: one of the six orders, the label of a pair of angles going with it"""
    E.oblige(what + ": angles ascending", band(_cmp("<=", A[0], A[1]), _cmp("<=", A[1], A[2])))
    c = False
    for p in PERM:
        e = True
        for k in range(3): e = band(e, _cmp("==", A[k], a[p[k]]))
        for k, (x, y) in enumerate(((0, 1), (0, 2), (1, 2))): e = band(e, _cmp("==", Fm[k], f[p[x] + p[y] - 1]))
        c = bor(c, e)
    E.oblige(what + ": label k names the family shared by its two angles", c)
def sort_rows(E, L):
    m = L.load(TRI); b = m.BandIndexer()
    n = E.const("n", "i"); E.assume(n >= 1)
    A0, I0 = fn("ANG", (n, 3)), fn("ID", (n, 3), arrays.I64)
    A, I = A0.copy(), I0.copy()
    A, I = b._sortlib_id(A, I)
    i = E.row(0, n)
    E.oblige("one row per triplet", band(_cmp("==", A.shape[0], n), _cmp("==", I.shape[0], n)))
    reorder(E, "triplet", [A0[i, k] for k in range(3)], [I0[i, k] for k in range(3)], [A[i, k] for k in range(3)], [I[i, k] for k in range(3)])
def no_duplicates(E, L):
    """findDups=True, with the rows as the sorting of each row (task above) leaves them: any angles, labels that are not negative"""
    m = L.load(TRI); b = m.BandIndexer()
    n = E.const("n", "i"); E.assume(n >= 1)
    A0, I0 = fn("ANG", (n, 3)), fn("ID", (n, 3), arrays.I64)
    u = Unique(E); m.np.unique = u
    argsort = m.np.argsort
    row = lambda a: len(a.shape) == 1 and conc(a.shape[0]) and a.shape[0] == 3
    m.np.argsort = lambda a, *r, **k: arrays.asarray([0, 1, 2], arrays.I64) if row(arrays.asarray(a)) else argsort(a, *r, **k)   # rows in order already (task above)
    A, I = b._sortlib_id(A0.copy(), I0.copy(), findDups=True)
    ex = [s for op, v, s, d in E.exts if op == "max" and len(d) == 2]
    if u.x is None or u.axis != 0 or len(E.sorts) > 1 or len(ex) != 1: raise Unsupported("duplicates are not removed by np.unique of the angles and a label code and the rest sorted once")
    place, at = (E.sorts[0].place, E.sorts[0].at) if E.sorts else (lambda i: i, lambda i: i)
    E.oblige("as many triplets as distinct ones", band(_cmp("==", A.shape[0], u.n), _cmp("==", I.shape[0], u.n)))
    def labels(r):
        d = [ex[0].get((r, c)) for c in range(3)]
        for x in d: E.fact(lift(_cmp(">=", x, 0)))       # labels are those of the rows given (task above): numbers of families
        for c in range(3): E.ext_at(r, c)
        return d
    out = lambda i: ([core.rint(mul(A[i, c], 100)) for c in range(3)], [I[i, c] for c in range(3)])
    # the library handed to np.unique: columns are the rounded angles and the label code
    def check(q):
        d = labels(q)
        cols = [c for c in range(4)]
        return [u.x[q, c] for c in range(3)], d
    base = [S(lift(add(v, k))) for op, v, s, d in E.exts if op == "max" and len(d) == 2 for k in (1, 2, 0)] + [core.smax(S(lift(v)), k) for op, v, s, d in E.exts if op == "max" and len(d) == 2 for k in (1, 2)]
    q = pick(E, n); k = u.place(q); s = u.at(k); o = place(k)
    aq, dq = check(q); as_, ds = check(s)
    found = None
    for bb in base:
        if E.implied(_cmp("==", u.x[q, 3], dotp(dq, [1, bb, mul(bb, bb)]))) and E.implied(_cmp("==", u.x[s, 3], dotp(ds, [1, bb, mul(bb, bb)]))): found = bb; break
    if found is None: raise Unsupported("code of the labels")
    injective(E, "label code", found, ds, dq, _cmp("==", u.x[s, 3], u.x[q, 3]))
    a, d = out(o)
    for c in range(3):
        E.oblige("every triplet is kept: angles to 0.01 degree", _cmp("==", a[c], aq[c])); E.oblige("every triplet is kept: labels", _cmp("==", d[c], dq[c]))
    i, j = pick(E, u.n), pick(E, u.n); E.fact(lift(_cmp("!=", i, j)))
    x, y = at(i), at(j)
    if E.sorts: E.fact(z3.Implies(lift(_cmp("==", x, y)), lift(_cmp("==", i, j))))   # at has the inverse place
    u.distinct(x, y)
    (a1, d1), (a2, d2) = out(i), out(j)
    for r in (x, y):
        r0 = u.at(r); l = labels(r0)
        E.lemma("code of the labels", _cmp("==", u.x[r0, 3], dotp(l, [1, found, mul(found, found)])))
    same = True
    for p, r in zip(a1 + d1, a2 + d2): same = band(same, _cmp("==", p, r))
    E.oblige("no triplet is kept twice", bnot(same))
def vote(p, apart):
  def th(E, L):
    """one triangle of bands, its angles ascending when the bands are taken in the order p, against one triplet of the library"""
    m = L.load(TRI); lut = m.BandIndexer().lut; NF = 4
    V = fn("NORM", (1, 3, 3)); I = fn("INTENS", (1, 3), arrays.F32)
    tol = E.const("tol"); E.assume(_cmp(">", tol, 0)); E.assume(_cmp("<", tol, 100))
    T = [E.const("T%d" % k) for k in range(3)]
    E.assume(_cmp("<=", T[0], T[1])); E.assume(_cmp("<=", T[1], T[2])); E.assume(_cmp(">", T[0], 0)); E.assume(_cmp("<=", T[2], 90))
    ta = arrays.asarray([T]); ti = arrays.asarray([[0, 1, 2]])
    s = [E.const("angle%d" % k) for k in range(3)]      # degrees
    for k in range(3): E.assume(_cmp(">=", s[k], 0)); E.assume(_cmp("<=", s[k], 90))
    E.assume(_cmp("<", s[0], s[1])); E.assume(_cmp("<", s[1], s[2]))
    deg = {}
    for k, (x, y) in enumerate(((0, 1), (0, 2), (1, 2))): deg[p[x], p[y]] = deg[p[y], p[x]] = s[k]
    gap = band(_cmp(">=", sub(s[1], s[0]), tol), _cmp(">=", sub(s[2], s[1]), tol))
    E.assume(gap if apart else bnot(gap))
    ang = []
    def arccos(x):
        x = arrays.asarray(x)
        if tuple(x.shape) != (3, 3): raise Unsupported("arccos of something else than the table of dot products")
        for i in range(3):
            for j in range(i):
                d = dotp([V[0, i, k] for k in range(3)], [V[0, j, k] for k in range(3)])
                d = ite(_cmp("<", d, 0), core.neg(d), d); d = ite(_cmp(">", d, 1), 1, d)
                E.oblige("angle between the lines of two bands", band(_cmp("==", x[i, j], d), _cmp("==", x[j, i], d)))
        ang.append(1)
        return marr("ang", (3, 3), lambda i: mul(deg[i[0], i[1]], core.truediv(E.PI, 180)) if i[0] != i[1] else 0)
    m.np.arccos = arccos
    argmax, argsort, total = m.np.argmax, m.np.argsort, m.np.sum
    ranking = lambda a: tuple(arrays.asarray(a).shape) == (NF,)    # the ranking that follows the votes is not decided here
    def place():
        v = E.fresh("place", "i"); E.fact(z3.And(v.t >= 0, v.t < NF)); return v
    m.np.argmax = lambda a, *r, **k: place() if ranking(a) else argmax(a, *r, **k)
    m.np.argsort = lambda a, *r, **k: arrays.asarray([place() for _ in range(NF)]) if ranking(a) else argsort(a, *r, **k)
    m.np.sum = lambda a, *r, **k: 0 if ranking(a) else total(a, *r, **k)
    W, fam, rank, cm, acc = m.BandIndexer._tripvote_numba(V, I, lut, tol, ta, ti, NF)
    if not ang: raise Unsupported("the angles between the bands are computed another way")
    bad = bor(bor(_cmp("<", I[0, 0], EPS), _cmp("<", I[0, 1], EPS)), _cmp("<", I[0, 2], EPS))
    cells = [(f, b) for f in range(NF) for b in range(3)]
    if E.decide(bad):
        for f, b in cells: E.oblige("a triangle with an invalid band votes for nothing", band(_cmp("==", acc[0, f, b], 0), _cmp("==", W[0, f, b], 0)))
        return
    dist = []
    for k in range(3):
        d = sub(s[k], T[k]); dist.append(ite(_cmp("<", d, 0), core.neg(d), d))
    hit = band(band(_cmp("<=", dist[0], tol), _cmp("<=", dist[1], tol)), _cmp("<=", dist[2], tol))
    if not E.decide(hit):
        for f, b in cells: E.oblige("no votes for a triplet off by more than the tolerance", band(_cmp("==", acc[0, f, b], 0), _cmp("==", W[0, f, b], 0)))
    elif apart:
        for f, b in cells:
            k = f if f < 3 and p[f] == b else None
            E.oblige("the label of two angles is voted for the band they share and no other", _cmp("==", acc[0, f, b], 0 if k is None else 1))
            E.oblige("a vote weighs no more than the tolerance, no vote nothing", band(_cmp(">=", W[0, f, b], 0), _cmp("<=", W[0, f, b], 0 if k is None else tol)))
    else:
        for k in range(3): E.oblige("the label of two angles is voted for the band they share", _cmp(">=", acc[0, k, p[k]], 1))
  return th
def triplets(nf, count):
    """the triplets build_trip_lib collects for families with count[i, j] angles (of any size) between families i and j"""
    def th(E, L):
        m = L.load(TRI)
        A, Rm = sarr("A", (3, 3)), sarr("Gr", (3, 3))
        mats = types.SimpleNamespace(reciprocalStructureMatrix=A, reciprocalMetricTensor=Rm, directStructureMatrix=object(), metricTensor=object(), invReciprocalStructureMatrix=object(), invDirectStructureMatrix=object())
        fam = sarr("FAMS", (nf, 3), arrays.I64)
        b = bi(m, spacegroup=225, latticeparameter=object(), polefamilies=fam, crystalmats=mats, lauecode=43, lut=object())
        ONE = [fn("ORBIT%d" % i, (2, 3)) for i in range(nf)]; n = [E.const("n%d" % i, "i") for i in range(nf)]
        for x in n: E.assume(x >= 1)
        PL = [fn("PLANES%d" % i, (n[i], 3)) for i in range(nf)]
        V = {}
        for (i, j), c in count.items():
            v = [E.const("ANGLE%d%d%d" % (i, j, k), "i") for k in range(c)]
            for x in v: E.assume(x > 100); E.assume(x <= 9000)
            for x, y in zip(v, v[1:]): E.assume(x < y)
            V[i, j] = v
        which = lambda p, t, r: [k for k in range(nf) if all(E.implied(_cmp("==", p[r, c], t(k, c))) for c in range(3))]
        def symrot(pole, cm):
            i = which(pole.reshape((1, 3)), lambda k, c: fam[k, c], 0)
            if len(i) != 1: raise Unsupported("families expanded in another way")
            return ONE[i[0]]
        def hkl_unique(x, reduceInversion=True, rMT=None):
            x = x.reshape((-1, 3))
            if reduceInversion: return fn("ONEWAY", (1, 3))
            i = which(x, lambda k, c: ONE[k][0, c], 0)
            if len(i) != 1: raise Unsupported("families expanded in another way")
            return PL[i[0]]
        now = []
        def dot_int(p1, p2, rMetricTensor=None):
            p1, p2 = p1.reshape((-1, 3)), p2.reshape((-1, 3))
            del now[:]
            r = 0 if conc(p2.shape[0]) else E.fresh("plane", "i")
            if not conc(r):
                E.fact(z3.And(r.t >= 0, lift(_cmp("<", r, p2.shape[0]))))
                i = which(p1, lambda k, c: fam[k, c], 0) if conc(p1.shape[0]) else []
                j = [k for k in range(nf) if E.implied(_cmp("==", p2.shape[0], n[k])) and all(E.implied(_cmp("==", p2[r, c], PL[k][sub(sub(n[k], 1), r), c])) or E.implied(_cmp("==", p2[r, c], PL[k][r, c])) for c in range(3))]
                if len(i) == len(j) == 1: now.append((i[0], j[0]))
            D = z3.Function("COS%d" % E.fresh("cos", "i").t.get_id(), Z, Z, R)
            def bounded(i):
                v = S(D(lift(i[0]), lift(i[1]))); E.fact(z3.And(v.t >= -1, v.t <= 1)); return v
            return marr("cos", (p1.shape[0], p2.shape[0]), bounded)
        asked = []
        def uniq(x, return_index=False, **k):
            if len(now) != 1 or not return_index: raise Unsupported("angles collected in another way")
            i, j = now[0]; asked.append((i, j))
            E.oblige("angles between a family and a later one", i <= j)
            v = ([0] if i == j else [50] if not V[i, j] else []) + V[i, j]
            ix = []
            for _ in v:
                q = E.fresh("at", "i"); E.fact(z3.And(q.t >= 0, lift(_cmp("<", q, n[j])))); ix.append(q)
            return arrays.asarray(v, arrays.DTS["int32"]), arrays.asarray(ix, arrays.I64)
        m.np.unique = uniq
        got = []
        def sort(a, i, findDups=False):
            E.oblige("duplicates are to be removed", findDups is True); got.append((a, i)); return a, i
        b._symrotpoles, b._hkl_unique, b._calc_pole_dot_int, b._sortlib_id = symrot, hkl_unique, dot_int, sort
        b._xstalplane2cart = lambda p, rStructMatrix=None: fn("NORMAL", (p.shape[0], 3))
        b.build_trip_lib()
        E.oblige("angles of every pair of families", sorted(asked) == sorted(count))
        if len(got) != 1: raise Unsupported("triplets sorted in another way")
        a, d = got[0]
        if not conc(a.shape[0]): raise Unsupported("number of triplets")
        rows = [([a[r, k] for k in range(3)], tuple(int(d[r, k]) for k in range(3))) for r in range(int(a.shape[0]))]
        E.oblige("one triple of labels per triplet", _cmp("==", d.shape[0], a.shape[0]))
        eq = lambda x, y: all(E.implied(_cmp("==", p, q)) for p, q in zip(x, y))
        want = {}
        for i in range(nf):
            for j in range(i, nf):
                for k in range(j, nf):
                    want[i, j, k] = [[core.truediv(x, 100) for x in t] for t in itertools.product(V[i, j], V[i, k], V[j, k])]
        for k, w in want.items():
            for t in w:
                alt = [t] + ([[t[1], t[0], t[2]]] if k[1] == k[2] else [])
                E.oblige("every combination of angles of three families is in the list", any(l == k and any(eq(x, y) for y in alt) for x, l in rows))
        for x, l in rows: E.oblige("every triplet listed is a combination of angles of its families", l in want and any(eq(x, y) for y in want[l]))
        E.oblige("the triplets of the phase are those sorted", b.angtriplets["angles"] is a and b.angtriplets["familyid"] is d)
    return th
CASES = {1: [(2,), (1,), (3,)], 2: [(2, 2, 2), (1, 2, 1), (0, 2, 1), (1, 0, 2), (2, 1, 0), (0, 0, 2)], 3: [(1, 1, 1, 1, 1, 1), (2, 1, 2, 1, 2, 1), (0, 2, 1, 1, 0, 2)]}
def cases():
    for nf, l in CASES.items():
        ij = [(i, j) for i in range(nf) for j in range(i, nf)]
        for c in l: yield nf, dict(zip(ij, c))
def proofs(tier):
    t = "tripletvote.BandIndexer."
    return [Proof("_sortlib_id, order", [t + "_sortlib_id", t + "__init__"], sort_rows), Proof("_sortlib_id, duplicates", [t + "_sortlib_id"], no_duplicates, limit=150)] + [
            Proof("votes of a triangle of bands (bounded), order %d%d%d, angles %s" % (p + ("apart" if x else "close",)), [t + "_tripvote_numba"], vote(p, x)) for p in PERM for x in (True, False)] + [
            Proof("build_trip_lib (bounded), angles per pair of families %s" % " ".join("%d%d:%d" % (i, j, c) for (i, j), c in k.items()), [t + "build_trip_lib"], triplets(nf, k)) for nf, k in cases()]
