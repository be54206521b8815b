from pyvc import core, arrays, npshim
from pyvc.core import _cmp, band, bor, bnot, add, sub, mul, ite, S
from pyvc.spec import *
from pyvc.arrays import in_range
from fractions import Fraction
from contracts.files import obj
def apps(t, name):
    out, st, seen = [], [lift(t)], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == name: out.append(x)
        st.extend(x.children())
    return out
from contracts import bands, I03
EXPLANATION = "band_label with its compiled loop runs on n >= 1 patterns, any number of requested bands, transform of any size and any padding >= 1; the filtered transform and the mask of maxima are arbitrary functions restricted to the postconditions of rdn_conv (not negative) and rdn_local_max (maxima only inside the searched region), which are tasks of their own. For an arbitrary pattern and two arbitrary entries: an entry is at a local maximum of that pattern inside the region, its position is within one sample of it, entries are ordered and distinct, their strength is the peak divided by one positive number of the pattern, it is valid exactly when the peak is above zero (a flat transform has none), every local maximum has a place in the order and one that is left out is not stronger than an entry, entries without a maximum are invalid. rdn_local_max: marked exactly the unmasked positions of the region that are the maximum of their window. radon2pole: the stored angle and distance are the interpolated coordinates of the stored position. Products and quotients of two unknowns are uninterpreted in band_label (only their sign rules are used)."
ASSUMPTIONS = ["contract of numpy.nonzero: enumerates exactly the true positions of the mask", "contract of numpy.argsort: a permutation that puts the values in increasing order", "contract of scipy.ndimage.grey_dilation: the maximum over the window, attained in it", "contract of np.interp: a function of the abscissa and the table", "padding of the transform is at least one sample (band_detect_setup: 5 or more)"]
Z, R, B = z3.IntSort(), z3.RealSort(), z3.BoolSort()
def plan(E, L):
    bd = L.load("pyebsdindex.band_detect")
    n, nB, nR, nT, p0, p1 = [E.const(x, "i") for x in ("n", "nBands", "nRho", "nTheta", "pad0", "pad1")]
    E.assume(band(band(n >= 1, nB >= 1), band(band(nR >= 1, nT >= 1), band(p0 >= 1, p1 >= 1))))
    D0, D1 = add(nR, mul(2, p0)), add(nT, mul(2, p1))
    o = obj(bd, "BandDetect", nRho=nR, nTheta=nT, nBands=nB, padding=arrays.asarray([p0, p1]), dataType=arrays.StructDT([("id", "int32"), ("max", "float32"), ("normmax", "float32"), ("maxloc", "float32", (2,)), ("avemax", "float32"), ("aveloc", "float32", (2,)), ("pqmax", "float32"), ("width", "float32"), ("theta", "float32"), ("rho", "float32"), ("valid", "int8"), ("band_match_index", "int64", (3,))]))
    return bd, o, n, nB, nR, nT, D0, D1, p0, p1
def label():
    def th(E, L):
        bd, o, n, nB, nR, nT, D0, D1, p0, p1 = plan(E, L)
        fM, fC = z3.Function("LMAX", Z, Z, Z, B), z3.Function("CONV", Z, Z, Z, R)
        M = lambda r, c, q: S(fM(lift(r), lift(c), lift(q))); C = lambda r, c, q: S(fC(lift(r), lift(c), lift(q)))
        def lm(i):
            v = M(*i)
            E.fact(z3.Implies(v.t, z3.And(lift(_cmp(">=", i[0], p0)), lift(_cmp("<", i[0], sub(D0, p0))), lift(_cmp(">=", i[1], p1)), lift(_cmp("<", i[1], sub(D1, p1))))))
            return v
        def cv(i):
            v = C(*i); E.fact(v.t >= 0); return v
        lmax = marr("lmax", (D0, D1, n), lm, arrays.BOOL); conv = marr("conv", (D0, D1, n), cv)
        r = o.band_label(n, conv, None, lmax)
        q = E.row(0, n); i = E.row(0, nB)
        if len(E.nz2s) != 1 or len(E.sorts) != 1: raise Unsupported("maxima are not enumerated once and sorted once")
        nz, so = E.nz2s[0], E.sorts[0]
        cnt = nz.n
        way = []
        def turn(j): return sub(sub(cnt, 1), j) if way[0] else j
        def peak(j):
            """position of entry j"""
            return nz.at(so.at(turn(j)))
        def ordered(a, b):
            """entries a <= b"""
            so.ordered(*((turn(b), turn(a)) if way[0] else (turn(a), turn(b))))
        rep = _cmp("<", i, cnt)
        E.oblige("one row of entries per pattern", band(_cmp("==", r.shape[0], n), _cmp("==", r.shape[1], nB)))
        def reported():
            E.scope_push(); E.fact(lift(rep))
            # direction in which the code reads the ascending order, taken from the entry it writes
            w = [a.arg(0) for c in (0, 1) for a in apps(r.f["maxloc"][q, i, c], so.p.name())]
            if not w: raise Unsupported("entries do not follow the sorted order")
            def same(v): return any(E.implied(_cmp("==", S(x), v)) for x in w)
            way.append(same(sub(sub(cnt, 1), i)))
            if way[0] == same(i): raise Unsupported("entry i is neither the i-th nor the i-th last of the sorted order")
            y, x = peak(i)
            for c, (v, p, D) in enumerate(((y, p0, nR), (x, p1, nT))):
                ml = r.f["maxloc"][q, i, c]
                E.oblige("an entry is at a local maximum", _cmp("==", ml, sub(v, p)))
                E.oblige("the maximum lies inside the searched region", band(_cmp(">=", sub(v, p), 0), _cmp("<", sub(v, p), D)))
                d = sub(r.f["aveloc"][q, i, c], ml)
                E.oblige("the sub-pixel position lies within one sample of the maximum", band(_cmp("<=", d, 1), _cmp(">=", d, -1)))
            E.oblige("it is a local maximum of this pattern", M(y, x, q))
            E.oblige("an entry is valid when its peak is above zero", S(lift(_cmp("==", r.f["valid"][q, i], 1)) == lift(_cmp(">", C(y, x, q), 0))))
            # order of two entries of the pattern
            j = E.fresh("later", "i"); E.fact(z3.And(lift(_cmp("<", i, j)), lift(_cmp("<", j, nB)), lift(_cmp("<", j, cnt))))
            y2, x2 = peak(j)
            ordered(i, j)
            E.oblige("entries are ordered by the strength of their peak", _cmp(">=", C(y, x, q), C(y2, x2, q)))
            for f in ("max", "normmax"):
                a, b = [r.f[f][q, t] for t in (i, j)]
                div = apps(a, "DIVF") + apps(b, "DIVF")
                if not div or not all(t.arg(1).eq(div[0].arg(1)) for t in div): raise Unsupported("the strength reported is not the peak divided by one number of the pattern")
                d = S(div[0].arg(1))
                E.oblige("%s: peaks of the pattern are divided by one positive number" % f, _cmp(">", d, 0))
                for v, p in ((a, (y, x)), (b, (y2, x2))): E.oblige("%s is the strength of the peak" % f, _cmp("==", v, S(core.DIVF(lift(C(p[0], p[1], q)), d.t))))
            E.oblige("valid entries come first", bor(_cmp("==", r.f["valid"][q, i], 1), _cmp("==", r.f["valid"][q, j], 0)))
            E.oblige("entries are distinct maxima", bor(_cmp("!=", r.f["maxloc"][q, i, 0], r.f["maxloc"][q, j, 0]), _cmp("!=", r.f["maxloc"][q, i, 1], r.f["maxloc"][q, j, 1])))
            E.scope_pop()
            # a local maximum anywhere
            E.scope_push()
            a, b = E.fresh("y", "i"), E.fresh("x", "i"); E.fact(z3.And(lift(in_range(a, D0)), lift(in_range(b, D1)), M(a, b, q).t)); lm((a, b, q))
            e = turn(so.place(nz.rank(a, b)))
            E.oblige("every local maximum has a place in the order", band(_cmp(">=", e, 0), _cmp("<", e, cnt)))
            E.assume(band(_cmp(">=", e, 0), _cmp("<", e, cnt)))
            y, x = peak(e)
            E.oblige("the entry of that place is that maximum", band(_cmp("==", y, a), _cmp("==", x, b)))
            E.fact(lift(_cmp("<", i, cnt)))     # i: an entry of the pattern that holds a maximum
            yi, xi = peak(i)
            ordered(i, e)
            E.oblige("no local maximum that is left out is stronger than an entry", bor(_cmp("<", e, nB), _cmp("<=", C(a, b, q), C(yi, xi, q))))
            E.scope_pop()
        if not E.implied(bnot(rep)): reported()
        E.scope_push(); E.fact(lift(bnot(rep)))
        E.oblige("without further maxima an entry is invalid", _cmp("==", r.f["valid"][q, i], 0))
        E.scope_pop()
    return th
def line():
    """radon2pole stores the coordinates of the stored position"""
    def th(E, Ld):
        return I03.pole("BRUKER", "one", only_line=True)(E, Ld)
    return th
def proofs(tier): return [Proof("band_label", ["band_detect.BandDetect.band_label", "band_detect.BandDetect.band_label_numba"], label(), numba_index=True, opaque_arith=True, merge_ifs=True), bands.stage_proofs()[1], Proof("angle and distance of a band", ["radon_fast.Radon.radon2pole"], line())]
