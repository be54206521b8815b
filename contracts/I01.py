from pyvc import core, arrays, npshim
from pyvc.core import _cmp, band, bor, bnot, add, sub, mul, ite, S
from pyvc.spec import *
from contracts.files import obj, pick
EXPLANATION = "EBSDIndexer._indexbandsphase runs on n >= 1 patterns (n symbolic), any number of bands, 1 to 3 phases and a symbolic early-exit limit. The phases' bandindex is used through a contract: row k of every result is a function of the phase and of the pattern whose bands are row k of the arguments (the arguments are shown to be exactly that pattern's rows). For an arbitrary pattern every field of every layer is compared with an independent definition; the best layer is that of the phase it names, no other phase that indexed the pattern scores better, and a pattern no phase indexes has phase -1, no matched bands and a fit of 180."
ASSUMPTIONS = ["contract of BandIndexer.bandindex: one result row per pattern, depending on that pattern's bands only (checked by the bounded suites of I02 and T03)", "the fit of an indexed pattern is a finite number"]
Z, R = z3.IntSort(), z3.RealSort()
def independent(E, v, funs, row):
    """v does not depend on what the given input arrays hold in other rows: replacing their other rows changes nothing"""
    t = lift(v); sub_ = []
    st, seen = [t], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name().startswith("SUM"): raise Unsupported("sum in a value that may depend on one pattern only")
        if z3.is_app(x) and x.decl().name() in funs and not E.implied(_cmp("==", S(x.arg(0)), row)):
            f2 = z3.Function(x.decl().name() + "_other", *([x.arg(i).sort() for i in range(x.num_args())] + [x.sort()]))
            sub_.append((x, z3.If(x.arg(0) == lift(row), x, f2(*x.children()))))
        st.extend(x.children())
    if not sub_: return True
    return S(t == z3.substitute(t, *sub_))
class Phase:
    """contract of a phase's bandindex"""
    def __init__(self, E, j, nB, src):
        self.E, self.j, self.nB, self.src = E, j, nB, src
        F = lambda nm, *a: z3.Function("%s_%d" % (nm, j), *a)
        self.q, self.fit, self.cm, self.bm = F("quat", Z, Z, R), F("fit", Z, R), F("cm", Z, R), F("bandmatch", Z, Z, Z)
        self.nm, self.ma, self.tv = F("nmatch", Z, Z), F("attempts", Z, Z, Z), F("votes", Z, Z)
    def bandindex(self, bn, band_intensity=None, band_widths=None, verbose=0):
        E = self.E
        K = bn.shape[0]
        if band_intensity is None: raise Unsupported("bandindex without intensities")
        E.oblige("bands of every pattern are handed over (phase %d)" % self.j, band(_cmp("==", bn.shape[1], self.nB), band(_cmp("==", band_intensity.shape[0], K), _cmp("==", band_intensity.shape[1], self.nB))))
        def pat(r):
            """the pattern that row r of the arguments belongs to"""
            t = z3.simplify(lift(bn[r, 0, 0]))
            if not (z3.is_app(t) and t.decl().name() == "bandnorm"): raise Unsupported("band normals handed over are not rows of the input")
            return S(t.arg(0))
        if core.conc(K):
            if K == 0: rows = []
            else: raise Unsupported("constant number of patterns")
        self.pat = pat
        def of(f, *more):
            return lambda ix: S(f(lift(pat(ix[0])), *[lift(x) for x in ix[1:]]))
        self.check(bn, band_intensity, band_widths, K)
        return (marr("o_quat", (K, 4), of(self.q)), marr("o_fit", (K,), of(self.fit)), marr("o_cm", (K,), of(self.cm)), marr("o_bm", (K, self.nB), of(self.bm), arrays.I64),
                marr("o_nm", (K,), of(self.nm), arrays.I64), marr("o_ma", (K, 4), of(self.ma), arrays.I64), marr("o_tv", (K,), of(self.tv), arrays.I64))
    def check(self, bn, inten, widths, K):
        E = self.E
        def chk(k):
            i = self.pat(k)
            b = E.fresh("band", "i"); E.fact(b.t >= 0); E.fact(lift(_cmp("<", b, self.nB)))
            for c in range(3): E.oblige("normals handed over are the pattern's (phase %d)" % self.j, _cmp("==", bn[k, b, c], self.src["norm"](i, b, c)))
            E.oblige("intensities handed over are the pattern's (phase %d)" % self.j, independent(E, inten[k, b], self.src["funs"], i))
            if widths is not None: E.oblige("widths handed over are the pattern's (phase %d)" % self.j, _cmp("==", widths[k, b], self.src["width"](i, b)))
        if E.implied(_cmp("<=", K, 0)): return
        E.guarded(_cmp(">=", K, 1), lambda: chk(E.row(0, K)))
def band_data(E, n, nB, m):
    dt = arrays.StructDT([(x, "float32") for x in ("max", "normmax", "theta", "rho", "width")] + [("valid", "int8"), ("band_match_index", "int64", (m,))])
    bd = npshim.StructArr((n, nB), dt)
    for nm in bd.f: bd.f[nm] = sarr("bd_" + nm, bd.f[nm].shape, bd.f[nm].dtype)
    return bd
def setup(E, L, m, early, capacity=None):
    x = L.load("pyebsdindex._ebsd_index_single"); rl = L.load("pyebsdindex.rotlib")
    n, nB = E.const("n", "i"), E.const("nBands", "i"); E.assume(band(n >= 1, nB >= 1))
    bn = sarr("bandnorm", (n, nB, 3)); bd = band_data(E, n, nB, capacity or m)
    fr = E.const("rhoMaskFrac"); rm = E.const("rhoMax"); E.assume(band(band(rm > 0, fr >= 0), fr < 1))
    f = z3.Function("bandnorm", Z, Z, Z, R)
    src = {"norm": lambda i, b, c: S(f(lift(i), lift(b), z3.IntVal(c))), "funs": ["bandnorm"] + ["bd_" + q for q in bd.f], "width": lambda i, b: bd.f["width"][i, b]}
    ph = [Phase(E, j, nB, src) for j in range(m)]
    lim = E.const("earlyexit", "i") if early == "set" else None
    dt = arrays.StructDT([("quat", "float64", (4,)), ("iq", "float32"), ("pq", "float32"), ("cm", "float32"), ("phase", "int32"), ("fit", "float32"), ("nmatch", "int32"), ("matchattempts", "int32", (4,)), ("totvotes", "int32")])
    import types
    plist = ph
    if early == "phases":
        for j, p in enumerate(ph): p.nband_earlyexit = E.const("ee%d" % j, "i"); E.assume(p.nband_earlyexit >= 0)
        lim = None
        cur = -1
        for p in ph: cur = core.smax(cur, p.nband_earlyexit)
        E.lim = cur
    elif early == "none": E.lim = nB; plist = ["FCC"] * m
    else: E.lim = lim
    o = obj(x, "EBSDIndexer", phaselist=plist, phaseLib=ph, nband_earlyexit=lim, dataTemplate=dt, vendor="EDAX", sampleTilt=E.const("tilt"), camElev=E.const("elev"),
            bandDetectPlan=types.SimpleNamespace(rhoMax=rm, rhoMaskFrac=fr))
    return x, o, n, nB, bn, bd, ph, m
def run(m, early, capacity=None):
    def th(E, L):
        x, o, n, nB, bn, bd, ph, _ = setup(E, L, m, early, capacity)
        k = E.row(0, n)
        # orientations are compared up to the change of frame (task 'reference frame')
        rl = L.load("pyebsdindex.rotlib")
        ref = marr("ref", (4,), lambda i: S(z3.Function("ref", Z, R)(lift(i[0]))))
        x._detector2refframe = None
        o._detector2refframe = lambda: ref
        G = z3.Function("frame", *([R] * 8 + [Z, R]))
        def qm(a, b):
            if b is not ref: raise Unsupported("product with something else")
            if len(a.shape) != 2 or a.shape[1] != 4: raise Unsupported("shape of the orientations")
            v = lambda ix: S(G(*([core.toreal_t(lift(a[ix[0], c])) for c in range(4)] + [core.toreal_t(lift(ref[c])) for c in range(4)] + [lift(ix[1])])))
            return marr("rotated", a.shape, arrays.memo(v))
        Nf = [z3.Function("qnorm%d" % c, R, R, R, R, R) for c in range(4)]
        def qn(a):
            return marr("normed", a.shape, arrays.memo(lambda ix: S(Nf[ix[1]](*[core.toreal_t(lift(a[ix[0], c])) for c in range(4)]))))
        import types
        x.rotlib = types.SimpleNamespace(quat_multiply=qm, quatnorm=qn)
        r, bo = o._indexbandsphase(bd, bn)
        E.nz_at(k)
        E.oblige("one record per pattern and phase and a best layer", band(_cmp("==", r.shape[0], m + 1), _cmp("==", r.shape[1], n)))
        # reference: what each phase gives for pattern k
        done = 0; rec = []
        for j, p in enumerate(ph):
            tried = _cmp("<", done, E.lim)
            nm = S(p.nm(lift(k))); good = band(tried, _cmp(">=", nm, 3))
            rec.append((good, p, nm))
            done = core.smax(done, ite(good, nm, 0))
        flds = {"fit": lambda p: S(p.fit(lift(k))), "cm": lambda p: S(p.cm(lift(k))), "nmatch": lambda p: S(p.nm(lift(k))), "totvotes": lambda p: S(p.tv(lift(k)))}
        dflt = {"fit": 180, "cm": 0, "nmatch": 0, "totvotes": 0}
        for j, (good, p, nm) in enumerate(rec):
            for f in flds: E.oblige("layer %d: %s" % (j, f), _cmp("==", r[f][j, k], ite(good, flds[f](p), dflt[f])))
            E.oblige("layer %d: phase" % j, _cmp("==", r["phase"][j, k], ite(good, j, -1)))
            for c in range(4): E.oblige("layer %d: attempts" % j, _cmp("==", r["matchattempts"][j, k, c], ite(good, S(p.ma(lift(k), z3.IntVal(c))), 0)))
            b = E.row(0, nB)
            E.oblige("layer %d: labels of the bands" % j, _cmp("==", bo["band_match_index"][k, b, j], ite(good, S(p.bm(lift(k), lift(b))), -100)))
            q = [ite(good, S(p.q(lift(k), z3.IntVal(c))), 0) for c in range(4)]
            rot = [S(G(*([core.toreal_t(lift(t)) for t in q] + [core.toreal_t(lift(ref[c])) for c in range(4)] + [z3.IntVal(d)]))) for d in range(4)]
            for c in range(4): E.oblige("layer %d: orientation in the reference frame" % j, _cmp("==", r["quat"][j, k, c], S(Nf[c](*[core.toreal_t(lift(t)) for t in rot]))))
        # best layer
        b = r["phase"][m, k]
        E.oblige("best layer names a phase or none", band(_cmp(">=", b, -1), _cmp("<", b, m)))
        none = bnot(bor_all([g for g, _, _ in rec]))
        E.oblige("no phase exactly when no phase indexed the pattern", S(lift(_cmp("==", b, -1)) == lift(none)))
        E.oblige("an unindexed pattern has a fit of 180 or more", bor(bnot(none), _cmp(">=", r["fit"][m, k], 180)))
        E.oblige("an unindexed pattern has no matched bands", bor(bnot(none), _cmp("==", r["nmatch"][m, k], 0)))
        for j, (good, p, nm) in enumerate(rec):
            this = _cmp("==", b, j)
            E.oblige("best layer %d is a phase that indexed the pattern" % j, bor(bnot(this), good))
            for f in r.f:
                if r.f[f].ndim == 2: E.oblige("best layer is the record of phase %d: %s" % (j, f), bor(bnot(this), _cmp("==", r[f][m, k], r[f][j, k])))
                else:
                    for c in range(4): E.oblige("best layer is the record of phase %d: %s" % (j, f), bor(bnot(this), _cmp("==", r[f][m, k, c], r[f][j, k, c])))
            score = lambda fit, nm_: mul(sub(3, fit), nm_)
            E.oblige("phase %d does not score better than the best layer" % j, bor(bnot(good), _cmp("<=", score(flds["fit"](p), nm), score(r["fit"][m, k], r["nmatch"][m, k]))))
        for nm, f in (("pq", "max"), ("iq", "normmax")):
            tot = E.sum_of(0, nB, lambda i: mul(bd.f[f][k, i], bd.f["valid"][k, i]))
            for j in range(m + 1): E.oblige("%s of layer %d is the mean over the pattern's bands" % (nm, j), _cmp("==", mul(r[nm][j, k], nB), tot))
        E.oblige("the band normals are not modified", unmodified(bn))
        for f in bd.f: E.oblige("the bands handed in are not modified", unmodified(bd.f[f]))
        b = E.row(0, nB)
        for f in bd.f:
            if bd.f[f].ndim == 2: E.oblige("the bands handed out are the ones handed in: %s" % f, _cmp("==", bo[f][k, b], bd.f[f][k, b]))
    return th
def bor_all(l):
    r = False
    for x in l: r = bor(r, x)
    return r
def proofs(tier):
    q = "_ebsd_index_single.EBSDIndexer._indexbandsphase"
    return [Proof("%d phase%s, %s" % (m, "s" if m > 1 else "", {"set": "early exit set", "phases": "early exit of the phases", "none": "default early exit"}[e]), [q], run(m, e), **({"limit": 150} if m == 3 else {})) for m in (1, 2, 3) for e in ("set", "phases", "none") if m < 3 or e == "set" or tier != "quick"]
