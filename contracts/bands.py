"""contracts of band detection: stages are functions of the pattern at the same position"""
import types
from pyvc import core, arrays, npshim
from pyvc.core import _cmp, band, bor, bnot, add, sub, mul, ite, S
from pyvc.spec import *
from fractions import Fraction
from contracts.files import obj
Z, R = z3.IntSort(), z3.RealSort()
def apps(t, name, loops=None):
    out, st, seen = [], [lift(t)] if not isinstance(t, float) else [], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x):
            if x.decl().name() == name: out.append(x)
            elif x.decl().name().startswith("loop_"):       # an element that another iteration wrote
                if loops is None: raise Unsupported("an element of another iteration")
                loops.append(x)
            if x.decl().name().startswith("SUM"):
                b = core.E.sum_body(x)
                if b is None: raise Unsupported("sum in a value that may depend on one pattern only")
                st.append(b)
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and "!" in x.decl().name():
                # values introduced on the way: an extremum stands for the element that attains it
                h = [e for e in core.E.exts if isinstance(e[1], S) and e[1].t.eq(x)]
                if h: st.append(lift(core.E.extval[x.get_id()]))
                elif z3.is_real(x) or x.decl().name().split("!")[0] == "arg": raise Unsupported("a value of unknown origin")
        st.extend(x.children())
    return out
def source(E, v, names, what, axis=0):
    """the one pattern that v depends on; obligation: it is one"""
    a = [x for n in names for x in apps(v, n)]
    if not a: raise Unsupported("no pattern in what is handed over (%s)" % what)
    s = S(a[0].arg(axis))
    for x in a[1:]:
        if not x.arg(axis).eq(a[0].arg(axis)): E.oblige("%s: one pattern only" % what, _cmp("==", S(x.arg(axis)), s))
    return s
FIELDS = [("id", "int32"), ("max", "float32"), ("normmax", "float32"), ("maxloc", "float32", (2,)), ("avemax", "float32"), ("aveloc", "float32", (2,)), ("pqmax", "float32"), ("width", "float32"), ("theta", "float32"), ("rho", "float32"), ("valid", "int8"), ("band_match_index", "int64", (3,))]
class Stages:
    """the four stages of find_bands through their contracts"""
    def __init__(self, E, o, H, W, bg):
        self.E, self.o, self.H, self.W, self.bg = E, o, H, W, bg
        self.fr, self.fc, self.fa, self.fm = z3.Function("RDN", Z, Z, Z, R), z3.Function("CONV", Z, Z, Z, R), z3.Function("AVE", Z, R), z3.Function("LMAX", Z, Z, Z, z3.BoolSort())
        self.fb = {}
        for f in FIELDS:
            rng = Z if "int" in f[1] else R
            self.fb[f[0]] = z3.Function("B_" + f[0], *([Z, Z] + [Z] * (len(f) > 2) + [rng]))
    def src(self, a, names, what, lead, K):
        """pattern that slot r of array a belongs to, r an arbitrary slot (lead: positions of the other axes)"""
        E = self.E
        ix = [E.fresh("at", "i") for _ in a.shape]
        for i, d in zip(ix, a.shape): E.fact(z3.And(i.t >= 0, lift(_cmp("<", i, d))))
        r = ix[lead]
        s = source(E, a[tuple(ix)], names, what)
        t = s.t if isinstance(s, S) else lift(s)
        return lambda q: S(z3.substitute(t, (r.t, lift(q))))
    def dims(self, K): return (add(self.o.nRho, mul(2, self.o.padding[0])), add(self.o.nTheta, mul(2, self.o.padding[1])), K)
    def radon_faster(self, pats, padding=None, fixArtifacts=False, background=None, normalization=True):
        E = self.E
        K = pats.shape[0]
        E.oblige("patterns of the full shape are transformed", band(_cmp("==", pats.shape[1], self.H), _cmp("==", pats.shape[2], self.W)))
        E.oblige("the background is the one that was set", background is self.bg)
        if fixArtifacts is not False: raise Unsupported("fixArtifacts")
        s = self.src(pats, ["pat"], "radon_faster", 0, K)
        y, x, r = E.fresh("y", "i"), E.fresh("x", "i"), E.fresh("r", "i"); E.scope_push()
        for v, d in ((y, self.H), (x, self.W), (r, K)): E.fact(z3.And(v.t >= 0, lift(_cmp("<", v, d))))
        E.oblige("patterns are handed over as they are", _cmp("==", pats[r, y, x], self.pat(s(r), y, x))); E.scope_pop()
        return marr("rdn", self.dims(K), lambda i: S(self.fr(lift(s(i[2])), lift(i[0]), lift(i[1]))))
    def rdn_conv(self, rdn):
        K = rdn.shape[2]; s = self.src(rdn, ["RDN"], "rdn_conv", 2, K)
        return marr("conv", self.dims(K), lambda i: S(self.fc(lift(s(i[2])), lift(i[0]), lift(i[1])))), marr("ave", (K,), lambda i: S(self.fa(lift(s(i[0])))))
    def rdn_local_max(self, conv):
        K = conv.shape[2]; s = self.src(conv, ["CONV"], "rdn_local_max", 2, K)
        return marr("lmax", self.dims(K), lambda i: S(self.fm(lift(s(i[2])), lift(i[0]), lift(i[1]))), arrays.BOOL)
    def band_label(self, n, conv, norm, lmax):
        E = self.E; K = conv.shape[2]
        E.oblige("number of patterns handed over", band(_cmp("==", n, K), _cmp("==", lmax.shape[2], K)))
        s, s2 = self.src(conv, ["CONV"], "band_label", 2, K), self.src(lmax, ["LMAX"], "band_label", 2, K)
        q = E.fresh("q", "i"); E.scope_push(); E.fact(z3.And(q.t >= 0, lift(_cmp("<", q, K)))); E.oblige("band_label: maxima and transform of the same pattern", _cmp("==", s(q), s2(q))); E.scope_pop()
        r = npshim.StructArr((K, self.o.nBands), self.o.dataType)
        def val(f, fn):
            def g(i):
                v = S(fn(*[lift(s(i[0]))] + [lift(x) for x in i[1:]]))
                if f == "valid": E.fact(z3.And(v.t >= 0, v.t <= 1))
                return v
            return g
        for f in r.f: r.f[f] = marr("bl_" + f, r.f[f].shape, val(f, self.fb[f]), r.f[f].dtype)
        return r
def plan_obj(E, L, **k):
    bd = L.load("pyebsdindex.band_detect")
    nR, nT, nB, p0, p1 = [E.const(x, "i") for x in ("nRho", "nTheta", "nBands", "pad0", "pad1")]
    E.assume(band(band(nR >= 1, nT >= 1), band(nB >= 1, band(p0 >= 0, p1 >= 0))))
    return obj(bd, "BandDetect", nRho=nR, nTheta=nT, nBands=nB, padding=arrays.asarray([p0, p1]), dataType=arrays.StructDT(FIELDS), **k), nB
def find_bands(ndim, chunked, bg):
    def th(E, L):
        H, W = E.const("H", "i"), E.const("W", "i"); E.assume(band(H >= 1, W >= 1))
        n = E.const("n", "i") if ndim == 3 else 1
        if ndim == 3: E.assume(n >= 1)
        B = sarr("bg", (H, W)) if bg else None
        o, nB = plan_obj(E, L, backgroundsub=B)
        st = Stages(E, o, H, W, B); o.radonPlan = st
        for nm in ("rdn_conv", "rdn_local_max", "band_label"): o.__dict__[nm] = getattr(st, nm)
        f = z3.Function("pat", Z, Z, Z, R)
        st.pat = lambda i, y, x: S(f(lift(i), lift(y), lift(x)))
        pats = marr("pats", (n, H, W) if ndim == 3 else (H, W), lambda i: st.pat(*(i if ndim == 3 else (0,) + tuple(i))))
        cs = E.const("chunksize", "i") if chunked else -1
        if chunked: E.assume(cs >= 1)
        r = o.find_bands(pats, chunksize=cs)
        E.oblige("one row of bands per pattern", band(_cmp("==", r.shape[0], n), _cmp("==", r.shape[1], nB)))
        b = E.row(0, nB)
        if chunked:
            lp = [l for l in E.ghost.get("loops", {}).values() if l.ident.startswith("find_bands")]
            if len(lp) != 1 or not isinstance(lp[0].it, __import__("pyvc.loops", fromlist=["x"]).SymList): raise Unsupported("chunks are not a list of ranges")
            ch = lp[0]; c = ch.elem(ch.k)
            k = E.fresh("pattern", "i"); E.fact(z3.And(lift(_cmp(">=", k, c[0])), lift(_cmp("<", k, c[1]))))
            E.oblige("chunks stay inside the stack", band(_cmp(">=", c[0], 0), _cmp("<=", c[1], n)))
            # every pattern is in a chunk
            E.scope_push()
            p = E.fresh("anypattern", "i"); E.fact(z3.And(p.t >= 0, lift(_cmp("<", p, n))))
            q, rem = E.divmod_idx(p, cs)
            E.oblige("the chunk of a pattern exists", band(_cmp(">=", q, 0), _cmp("<", q, ch.it.n)))
            E.assume(band(_cmp(">=", q, 0), _cmp("<", q, ch.it.n)))
            e = ch.elem(q)
            E.oblige("and contains it", band(_cmp("<=", e[0], p), _cmp("<", p, e[1])))
            E.scope_pop()
        else: k = E.row(0, n) if ndim == 3 else 0
        for nm in r.f:
            a = r.f[nm]
            for c in range(a.shape[2] if a.ndim == 3 else 1):
                ix = (k, b) + ((c,) if a.ndim == 3 else ())
                w = S(st.fb[nm](*[lift(x) for x in ix]))
                if nm == "normmax": w = core.truediv(w, core.smax(S(st.fa(lift(k))), Fraction(1, 10 ** 7)))
                E.oblige("row of a pattern is a function of that pattern: %s" % nm, _cmp("==", a[ix], w))
        E.oblige("the patterns are not modified", unmodified(pats))
        if bg: E.oblige("the background is not modified", unmodified(B))
    return th
def find_proofs():
    out = []
    for nd, ch, bg in [(3, True, False), (3, True, True), (3, False, False), (3, False, True), (2, False, False), (2, False, True)]:
        out.append(Proof("find_bands, %s%s%s" % ("a stack" if nd == 3 else "a single pattern", ", any chunk size" if ch else "", ", background" if bg else ""), ["band_detect.BandDetect.find_bands"], find_bands(nd, ch, bg)))
    return out
class Filters:
    """scipy.ndimage through contracts: each output depends on the array that is handed over (and, for a window of one along an axis, on its own position there only)"""
    def __init__(self, E, src): self.E, self.src, self.G, self.D = E, src, z3.Function("GAUSS", Z, Z, Z, R), z3.Function("DILATE", Z, Z, Z, R)
    def gaussian_filter(self, a, sigma, order=0, **k):
        if len(a.shape) != 2 or k: raise Unsupported("gaussian_filter of something else")
        s = self.src(a)
        return marr("gauss", a.shape, lambda i: S(self.G(lift(s), lift(i[0]), lift(i[1]))))
    def grey_dilation(self, a, size=None, **k):
        if len(a.shape) != 3 or k: raise Unsupported("grey_dilation of something else")
        E = self.E
        E.oblige("the maximum filter does not mix patterns", _cmp("==", size[2], 1))
        self.size, self.inp = size, a.snapshot()
        return marr("dilated", a.shape, lambda i: S(self.D(*[lift(x) for x in i])))
def conv():
    """rdn_conv: column q of the result depends on column q of the transform only"""
    def th(E, L):
        bd = L.load("pyebsdindex.band_detect")
        o, nB = plan_obj(E, L, rSigma=E.const("rSigma"), tSigma=E.const("tSigma"))
        n = E.const("n", "i"); E.assume(n >= 1)
        p0, p1 = o.padding[0], o.padding[1]
        D0, D1 = add(o.nRho, mul(2, p0)), add(o.nTheta, mul(2, p1))
        E.assume(band(p0 >= 1, p1 >= 1)); E.assume(band(_cmp(">", D1, mul(2, p0)), band(_cmp(">=", o.nTheta, p1), _cmp(">=", o.nTheta, 2))))
        f = z3.Function("RDN", Z, Z, Z, R)
        rdn = marr("rdn", (D0, D1, n), lambda i: S(f(*[lift(x) for x in i])))
        def src(a):
            y, x = E.fresh("y", "i"), E.fresh("x", "i"); E.fact(z3.And(y.t >= 0, x.t >= 0, y.t < lift(a.shape[0]), x.t < lift(a.shape[1])))
            return source(E, a[y, x], ["RDN"], "gaussian_filter", 2)
        bd.scipyndim = Filters(E, src)
        c, ave = o.rdn_conv(rdn)
        E.oblige("shape of the result", band(band(_cmp("==", c.shape[0], D0), _cmp("==", c.shape[1], D1)), band(_cmp("==", c.shape[2], n), _cmp("==", ave.shape[0], n))))
        q, y, x = E.row(0, n), E.fresh("y", "i"), E.fresh("x", "i"); E.fact(z3.And(y.t >= 0, x.t >= 0, y.t < lift(D0), x.t < lift(D1)))
        v = c[y, x, q]
        for nm, t in (("the filtered transform", v), ("its mean", ave[q])):
            lp = []
            ar = [(a.arg(0)) for a in apps(t, "GAUSS", lp)] + [a.arg(2) for a in apps(t, "RDN", lp)] + [a.arg(2) for a in lp if a.num_args() == 3]
            if any(a.num_args() != 3 for a in lp): raise Unsupported("an element of another iteration")
            if not ar: raise Unsupported("a result that does not come from the transform")
            for a in ar: E.oblige("%s depends on that pattern only" % nm, _cmp("==", S(a), q))
        E.oblige("the filtered transform is not negative", _cmp(">=", v, 0))
    return th
def local_max():
    """rdn_local_max: marks the maxima of their neighbourhood inside the searched region, pattern by pattern"""
    def th(E, L):
        bd = L.load("pyebsdindex.band_detect")
        n = E.const("n", "i"); E.assume(n >= 1)
        k0, k1 = E.const("k0", "i"), E.const("k1", "i"); E.assume(band(k0 >= 0, k1 >= 0))
        o, nB = plan_obj(E, L, peakPad=arrays.asarray([add(mul(2, k0), 1), add(mul(2, k1), 1)]))
        p0, p1 = o.padding[0], o.padding[1]; E.assume(band(p0 >= 1, p1 >= 1))
        D0, D1 = add(o.nRho, mul(2, p0)), add(o.nTheta, mul(2, p1))
        M = z3.Function("MASK", Z, Z, Z)
        def mk(i):
            v = S(M(*[lift(x) for x in i])); E.fact(z3.And(v.t >= 0, v.t <= 1)); return v
        o.rdnmask = marr("mask", (o.nRho, o.nTheta), mk, arrays.I64)
        f = z3.Function("RDN", Z, Z, Z, R)
        rdn = marr("rdn", (D0, D1, n), lambda i: S(f(*[lift(x) for x in i])))
        F = bd.scipyndim = Filters(E, None)
        r = o.rdn_local_max(rdn)
        E.oblige("shape of the result", band(_cmp("==", r.shape[0], D0), band(_cmp("==", r.shape[1], D1), _cmp("==", r.shape[2], n))))
        q, y, x = E.row(0, n), E.fresh("y", "i"), E.fresh("x", "i"); E.fact(z3.And(y.t >= 0, x.t >= 0, y.t < lift(D0), x.t < lift(D1)))
        d0, d1 = E.fresh("dy", "i"), E.fresh("dx", "i")
        s = F.size
        # contract of grey_dilation: largest value of the window
        inw = z3.And(2 * d0.t < lift(s[0]), -2 * d0.t < lift(s[0]), 2 * d1.t < lift(s[1]), -2 * d1.t < lift(s[1]))
        y2, x2 = add(y, d0), add(x, d1)
        E.fact(z3.And(lift(y2) >= 0, lift(y2) < lift(D0), lift(x2) >= 0, lift(x2) < lift(D1)))
        g = S(F.D(lift(y), lift(x), lift(q)))
        own, nb = S(f(lift(y), lift(x), lift(q))), S(f(lift(y2), lift(x2), lift(q)))
        E.fact(z3.Implies(inw, g.t >= nb.t)); E.fact(g.t >= own.t)
        hit = core.tobool(r[y, x, q])
        a, b = sub(y, p0), sub(x, p1)
        ins = band(band(_cmp(">=", a, 0), _cmp("<", a, o.nRho)), band(_cmp(">=", b, 0), _cmp("<", b, o.nTheta)))
        E.oblige("maxima lie inside the searched region", bor(bnot(hit), ins))
        E.oblige("maxima are not masked", bor(bnot(hit), _cmp("!=", S(M(lift(a), lift(b))), 0)))
        near = z3.And(d0.t <= k0.t, -d0.t <= k0.t, d1.t <= k1.t, -d1.t <= k1.t)
        E.oblige("no neighbour of a maximum is larger", bor(bnot(hit), S(z3.Implies(near, own.t >= nb.t))))
        E.oblige("the maximum of its neighbourhood is found", bor(hit, bnot(band(ins, band(_cmp("!=", S(M(lift(a), lift(b))), 0), _cmp("==", g, own))))))
    return th
class Plan:
    """the band detection plan of an indexer, through its contracts (find_bands: tasks below; radon2pole: P01, C01)"""
    def __init__(self, E, pat, patDim, vendor, fp):
        self.E, self.pat, self.patDim, self.vendor, self.fp = E, pat, patDim, vendor, fp
        self.radonPlan = self; self.nB = E.const("nBands", "i"); E.assume(self.nB >= 1)
        self.fb = {f[0]: z3.Function("B_" + f[0], *([Z, Z] + [Z] * (len(f) > 2) + [Z if "int" in f[1] else R])) for f in FIELDS}
        self.fn = z3.Function("POLE", Z, Z, Z, R)
    def band_detect_setup(self, patterns=None, patDim=None, **k):
        if k: raise Unsupported("band_detect_setup options")
        if patDim is None: patDim = patterns.shape[1:3]
        self.patDim = arrays.asarray([patDim[0], patDim[1]])
    src = Stages.src
    def find_bands(self, pats, clparams=None, verbose=0, chunksize=-1, gpu_id=None, **kw):
        E = self.E
        E.oblige("a stack of patterns is handed over", len(pats.shape) == 3)
        K, H, W = pats.shape
        if self.patDim is None: E.oblige("the plan is set up", False)
        E.oblige("the plan is set up for patterns of this shape", band(_cmp("==", self.patDim[0], H), _cmp("==", self.patDim[1], W)))
        s = self.src(pats, ["pat"], "find_bands", 0, K); self.fp["source"] = s; self.fp["rows"] = K
        y, x, r = E.fresh("y", "i"), E.fresh("x", "i"), E.fresh("r", "i"); E.scope_push()
        for v, d in ((y, H), (x, W), (r, K)): E.fact(z3.And(v.t >= 0, lift(_cmp("<", v, d))))
        E.oblige("patterns are handed over as they are", _cmp("==", pats[r, y, x], self.pat(s(r), y, x))); E.scope_pop()
        b = npshim.StructArr((K, self.nB), arrays.StructDT(FIELDS))
        for f in b.f: b.f[f] = marr("fb_" + f, b.f[f].shape, (lambda fn: lambda i: S(fn(*[lift(s(i[0]))] + [lift(q) for q in i[1:]])))(self.fb[f]), b.f[f].dtype)
        return b
    def radon2pole(self, bd, PC=None, vendor=None):
        E = self.E
        E.oblige("the pattern centre that applies is used", PC is self.fp["PC"]); E.oblige("in the indexer's convention", vendor is self.vendor)
        K = bd.shape[0]; sr = {f: self.src(bd.f[f], ["B_" + f], "radon2pole", 0, K) for f in ("theta", "rho", "aveloc", "max")}
        r = E.fresh("r", "i"); E.scope_push(); E.fact(z3.And(r.t >= 0, lift(_cmp("<", r, K))))
        for f in sr: E.oblige("radon2pole: fields of one pattern", _cmp("==", sr[f](r), sr["theta"](r)))
        E.scope_pop()
        s = sr["theta"]
        return marr("poles", (K, self.nB, 3), lambda i: S(self.fn(lift(s(i[0])), lift(i[1]), lift(i[2]))))
def index_pats(mode, count, pc):
    """EBSDIndexer.index_pats with _getpats and _detectbands"""
    def th(E, L):
        x = L.load("pyebsdindex._ebsd_index_single")
        n, H, W = E.const("n", "i"), E.const("H", "i"), E.const("W", "i"); E.assume(band(n >= 1, band(H >= 1, W >= 1)))
        f = z3.Function("pat", Z, Z, Z, R); fp = {}
        pat = lambda i, yy, xx: S(f(lift(i), lift(yy), lift(xx)))
        st = E.const("patstart", "i"); E.assume(band(st >= 0, _cmp("<", st, n)))
        np_ = E.const("npats", "i") if count else -1
        if count: E.assume(np_ >= 1)
        pd = arrays.asarray([E.const("pd0", "i"), E.const("pd1", "i")])
        vendor = "EDAX"
        plan = Plan(E, pat, pd, vendor, fp)
        o = obj(x, "EBSDIndexer", bandDetectPlan=plan, vendor=vendor, PC=arrays.asarray([E.const("pc%d" % c) for c in range(3)]))
        own = arrays.asarray([E.const("own%d" % c) for c in range(3)])
        fp["PC"] = own if pc else o.PC
        want = core.smin(np_, sub(n, st)) if count else sub(n, st)
        kw = {}
        if mode == "array":
            pats = marr("pats", (n, H, W), lambda i: pat(*i)); kw["patsin"] = pats
        elif mode == "single":
            E.assume(band(_cmp("==", st, 0), _cmp("==", n, 1)))
            pats = marr("pats", (H, W), lambda i: pat(0, *i)); kw["patsin"] = pats
        else:
            class File:
                filepath = "f"
                def read_data(self, returnArrayOnly=False, patStartCount=None, convertToFloat=True, **k):
                    if k or not returnArrayOnly or convertToFloat: raise Unsupported("read_data options")
                    a, c = patStartCount
                    E.oblige("patterns requested from the file", band(_cmp("==", a, st), _cmp("==", c, np_)))
                    return marr("filepats", (want, H, W), lambda i: pat(add(st, i[0]), *i[1:])), None
            o.fID = File()
            pd[0] = H; pd[1] = W              # update_file sets the plan up for the file's patterns
        nm = z3.Function("INDEX", Z, R)
        def phase(bd, bn, verbose=0):
            K = bd.shape[0]
            E.oblige("as many band normals as bands", _cmp("==", bn.shape[0], K))
            s1, s2 = plan.src(bd.f["theta"], ["B_theta"], "_indexbandsphase", 0, K), plan.src(bn, ["POLE"], "_indexbandsphase", 0, K)
            r = E.fresh("r", "i"); E.scope_push(); E.fact(z3.And(r.t >= 0, lift(_cmp("<", r, K)))); E.oblige("bands and normals of the same pattern", _cmp("==", s1(r), s2(r))); E.scope_pop()
            return marr("indexed", (K,), lambda i: S(nm(lift(s1(i[0]))))), bd
        o.__dict__["_indexbandsphase"] = phase
        r, bd, ps, cnt = o.index_pats(patstart=st, npats=np_, PC=own if pc else None, **kw)
        E.oblige("one record per requested pattern", band(_cmp("==", r.shape[0], want), _cmp("==", bd.shape[0], want)))
        k = E.row(0, want); b = E.row(0, plan.nB)
        E.oblige("record k belongs to pattern patstart + k", _cmp("==", r[k], S(nm(lift(add(st, k))))))
        for q in ("theta", "max"): E.oblige("bands k belong to pattern patstart + k", _cmp("==", bd.f[q][k, b], S(plan.fb[q](lift(add(st, k)), lift(b)))))
        E.oblige("the start reported is the one asked for", _cmp("==", ps, st))
        E.oblige("the count reported is the one asked for", _cmp("==", cnt, np_ if count else want))
        if mode != "file": E.oblige("the patterns are not modified", unmodified(pats))
    return th
def stage_proofs():
    return [Proof("rdn_conv", ["band_detect.BandDetect.rdn_conv"], conv()), Proof("rdn_local_max", ["band_detect.BandDetect.rdn_local_max"], local_max())]
def index_proofs():
    out = []
    q = ["_ebsd_index_single.EBSDIndexer." + s for s in ("index_pats", "_getpats", "_detectbands")]
    for mode in ("array", "single", "file"):
        for count in (True, False):
            if mode == "single" and count: continue
            out.append(Proof("index_pats, %s%s" % ({"array": "a stack", "single": "a single pattern", "file": "a pattern file"}[mode], ", some of the patterns" if count else ""), q, index_pats(mode, count, mode == "array" and count)))
    return out
