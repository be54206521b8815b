from pyvc import core, arrays, npshim
from pyvc.core import _cmp, band, bor, S
from pyvc.spec import *
import types
EXPLANATION = "Radon.radon2pole runs on n >= 1 patterns with m >= 1 bands, symbolic detector height and width, a symbolic physical source point (tx, ty, L) with L > 0 given in each vendor's convention, both as one centre and as one per pattern. For an arbitrary pattern and band the result is shown to be a unit vector perpendicular to the line direction and to the vector from the source point to the line, and with a fixed sense common to all conventions, so all conventions give the same normal. The line's angle and distance stored with the band are the ones used."
ASSUMPTIONS = ["contract of np.interp: a function of the abscissa and the table", "vendor conventions as documented: EDAX (x/W, y/H, z/min(W,H)) from the bottom left, OXFORD all by W, BRUKER and KIKUCHIPY y from the top and z by H, EMSOFT (pixels from the centre, micrometres, micrometres per pixel)"]
VEN = ["EDAX", "OXFORD", "BRUKER", "KIKUCHIPY", "EMSOFT"]
def centre(ven, W, H, tx, ty, L, dl):
    d, m, s = core.truediv, core.mul, core.sub
    if ven == "EDAX": return [d(tx, W), d(ty, H), d(L, core.smin(H, W))]
    if ven == "OXFORD": return [d(tx, W), d(ty, W), d(L, W)]
    if ven in ("BRUKER", "KIKUCHIPY"): return [d(tx, W), s(1, d(ty, H)), d(L, H)]
    return [s(d(W, 2), tx), s(ty, d(H, 2)), m(L, dl), dl]
def pole(ven, mode, case=None, only_line=False):
    def th(E, Ld):
        rf = Ld.load("pyebsdindex.radon_fast")
        nt, nr = E.const("nTheta", "i"), E.const("nRho", "i"); E.assume(band(nt >= 2, nr >= 2))
        H, W = E.const("H", "i"), E.const("W", "i"); E.assume(band(H >= 1, W >= 1)); 
        if case is None: E.decide(_cmp("<=", H, W))
        else: E.assume(_cmp("<=", H, W) if case == "H<=W" else _cmp(">", H, W))
        n, m = E.const("n", "i"), E.const("m", "i"); E.assume(band(n >= 1, m >= 1))
        k, j = E.row(0, n), E.row(0, m)
        tab = {}
        R = z3.RealSort()
        fth, frh = z3.Function("itheta", R, R), z3.Function("irho", R, R)
        th_, rh_ = sarr("theta_tab", (nt,)), sarr("rho_tab", (nr,))
        def rule(v, xp, fp):
            for a, f, q in ((th_, fth, nt), (rh_, frh, nr)):
                if fp is a:
                    E.oblige("interpolation abscissae are 0..n-1", _cmp("==", xp.shape[0], q))
                    return S(f(lift(core.fl(v)) if z3.is_real(lift(v)) else z3.ToReal(lift(v))))
            raise Unsupported("interpolation in an unknown table")
        E.interp_rule = rule
        x = object.__new__(rf.Radon)
        x.__dict__.update(nTheta=nt, nRho=nr, theta=th_, rho=rh_, imDim=arrays.asarray([H, W]))
        dt = arrays.StructDT([("aveloc", "float32", (2,)), ("theta", "float32"), ("rho", "float32")])
        bd = npshim.StructArr((n, m), dt)
        for nm in ("aveloc", "theta", "rho"): bd.f[nm] = sarr("bd_" + nm, bd.f[nm].shape)
        av = bd.f["aveloc"]
        tx, ty, L, dl = [z3.Function(q, z3.IntSort(), R) for q in ("tx", "ty", "L", "dl")]
        def at(i):
            v = [S(f(lift(i))) for f in (tx, ty, L, dl)]
            E.fact(v[2].t > 0); E.fact(v[3].t > 0)
            return v
        if mode == "one":
            i0 = E.const("pat0", "i"); src = at(i0); PC = arrays.asarray(centre(ven, W, H, *src))
            if isinstance(PC, arrays.CArr): PC.copy0 = PC.a.copy()
        else:
            src = at(k)
            cols = 4 if ven == "EMSOFT" else 3
            PC = marr("PC", (n, cols), lambda ix: centre(ven, W, H, *at(ix[0]))[ix[1]])
        theta, rho = core.sub(E.PI, core.truediv(S(fth(lift(av[k, j, 1]))), core.truediv(180, E.PI))), core.neg(S(frh(lift(av[k, j, 0]))))
        c, s = E.cossin(theta)
        d = [core.sub(core.add(core.truediv(W, 2), core.mul(rho, c)), src[0]), core.sub(core.add(core.truediv(H, 2), core.mul(rho, s)), src[1]), src[2]]
        D = core.sub(core.mul(core.neg(s), d[1]), core.mul(c, d[0]))
        E.lemma_pos("the source is off the detector plane", core.mul(src[2], src[2]), square=D)
        r = x.radon2pole(bd, PC=PC, vendor=ven)
        E.oblige("one normal per band and pattern", band(band(_cmp("==", r.shape[0], n), _cmp("==", r.shape[1], m)), len(r.shape) == 3 and r.shape[2] == 3))
        E.oblige("pattern centre argument is not modified", unmodified(PC))
        v = [r[k, j, c] for c in range(3)]
        E.oblige("stored angle", _cmp("==", bd["theta"][k, j], theta)); E.oblige("stored distance", _cmp("==", bd["rho"][k, j], rho))
        
        if only_line: return
        E.oblige("unit normal", _cmp("==", dotp(v, v), 1))
        E.oblige("perpendicular to the line", _cmp("==", dotp(v, [core.neg(s), c, 0]), 0))
        E.oblige("perpendicular to source-line vector", _cmp("==", dotp(v, d), 0))
        # sense: r x d = (c L, s L, ...)
        E.oblige("common sense of the normal", _cmp(">", dotp(v[:2], [c, s]), 0))
    return th
def proofs(tier):
    out = []
    for v in VEN:
        for m in ("one", "per"):
            # the two cases are exhaustive: H <= W or H > W
            for c in (("H<=W", "H>W") if v == "EDAX" else (None,)):
                out.append(Proof("radon2pole %s, %s%s" % (v, {"one": "one centre", "per": "one centre per pattern"}[m], ", " + c if c else ""), ["radon_fast.Radon.radon2pole"], pole(v, m, c)))
    return out
