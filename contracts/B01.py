from pyvc import core, arrays, npshim
from pyvc.core import _cmp, band, bor, S, add, mul, sub
from pyvc.spec import *
EXPLANATION = "Radon.radon_faster (with rdn_loops) runs on a stack of n >= 1 patterns of symbolic shape with a symbolic plan; for an arbitrary entry the result times the number of plan pixels equals the sum of exactly the plan's pixels of that pattern."
ASSUMPTIONS = ["index plan rows are in ascending order with entries >= 0 (established by radon_plan_setup's sort, contract of numpy.sort)"]
def faster(ndim, norm, bg):
    def th(E, Ld):
        rf = Ld.load("pyebsdindex.radon_fast")
        n = E.const("n", "i") if ndim == 3 else 1
        H, W, nR, nT, M, p0, p1 = [E.const(x, "i") for x in ("H", "W", "nRho", "nTheta", "M", "pad0", "pad1")]
        E.assume(band(band(H >= 1, W >= 1), band(nR >= 1, nT >= 1))); E.assume(band(M >= 1, band(p0 >= 0, p1 >= 0)))
        if ndim == 3: E.assume(n >= 1)
        Z = z3.IntSort()
        IY, IX = z3.Function("IY", Z, Z, Z, Z), z3.Function("IX", Z, Z, Z, Z)
        nP = E.prod_dim(H, W)
        def entry(ix):
            # any non-negative integer v is (v div W)*W + (v mod W)
            y, x = [S(f(*[lift(q) for q in ix])) for f in (IY, IX)]
            E.fact(z3.And(y.t >= 0, x.t >= 0, x.t < W.t))
            v = add(mul(y, W), x)
            E.fact((y.t < H.t) == (lift(v) < lift(nP)))
            return v
        plan = marr("plan", (nR, nT, M), entry, dt=arrays.DTS["int64"])
        im = sarr("im", (n, H, W) if ndim == 3 else (H, W))
        B = sarr("bg", (H, W)) if bg else None
        x = object.__new__(rf.Radon)
        mv = E.const("missing", "r")
        x.__dict__.update(nTheta=nT, nRho=nR, indexPlan=plan, missingval=mv, imDim=arrays.asarray([H, W]))
        q = E.row(0, n) if ndim == 3 else 0
        i, j = E.row(0, nR), E.row(0, nT)
        E.fact(((lift(q) + 1) * lift(nP)) <= lift(E.prod_dim(n, nP))) if ndim == 3 else None
        r = x.radon_faster(im, padding=arrays.asarray([p0, p1]), normalization=norm, background=B)
        E.oblige("shape of the result", band(_cmp("==", r.shape[0], add(nR, mul(2, p0))), band(_cmp("==", r.shape[1], add(nT, mul(2, p1))), _cmp("==", r.shape[2], n))))
        E.oblige("input is not modified", unmodified(im))
        if bg: E.oblige("background is not modified", unmodified(B))
        out = r[add(i, p0), add(j, p1), q]
        br = [b for b in E.ghost.get("breaks", [])]
        if len(br) != 1: raise Unsupported("the pixel loop has %d exits" % len(br))
        _, K, lo, hi, cond = br[0]
        E.oblige("the pixel loop starts at the first plan entry", _cmp("==", lo, 0)); E.oblige("and runs through all of them", _cmp("==", hi, M))
        # K separates the pixels of the line from the padding entries
        k = E.fresh("k", "i")
        def px(kk):
            y, xx = S(IY(lift(i), lift(j), lift(kk))), S(IX(lift(i), lift(j), lift(kk)))
            v = im[q, y, xx] if ndim == 3 else im[y, xx]
            return core.sub(v, B[y, xx]) if bg else v
        E.fact(z3.And(k.t >= K.t, k.t < M.t))
        v, vK = entry((i, j, k)), entry((i, j, K))
        E.fact(lift(vK) <= lift(v))             # ascending row
        E.oblige("no pixel of the plan is left out", _cmp(">=", v, nP))
        def body(kk):
            entry((i, j, kk))
            E.fact(z3.Not(lift(cond(kk))))      # before the first break
            return px(kk)
        total = E.sum_of(0, K, body)
        if E.decide(_cmp(">=", K, 1)):
            E.oblige("entry is the mean of the line's pixels" if norm else "entry is the sum of the line's pixels", _cmp("==", mul(out, K) if norm else out, total))
        else: E.oblige("entry of an empty line is the missing value", _cmp("==", out, mv))
    return th
def proofs(tier):
    out = []
    for nd in (3, 2):
        for nm in (True, False):
            for bg in (False, True):
                out.append(Proof("radon_faster %d-D%s%s" % (nd, "" if nm else ", not normalised", ", background" if bg else ""), ["radon_fast.Radon.radon_faster", "radon_fast.Radon.rdn_loops"], faster(nd, nm, bg), numba_index=True))
    return out
