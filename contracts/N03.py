"""NLPAR noise estimate"""
import types
from pyvc import core, arrays
from pyvc.core import _cmp, band, bor, bnot, add, sub, mul, S, smin, smax
from pyvc.spec import *
from contracts.files import obj, pick
from contracts.N02 import Pat, SIG
EXPLANATION = "kernel: for any data, scan shape, neighbourhood radius, requested rows and columns and pixel list, at an arbitrary requested point, with loop invariants over both window loops and an arbitrary ghost neighbour: the squared noise is not above the half mean squared difference to any usable neighbour of the window clipped to the scan, equals that of one usable neighbour (witness kept by the invariant) or is 1e24 if there is none, and is not negative; the sums over the pixel list are identified with the specified difference and pixel count term by term. calcsigma: for any scan and pattern shape, radius and chunk size, with the invariant that the rows so far hold the noise from their complete neighbourhoods: the rows read cover the neighbourhood of every row kept, every requested row lies in the data, and the table returned has the right value at an arbitrary point, so it does not depend on the chunk size."
ASSUMPTIONS = ["calcsigma is checked against the contract of sigma_numba that the kernel tasks prove (the noise of a requested point is a function of the patterns in its neighbourhood); with saturation protection also of the threshold, which is taken per chunk (known finding)", "contract of read_data: F02", "np.round in the default chunk size gives at least 1 (patterns of fewer than 2e9 / ncols pixels)", "that the noise scales with the intensity follows from the formula proved, except for the fixed duplicate threshold"]
Z, R = z3.IntSort(), z3.RealSort()
D2, N2 = z3.Function("DIFF2", Z, Z, Z, Z, R), z3.Function("NPIX", Z, Z, Z, Z, R)
BIG, TH = Fraction(10) ** 24, Fraction(1, 1000)
def sums(ts):
    out, st, seen = [], list(ts), set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name().startswith("SUM"): out.append(x)
        st.extend(x.children())
    return out
def kernel(sat):
    def th(E, L):
        m = L.load("pyebsdindex.nlpar_cpu")
        E.hav = {"sigma_numba"}
        nr, nc, npix, nn = [E.const(x, "i") for x in ("nrows", "ncols", "npix", "nn")]
        for v in (nr, nc, npix): E.assume(v >= 1)
        E.assume(nn >= 1)
        n = E.prod_dim(nr, nc)
        nind = E.const("nindices", "i"); E.assume(nind >= 1)
        DF, IF = z3.Function("DATA", Z, Z, R), z3.Function("IND", Z, Z)
        data = marr("data", (n, npix), lambda i: S(DF(lift(i[0]), lift(i[1]))), arrays.F32)
        def ind(i):
            v = S(IF(lift(i[0]))); E.fact(z3.And(v.t >= 0, v.t < lift(npix))); return v
        indices = marr("indices", (nind,), ind, arrays.DTS["uint64"])
        r0, rn, c0, cn = [E.const(x, "i") for x in ("r0", "rn", "c0", "cn")]
        for s_, l_, D in ((r0, rn, nr), (c0, cn, nc)): E.assume(band(band(s_ >= 0, l_ >= 1), _cmp("<=", add(s_, l_), D)))
        mx = E.const("maximum"); m.np.max = lambda a, *k, **kw: mx
        thr = mul(mx, Fraction(9961, 10000)) if sat else add(mx, 1)
        a, b = E.const("a", "i"), E.const("b", "i")          # any point of the scan
        def at(): # the point whose noise is estimated: the arbitrary iterations of the two outer loops
            L_ = [l for l in E.loops if l.sym and l.active and l.mode == "map"]
            if len(L_) != 2: raise Unsupported("points are not visited by two loops")
            return L_[0].kv, L_[1].kv
        def px(r, c, q): return S(DF(lift(add(c, mul(nc, r))), IF(lift(q))))
        def body(which, j, i, y, x, q):
            d0, d1 = px(j, i, q), px(y, x, q)
            ok = band(_cmp("<", d0, thr), _cmp("<", d1, thr))
            return core.ite(ok, mul(sub(d0, d1), sub(d0, d1)) if which else Fraction(1), Fraction(0))
        def d2(j, i, y, x): return S(D2(*[lift(v) for v in (j, i, y, x)]))
        def n2(j, i, y, x):
            v = S(N2(*[lift(v) for v in (j, i, y, x)])); E.fact(v.t >= z3.Q(1, 10 ** 12)); return v
        def s0(j, i, y, x): return core.truediv(d2(j, i, y, x), mul(2, n2(j, i, y, x)))
        def usable(j, i, y, x): return band(bnot(band(_cmp("==", y, j), _cmp("==", x, i))), _cmp(">=", d2(j, i, y, x), TH))
        def identify(ts, j, i, y, x):
            """the sums of the code over the pixels are the difference and the pixel count of the two points"""
            for app in sums(ts):
                q = E.sum_body(app)
                if q is None: continue
                lo, hi, bd = q.arg(1).arg(0), q.arg(2).arg(0), q.arg(0).arg(0)
                k = E.fresh("q", "i"); E.fact(z3.And(k.t >= 0, k.t < lift(nind)))
                if not E.implied(S(z3.And(lo == 0, hi == lift(nind)))): continue
                bq = S(z3.substitute(bd, (z3.Int("#k"), k.t)))
                for which in (0, 1):
                    if E.implied(_cmp("==", bq, body(which, j, i, y, x, k))):
                        w = d2(j, i, y, x) if which else sub(n2(j, i, y, x), Fraction(1, 10 ** 12))
                        E.fact(app == lift(w)); break
        wits = []
        def inv(outer):
            def f(e):
                j, i = at()
                k = e.k
                reals = [v for v in e._vals if core.isreal(e._vals[v])]; ints = [v for v in e._vals if not core.isreal(e._vals[v]) and not core.isboolv(e._vals[v])]
                if not reals: return []         # not yet known to be carried
                if len(reals) != 1 or len(ints) > 1: raise Unsupported("variables carried through the window loops")
                mind = e._vals[reals[0]]
                rows = outer_row(e, outer)
                if outer: done = lambda y, x: band(band(_cmp(">=", y, e.lo), _cmp("<", y, k)), cols(j, i, x))
                else: done = lambda y, x: bor(band(band(_cmp(">=", y, rows.dom[0]), _cmp("<", y, rows.k)), cols(j, i, x)), band(_cmp("==", y, rows.k), band(_cmp(">=", x, e.lo), _cmp("<", x, k))))
                if not outer and not e._assuming: identify([lift(mind)] + list(E.pc), j, i, rows.k, last(e))
                out = [("not above the noise from any point visited", bor(bnot(band(done(a, b), usable(j, i, a, b))), _cmp("<=", mind, s0(j, i, a, b)))), ("not negative", _cmp(">=", mind, 0))]
                def is_(y, x): return band(band(done(y, x), usable(j, i, y, x)), _cmp("==", mind, s0(j, i, y, x)))
                if e._assuming:
                    w = (E.fresh("wy", "i"), E.fresh("wx", "i")); wits.append(w); c = is_(*w)
                else:
                    c = False
                    for w in wits[-3:] + ([(rows.k, last(e))] if not outer else []): c = bor(c, is_(*w))
                out.append(("the noise from a point visited, or none was usable", bor(_cmp("==", mind, BIG), c)))
                if ints:
                    W = sub(*reversed(window(i, nc)))
                    cnt = mul(sub(k, e.lo), W) if outer else add(mul(sub(rows.k, rows.dom[0]), W), sub(k, e.lo))
                    out.append(("slots used so far", _cmp("==", e._vals[ints[0]], cnt)))
                return out
            return f
        def window(p, n_): return smax(0, sub(p, nn)), add(smin(add(p, nn), sub(n_, 1)), 1)
        def cols(j, i, x):
            lo, hi = window(i, nc); return band(_cmp(">=", x, lo), _cmp("<", x, hi))
        def last(e): return sub(e.k, 1)
        def outer_row(e, outer):
            if outer: return None
            return [l for l in E.loops if l.ident == window_loops[0]][-1]
        window_loops = {}
        def find(loop):
            # the loops inside the two that visit the points: over the rows and the columns of the neighbourhood (and then the pixels)
            act = [l for l in E.loops if l.sym and l.active]
            d = len(act) - 2
            if d not in (0, 1) or any(l.mode != "map" for l in act[:2]): return None
            window_loops[d] = loop.ident
            return inv(d == 0)
        E.find_invariant = find
        kw = {} if sat is None else {"saturation_protect": bool(sat)}
        sig, rest = m.NLPAR.sigma_numba(data, nn, nr, nc, arrays.asarray([r0, rn]), arrays.asarray([c0, cn]), indices, **kw)
        j, i = E.row(r0, add(r0, rn)), E.row(c0, add(c0, cn))
        E.oblige("one noise value per point", band(_cmp("==", sig.shape[0], nr), _cmp("==", sig.shape[1], nc)))
        v = sig[j, i]
        (y0, y1), (x0, x1) = window(j, nr), window(i, nc)
        inw = lambda y, x: band(band(_cmp(">=", y, y0), _cmp("<", y, y1)), band(_cmp(">=", x, x0), _cmp("<", x, x1)))
        E.oblige("not negative", _cmp(">=", v, 0))
        sq = mul(v, v)
        E.oblige("not above the noise from any usable point of the neighbourhood", bor(bnot(band(inw(a, b), usable(j, i, a, b))), _cmp("<=", sq, s0(j, i, a, b))))
        c = False
        for w in wits: c = bor(c, band(band(inw(*w), usable(j, i, *w)), _cmp("==", sq, s0(j, i, *w))))
        E.oblige("the noise from one usable point of the neighbourhood, a huge value if there is none", bor(c, _cmp("==", sq, BIG)))
    return th
def driver(chunk, mask):
    def th(E, L):
        m = L.load("pyebsdindex.nlpar_cpu")
        E.hav, E.hav_merge = {"calcsigma"}, True
        Rw, C, H, W = [E.const(x, "i") for x in ("nrows", "ncols", "H", "W")]
        for v in (Rw, C, H, W): E.assume(v >= 1)
        nn = E.const("nn", "i"); E.assume(nn >= 1)
        f = Pat(E, Rw, C, H, W)
        P = E.prod_dim(H, W)
        msk = sarr("MASK", (H, W), arrays.DTS["uint8"]) if mask else None
        nl = obj(m, "NLPAR", mask=msk, sigma=None, sigmann=None, nrows=Rw, ncols=C, filepath="mem")
        nl.getinfileobj = lambda: f
        def kern(data, nn_, nrows, ncols, rsc, csc, indices, saturation_protect=True):
            if f.read is None: raise Unsupported("patterns do not come from the file")
            r0, nr = f.read
            E.oblige("kernel: number of rows of the data", _cmp("==", nrows, nr)); E.oblige("kernel: number of columns", _cmp("==", ncols, C))
            E.oblige("kernel: neighbours", _cmp("==", nn_, nn))
            E.oblige("kernel: the option for saturated pixels", saturation_protect is sat)
            E.oblige("kernel: the rows asked for lie in the data", band(band(_cmp(">=", rsc[0], 0), _cmp(">=", rsc[1], 1)), _cmp("<=", add(rsc[0], rsc[1]), nr)))
            E.oblige("kernel: all columns are asked for", band(_cmp("==", csc[0], 0), _cmp("==", csc[1], C)))
            w, c, y, x = pick(E, nr), pick(E, C), pick(E, H), pick(E, W)
            E.oblige("kernel: as many patterns as were read", _cmp("==", data.shape[0], E.prod_dim(nr, C)))
            E.oblige("kernel: every pixel", _cmp("==", data.shape[1], P))
            E.oblige("kernel: the patterns of the file", _cmp("==", data[E.lin_idx(w, C, c), E.lin_idx(y, W, x)], S(f.f(lift(add(r0, w)), lift(c), lift(y), lift(x)))))
            t = pick(E, indices.shape[0]); it = lift(indices[t])
            z = [z for z in E.nzs if z3.is_app(it) and it.decl().eq(z.f)]
            if len(z) != 1 or not it.arg(0).eq(t.t): raise Unsupported("the pixel list is not an enumeration of positions")
            z = z[0]; p = E.lin_idx(y, W, x)
            E.oblige("kernel: the pixel list has all unmasked pixels", band(_cmp("==", indices.shape[0], z.n), _cmp("==", z.N, P)))
            E.oblige("kernel: exactly the unmasked pixels", core.tobool(z.member(p)) if not mask else S(lift(core.tobool(z.member(p))) == lift(_cmp("!=", msk[y, x], 0))))
            E.n += 1
            part = z3.Function("PART!%d" % E.n, Z, Z, R)
            def v(i):
                asked = band(_cmp(">=", i[0], rsc[0]), _cmp("<", i[0], add(rsc[0], rsc[1])))
                whole = band(bor(_cmp(">=", sub(i[0], nn), 0), _cmp("==", r0, 0)), bor(_cmp("<", add(i[0], nn), nr), _cmp("==", add(r0, nr), Rw)))
                return core.ite(band(asked, whole), S(SIG(lift(add(r0, i[0])), lift(i[1]))), S(part(lift(i[0]), lift(i[1]))))
            return marr("sigchunk", (nr, C), v, arrays.F32), (None, None, None)
        kern.__vc_loopsafe__ = True
        nl.sigma_numba = kern
        sat = object()
        a, b = E.const("row", "i"), E.const("column", "i")
        E.assume(band(band(a >= 0, _cmp("<", a, Rw)), band(b >= 0, _cmp("<", b, C))))
        def find(loop):
            if any(l.sym and l.active for l in E.loops): return None
            def inv(e):
                ss = [E.stores[p] for p in loop.info.get("hav", ())]
                if not ss: return []
                if len(ss) > 1 or e._vals: raise Unsupported("state carried from chunk to chunk")
                if len(ss[0].dims) != 2: raise Unsupported("noise values are not collected in a table")
                return [("noise of the rows so far", bor(_cmp(">=", a, e.k), _cmp("==", arrays.resolve(ss[0].head, (a, b)), S(SIG(lift(a), lift(b))))))]
            return inv
        E.find_invariant = find
        if chunk == "given":
            cs = E.const("chunk", "i"); E.assume(cs >= 1)
        else:
            cs = 0
            def rnd(x, *q, **k):
                v = E.const("rounded", "i"); E.assume(v >= 1); return v
            m.np.round = rnd
        out = nl.calcsigma(chunksize=cs, nn=nn, saturation_protect=sat, automask=False)
        E.oblige("one noise value per point of the scan", band(_cmp("==", out.shape[0], Rw), _cmp("==", out.shape[1], C)))
        E.oblige("the noise of every point is that from its complete neighbourhood", _cmp("==", out[a, b], S(SIG(lift(a), lift(b)))))
        E.oblige("neighbours are recorded", _cmp("==", nl.sigmann, nn))
    return th
def proofs(tier):
    f = ["nlpar_cpu.NLPAR.sigma_numba"]
    g = ["nlpar_cpu.NLPAR.calcsigma"]
    return [Proof("calcsigma, chunk size %s, mask %s" % (c, "given" if k else "all ones"), g, driver(c, k)) for c, k in (("given", True), ("given", False), ("chosen", True))] + [Proof("kernel, saturated pixels %s" % ("left out" if s else "kept"), f, kernel(s), tmo_ms=20000) for s in (True, False)]
