"""NLPAR over a whole scan: row chunks"""
import types
from pyvc import core, arrays
from pyvc.core import _cmp, band, bor, add, sub, mul, S, smin, smax
from pyvc.spec import *
from contracts.files import obj, pick, Reader
EXPLANATION = "calcnlpar: the chunk loop, for any scan and pattern shape, chunk size and search radius, with the noise given, given as one number or estimated on the way: every iteration writes exactly the rows of its chunk, all columns, at their own position, the chunks follow each other from the first row of the scan to the last, and every pattern written is the kernel's result for that scan point computed from patterns and noise values of its complete search window (and these from the complete neighbourhood), so it does not depend on the chunk size. _calcchunks, for any scan shape, margins, offsets and memory target (how many tiles there are and how large is left open): the tiles lie inside the scan, none is empty, what a tile owns lies in it with the full margin around it (clipped to the scan), the first starts with the scan, the last ends with it and none of the positions between two neighbours is left out."
ASSUMPTIONS = ["contract of nlpar_nb, proved in N01: the result of a point is a function of patterns and noise values in its search window, of the pixel list and of the scalar arguments; with saturation protection also of the threshold, which the driver takes per chunk (known finding)", "contract of sigma_numba, proved in N03: the noise of a point in the requested rows is a function of the patterns in its neighbourhood", "contracts of read_data and write_data: F02", "rescaling and background subtraction (off by default) are outside", "np.round and np.ceil in _calcchunks give any integer, not negative for an argument that is not"]
Z, R = z3.IntSort(), z3.RealSort()
SIG, NL = z3.Function("NOISE", Z, Z, R), z3.Function("DENOISED", Z, Z, R)
def window(r, n, sr):
    """rows of the search window of row r in a grid of n rows"""
    ws = smax(0, smin(sub(r, sr), sub(n, add(mul(2, sr), 1))))
    return ws, smin(n, smax(add(add(r, sr), 1), add(mul(2, sr), 1)))
class Pat:
    """contract of a pattern file (F02) of R rows and C columns"""
    __vc_loopsafe__ = True
    filetype = "UP"; filepath = "mem"; version = 3
    def __init__(self, E, Rw, C, H, W):
        self.E, self.nRows, self.nCols, self.patternH, self.patternW = E, Rw, C, H, W
        self.filedatatype = arrays.F32; self.f = z3.Function("FILE", Z, Z, Z, Z, R); self.read = None; self.writes = []
    def slab(self, patStartCount):
        if len(patStartCount) != 2 or len(patStartCount[0]) != 2: raise Unsupported("patterns not addressed by rows")
        return list(patStartCount[0]) + list(patStartCount[1])
    def read_data(self, path=None, convertToFloat=False, patStartCount=(0, -1), returnArrayOnly=False):
        E = self.E
        c0, r0, nc, nr = self.slab(patStartCount)
        E.oblige("whole rows are read", band(_cmp("==", c0, 0), _cmp("==", nc, self.nCols)))
        E.oblige("rows read lie inside the scan", band(band(_cmp(">=", r0, 0), _cmp(">=", nr, 1)), _cmp("<=", add(r0, nr), self.nRows)))
        E.oblige("patterns are read as floating point arrays", bool(convertToFloat) and bool(returnArrayOnly))
        def px(ix):
            r, c = E.divmod_idx(ix[0], self.nCols)
            return S(self.f(lift(add(r0, r)), lift(c), lift(ix[1]), lift(ix[2])))
        n = E.prod_dim(nr, self.nCols)
        self.read = (r0, nr)
        return marr("pats", (n, self.patternH, self.patternW), px, arrays.F32), None
    def write_data(self, newpatterns=None, patStartCount=(0, -1), writeHead=False, flt2int="clip", scalevalue=.98, maxScale=None):
        Ls = [l for l in self.E.loops if l.sym and l.active]
        if len(Ls) != 1 or Ls[0].mode != "map": raise Unsupported("patterns not written by one loop over chunks")
        if maxScale is not None: raise Unsupported("scaling")
        self.E.oblige("written without rescaling", _cmp("==", scalevalue, 1))
        self.check(Ls[0], newpatterns, self.slab(patStartCount))
def driver(noise, chunk, sat=True):
    def th(E, L):
        m = L.load("pyebsdindex.nlpar_cpu")
        E.hav = {"calcnlpar"}
        Rw, C, H, W = [E.const(x, "i") for x in ("nrows", "ncols", "H", "W")]
        for v in (Rw, C, H, W): E.assume(v >= 1)
        sr = E.const("sr", "i"); E.assume(sr >= 0)
        f = Pat(E, Rw, C, H, W); out = Pat(E, Rw, C, H, W); out.read_data = None
        P = E.prod_dim(H, W)
        mask = sarr("MASK", (H, W), arrays.DTS["uint8"])
        nl = obj(m, "NLPAR", lam=E.const("lam"), searchradius=sr, dthresh=E.const("dth"), diff_offset=E.const("off"), mask=mask, sigma=None, sigmann=1, nrows=Rw, ncols=C, filepath="mem", filepathout="out")
        lam = nl.lam; E.assume(lam > 0)
        given = None
        E.assume(core.S(z3.Or(Rw.t > 1, C.t > 1)) if noise == "given" else True)
        if noise == "given": E.lemma("more than one point", E.prod_dim(Rw, C) >= 2)
        if noise == "given": given = sarr("SGIVEN", (Rw, C)); nl.sigma = given
        if noise == "number": nl.sigma = E.const("s0")
        s_of = (lambda r, c: S(SIG(lift(r), lift(c)))) if noise == "estimated" else (lambda r, c: given[r, c]) if noise == "given" else (lambda r, c: nl0)
        nl0 = nl.sigma
        nl.getinfileobj = lambda: f; nl.getoutfileobj = lambda: out; nl.setoutfile = lambda *a, **k: None
        last = {}
        class Kernels:
            __vc_loopsafe__ = True
            def sigma(self, data, nn, nrows, ncols, rsc, csc, indices, saturation_protect=True):
                r0, nr = f.read
                E.oblige("noise estimate: number of rows of the data", _cmp("==", nrows, nr)); E.oblige("noise estimate: number of columns", _cmp("==", ncols, C))
                E.oblige("noise estimate: neighbours of one", _cmp("==", nn, 1))
                E.oblige("noise estimate: all rows and columns are asked for", band(band(_cmp("==", rsc[0], 0), _cmp("==", rsc[1], nr)), band(_cmp("==", csc[0], 0), _cmp("==", csc[1], C))))
                self.patterns("noise estimate", data, r0, nr, indices)
                part = z3.Function("PART", Z, Z, R)
                def v(i):
                    # the estimate of a row whose neighbours were read is the row's noise
                    whole = band(bor(_cmp(">=", i[0], 1), _cmp("==", r0, 0)), bor(_cmp("<", add(i[0], 1), nr), _cmp("==", add(r0, nr), Rw)))
                    return core.ite(whole, S(SIG(lift(add(r0, i[0])), lift(i[1]))), S(part(lift(i[0]), lift(i[1]))))
                return marr("sigchunk", (nr, C), v, arrays.F32), (None, None, None)
            def patterns(self, nm, data, r0, nr, indices):
                w, c, y, x = pick(E, nr), pick(E, C), pick(E, H), pick(E, W)
                E.oblige("%s: as many patterns as were read" % nm, _cmp("==", data.shape[0], E.prod_dim(nr, C)))
                E.oblige("%s: every pixel" % nm, _cmp("==", data.shape[1], P))
                E.oblige("%s: the patterns of the file" % nm, _cmp("==", data[E.lin_idx(w, C, c), E.lin_idx(y, W, x)], S(f.f(lift(add(r0, w)), lift(c), lift(y), lift(x)))))
                t = pick(E, indices.shape[0]); it = lift(indices[t])
                z = [z for z in E.nzs if z3.is_app(it) and it.decl().eq(z.f)]
                if len(z) != 1 or not it.arg(0).eq(t.t): raise Unsupported("the pixel list is not an enumeration of positions")
                z = z[0]; p = E.lin_idx(y, W, x)
                E.oblige("%s: the pixel list has all unmasked pixels" % nm, band(_cmp("==", indices.shape[0], z.n), _cmp("==", z.N, P)))
                E.oblige("%s: exactly the unmasked pixels" % nm, S(lift(core.tobool(z.member(p))) == lift(_cmp("!=", mask[y, x], 0))))
            def nlpar(self, data, lam_, sr_, dth, sigma, nrows, ncols, indices, saturation_protect=True, diff_offset=0):
                r0, nr = f.read
                E.oblige("kernel: number of rows of the data", _cmp("==", nrows, nr)); E.oblige("kernel: number of columns", _cmp("==", ncols, C))
                E.oblige("kernel: parameters", band(band(_cmp("==", lam_, lam), _cmp("==", sr_, sr)), band(_cmp("==", dth, nl.dthresh), _cmp("==", diff_offset, nl.diff_offset))))
                self.patterns("kernel", data, r0, nr, indices)
                last.update(r0=r0, nr=nr, sigma=sigma)
                E.oblige("kernel: one noise value per point", band(_cmp("==", sigma.shape[0], nr), _cmp("==", sigma.shape[1], C)))
                def v(i):
                    r, c = E.divmod_idx(i[0], C)
                    return S(NL(lift(E.lin_idx(add(r0, r), C, c)), lift(i[1])))
                return marr("dataout", (E.prod_dim(nr, C), P), v, arrays.F32)
        K = Kernels()
        nl.sigma_numba, nl.nlpar_nb = K.sigma, K.nlpar
        m.numba.get_num_threads = lambda: 1; m.numba.set_num_threads = lambda n: None
        done = []
        def check(loop, new, slab):
            c0, j, nc, cnt = slab
            if not last: raise Unsupported("what is written does not come from the kernel")
            lo, hi, st = loop.dom
            i = add(lo, mul(loop.kv, st)) if not (core.conc(st) and st == 1) else loop.kv
            E.oblige("whole rows are written", band(_cmp("==", c0, 0), _cmp("==", nc, C)))
            # chunk rows: the loop goes from row 0 to the last one in steps of what an iteration writes
            if not E.implied(_cmp("==", j, i)): raise Unsupported("the loop does not count scan rows")
            E.oblige("chunks start at the first row of the scan and end at the last", band(_cmp("==", lo, 0), _cmp("==", hi, Rw)))
            E.oblige("the rows of a chunk, up to the end of the scan, are written", _cmp("==", cnt, smin(st, sub(Rw, j))))
            g, c, y, x = E.fresh("g", "i"), pick(E, C), pick(E, H), pick(E, W)
            E.fact(z3.And(g.t >= lift(j), lift(_cmp("<", g, add(j, cnt)))))
            E.oblige("as many patterns as rows and columns", band(_cmp("==", new.shape[0], mul(cnt, C)), band(_cmp("==", new.shape[1], H), _cmp("==", new.shape[2], W))))
            q = E.lin_idx(sub(g, j), C, c)
            E.oblige("every pattern is written at its own position", _cmp("==", new[q, y, x], S(NL(lift(E.lin_idx(g, C, c)), lift(E.lin_idx(y, W, x))))))
            r0, nr = last["r0"], last["nr"]
            E.oblige("the row lies in the data of the kernel", band(_cmp(">=", g, r0), _cmp("<", g, add(r0, nr))))
            ws, we = window(g, Rw, sr)
            a, b = window(sub(g, r0), nr, sr)
            E.oblige("the search window of every row is complete", band(_cmp("==", add(a, r0), ws), _cmp("==", add(b, r0), we)))
            w = E.fresh("w", "i"); E.fact(z3.And(lift(_cmp(">=", w, ws)), lift(_cmp("<", w, we))))
            E.oblige("noise of every point of the window, as for the whole scan", _cmp("==", last["sigma"][sub(w, r0), c], s_of(w, c)))
            done.append(1)
        out.check = check
        if chunk == "given":
            cs = E.const("chunk", "i"); E.assume(cs >= 1)
        else:
            cs = 0
            m.np.round = lambda x, *a, **k: E.const("rounded", "i")     # any integer
        nl.calcnlpar(chunksize=cs, saturation_protect=sat, automask=False, verbose=0)
        E.oblige("every chunk is written, once", len(done) == 1)
    return th
def tiling(E, L):
    m = L.load("pyebsdindex.nlpar_cpu")
    nc, nr, w, h, cov, rov, co, ro = [E.const(x, "i") for x in ("ncol", "nrow", "pw", "ph", "col_overlap", "row_overlap", "col_offset", "row_offset")]
    for v in (nc, nr, w, h): E.assume(v >= 1)
    for v in (cov, rov): E.assume(v >= 0)
    tb = E.const("target_bytes"); E.assume(tb > 0)
    nl = obj(m, "NLPAR")
    def anyint(x, *q, **k):     # how many tiles there are, and how large, is left open
        v = E.fresh("steps", "i"); nn = _cmp(">=", x, 0)
        E.fact(v.t >= 0 if E.implied(nn) else z3.Implies(lift(nn), v.t >= 0)); return v
    m.np.round = m.np.ceil = anyint
    a, b, C, Rr = nl._calcchunks([w, h], nc, nr, target_bytes=tb, col_overlap=cov, row_overlap=rov, col_offset=co, row_offset=ro)
    brk = E.ghost.get("breaks", [])
    for nm, n, k, T, ov, off in (("columns", nc, a, C, cov, co), ("rows", nr, b, Rr, rov, ro)):
        ov = smin(ov, sub(n, 1))
        E.oblige("%s: one entry per tile" % nm, band(_cmp("==", T.shape[0], k), _cmp("==", T.shape[1], 2)))
        E.lemma("%s: at least one tile" % nm, _cmp(">=", k, 1))
        q = pick(E, k)
        first, last = _cmp("==", q, 0), _cmp("==", q, sub(k, 1))
        for id_, K, lo, hi, cond in brk:
            for z in (q, sub(q, 1), sub(k, 2)): E.fact(z3.Implies(z3.And(lift(z) >= lift(lo), lift(z) < K.t), z3.Not(lift(cond(z)))))
        s, e = sub(T[q, 0], off), sub(T[q, 1], off)
        E.oblige("%s: a tile lies inside the scan" % nm, band(_cmp(">=", s, 0), _cmp("<=", e, n)))
        E.oblige("%s: a tile is not empty" % nm, _cmp("<", s, e))
        o0, o1 = core.ite(first, s, add(s, ov)), core.ite(last, e, sub(e, ov))
        E.oblige("%s: the positions a tile owns lie in it" % nm, band(_cmp(">=", o0, s), _cmp("<=", o1, e)))
        E.oblige("%s: the tile has the full margin around what it owns" % nm, band(_cmp("<=", s, smax(0, sub(o0, ov))), _cmp(">=", e, smin(n, add(o1, ov)))))
        E.oblige("%s: the first tile starts with the scan" % nm, bor(core.bnot(first), _cmp("==", o0, 0)))
        E.oblige("%s: the last tile ends with the scan" % nm, bor(core.bnot(last), _cmp("==", o1, n)))
        q2 = add(q, 1); s2 = sub(T[core.ite(last, q, q2), 0], off)
        E.oblige("%s: no position is left out between two tiles" % nm, bor(last, _cmp("<=", add(s2, ov), o1)))
def proofs(tier):
    f = ["nlpar_cpu.NLPAR.calcnlpar"]
    return [Proof("_calcchunks", ["nlpar_cpu.NLPAR._calcchunks"], tiling)] + [Proof("calcnlpar, noise %s, chunk size %s" % (n, c), f, driver(n, c)) for n, c in (("given", "given"), ("number", "given"), ("estimated", "given"), ("given", "chosen"))]
