from pyvc import core, arrays
from pyvc.core import _cmp, band, bor, add, mul, sub
from pyvc.spec import *
from contracts.files import *
EXPLANATION = "EBSDPatternFile.read_data and write_data run on a scan with symbolic columns, rows and pattern shape and arbitrary start, count, column and row selections; the file-format reader / writer is represented by its contract, under which every run handed to it lies inside the scan, and the arrays it is handed or returns are shown to be exactly the selected patterns in row-major order with the positions of the same scan points."
ASSUMPTIONS = []
def read_run(E, L, pack=False):
    ep = L.load("pyebsdindex.ebsd_pattern")
    o, C, R, H, W, N = scan(E, ep)
    rd = Reader(E, N, H, W); o.pat_reader = rd
    s, c = E.const("start", "i"), E.const("count", "i")
    E.assume(band(s >= 0, _cmp("<", s, N)))
    r = o.read_data(patStartCount=[s, c], returnArrayOnly=not pack, convertToFloat=pack)
    p, xy = (r.patterns, r.xyLocations) if pack else r
    rest = sub(N, s)
    want = core.ite(_cmp("<", c, 0), rest, core.ite(_cmp("==", c, 0), 1, core.smin(c, rest)))
    E.oblige("number of patterns read", _cmp("==", p.shape[0], want))
    E.oblige("number of positions", _cmp("==", xy.shape[0], want))
    q, y, x = pick(E, want), pick(E, H), pick(E, W)
    E.oblige("pattern q of the result is pattern start+q of the scan", _cmp("==", p[q, y, x], rd.pix(add(s, q), y, x)))
    for k in range(2): E.oblige("with its own position", _cmp("==", xy[q, k], rd.xy(add(s, q), k)))
    if pack:
        E.oblige("count recorded", _cmp("==", r.nPatterns.item(), want)); E.oblige("start recorded", _cmp("==", r.patStart.item(), s))
def slab_sel(E, C, R):
    cs, cn, rs, rn = [E.const(x, "i") for x in ("colstart", "ncol", "rowstart", "nrow")]
    E.assume(band(band(cs >= 0, _cmp("<", cs, C)), band(rs >= 0, _cmp("<", rs, R))))
    E.assume(cn != 0)
    wc = core.ite(_cmp("<", cn, 0), sub(C, cs), core.smin(cn, sub(C, cs)))
    wr = core.ite(_cmp("<", rn, 0), sub(R, rs), core.smin(rn, sub(R, rs)))
    return cs, cn, rs, rn, wc, wr
def inside(E, C, R, cs, rs, wc, wr):
    """row i of the slab lies in the scan, and patterns of the slab are numbered row by row"""
    i = E.row(0, wr)
    E.lemma("a slab row lies inside its scan row", _cmp("<=", add(cs, wc), C))
    E.lemma("the slab row lies inside the scan", _cmp("<=", add(rs, add(i, 1)), R))
    E.lemma("last pattern of the slab row", _cmp("<=", add(mul(add(rs, i), C), C), mul(R, C)))
    E.lemma("rows of the slab", _cmp("<=", add(mul(i, wc), wc), mul(wr, wc)))
    E.lemma("rows are not negative", band(_cmp(">=", mul(add(rs, i), C), 0), _cmp(">=", mul(i, wc), 0)))
    return i
def read_slab(E, L, pack=False):
    ep = L.load("pyebsdindex.ebsd_pattern")
    o, C, R, H, W, N = scan(E, ep)
    rd = Reader(E, N, H, W); o.pat_reader = rd
    cs, cn, rs, rn, wc, wr = slab_sel(E, C, R)
    # the cases of the two clippings
    for n_, s_, D in ((cn, cs, C), (rn, rs, R)):
        if not E.decide(_cmp("<", n_, 0)): E.decide(_cmp(">", add(s_, n_), D))
    E.assume(_cmp(">=", wr, 1))
    nr_ = sub(R, rs) if E.implied(_cmp("==", wr, sub(R, rs))) else rn
    nc_ = sub(C, cs) if E.implied(_cmp("==", wc, sub(C, cs))) else cn
    i = inside(E, C, R, cs, rs, nc_, nr_)
    r = o.read_data(patStartCount=[[cs, rs], [cn, rn]], returnArrayOnly=not pack)
    p, xy = (r.patterns, r.xyLocations) if pack else r
    E.oblige("number of patterns read", _cmp("==", p.shape[0], mul(wr, wc)))
    j, y, x = pick(E, nc_), pick(E, H), pick(E, W)
    at = add(mul(i, nc_), j)
    E.oblige("pattern in the result's range", band(_cmp(">=", at, 0), _cmp("<", at, mul(nr_, nc_))))
    pos = add(add(mul(add(rs, i), C), cs), j)
    E.oblige("row-major: pattern (i,j) of the slab is scan pattern (row+i, col+j)", _cmp("==", p[at, y, x], rd.pix(pos, y, x)))
    for k in range(2): E.oblige("with its own position", _cmp("==", xy[at, k], rd.xy(pos, k)))
class Writer:
    """contract of pat_writer: writes the first n of the given patterns to the run starting at start, which lies inside the scan"""
    def __init__(self, E, N): self.E, self.N, self.calls, self.heads = E, N, [], 0
    def __call__(self, pats, start, n, tp):
        E = self.E
        E.oblige("the run written starts inside the scan", _cmp(">=", start, 0))
        E.oblige("the run written ends inside the scan", band(_cmp(">=", n, 0), _cmp("<=", add(start, n), self.N)))
        E.oblige("as many patterns as are written", _cmp(">=", pats.shape[0], n))
        self.calls.append((pats, start, n, tp))
def new_patterns(E, n, H, W):
    f = z3.Function("NEW", z3.IntSort(), z3.IntSort(), z3.IntSort(), z3.IntSort())
    def px(ix):
        v = core.S(f(*[lift(q) for q in ix])); E.fact(z3.And(v.t >= 0, v.t < 256)); return v
    return marr("new", (n, H, W), px, arrays.DTS["uint8"])
def writer(E, ep, o, N):
    w = Writer(E, N); o.pat_writer = w
    def wh(writeBlank=False, bitdepth=None): w.heads += 1
    o.write_header = wh
    return w
def write_run(E, L, single=False):
    ep = L.load("pyebsdindex.ebsd_pattern")
    o, C, R, H, W, N = scan(E, ep); w = writer(E, ep, o, N)
    m = 1 if single else E.const("m", "i"); s, c = E.const("start", "i"), E.const("count", "i")
    if not single: E.assume(m >= 1)
    E.assume(band(band(s >= 0, _cmp("<", s, N)), _cmp("<=", c, m)))
    new = new_patterns(E, m, H, W)
    arg = new if not single else marr("new1", (H, W), lambda ix: new[0, ix[0], ix[1]], arrays.DTS["uint8"])
    o.write_data(newpatterns=arg, patStartCount=[s, c])
    E.oblige("one run is written", len(w.calls) == 1)
    pats, start, n, tp = w.calls[0]
    rest = sub(N, s)
    want = core.smin(core.ite(_cmp("<", c, 0), m, core.ite(_cmp("==", c, 0), 1, c)), rest)
    E.oblige("position", _cmp("==", start, s)); E.oblige("number", _cmp("==", n, want)); E.oblige("file's data type", tp.name == "uint8" and pats.dtype.name == "uint8")
    q, y, x = pick(E, want), pick(E, H), pick(E, W)
    E.oblige("pattern q goes to position start+q", _cmp("==", pats[q, y, x], new[q, y, x]))
    E.oblige("the patterns given are not modified", unmodified(arg))
def write_slab(E, L):
    ep = L.load("pyebsdindex.ebsd_pattern")
    o, C, R, H, W, N = scan(E, ep); w = writer(E, ep, o, N)
    cs, cn, rs, rn, wc, wr = slab_sel(E, C, R)
    for n_, s_, D in ((cn, cs, C), (rn, rs, R)):
        if not E.decide(_cmp("<", n_, 0)): E.decide(_cmp(">", add(s_, n_), D))
    E.assume(_cmp(">=", wr, 1))
    nr_ = sub(R, rs) if E.implied(_cmp("==", wr, sub(R, rs))) else rn
    nc_ = sub(C, cs) if E.implied(_cmp("==", wc, sub(C, cs))) else cn
    i = inside(E, C, R, cs, rs, nc_, nr_)
    new = new_patterns(E, E.prod_dim(nr_, nc_), H, W)
    o.write_data(newpatterns=new, patStartCount=[[cs, rs], [cn, rn]])
    if len(w.calls) > 1 or not any(v[0] is i for v in E.ghost.get("iters", {}).values()): raise Unsupported("the slab is not written by one loop over its rows")
    E.oblige("every slab row is written", len(w.calls) == 1)
    pats, start, n, tp = w.calls[0]
    j, y, x = pick(E, nc_), pick(E, H), pick(E, W)
    E.oblige("row i of the slab starts at its scan position", _cmp("==", start, add(mul(add(rs, i), C), cs)))
    E.oblige("row i of the slab has all its columns", _cmp("==", n, nc_))
    E.oblige("pattern (i,j) of the slab goes to its scan position", _cmp("==", pats[j, y, x], new[add(mul(i, nc_), j), y, x]))
    E.oblige("the patterns given are not modified", unmodified(new))
def proofs(tier):
    f = ["ebsd_pattern.EBSDPatternFile.read_data"]
    g = ["ebsd_pattern.EBSDPatternFile.write_data"]
    return [Proof("read_data run", f, read_run), Proof("read_data run, packaged", f, lambda E, L: read_run(E, L, True)),
            Proof("read_data slab", f, read_slab), Proof("read_data slab, packaged", f, lambda E, L: read_slab(E, L, True)),
            Proof("write_data run", g, write_run), Proof("write_data single pattern", g, lambda E, L: write_run(E, L, True)), Proof("write_data slab", g, write_slab)]
