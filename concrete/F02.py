from lib import *
from pyebsdindex import ebsd_pattern as ep
import F01 as f1
import tempfile, os, warnings
warnings.simplefilter("ignore")
S = Suite("F02", "case = scan shape x run/slab request (inside, reaching past the end, up to the end, empty) on a recording file and on real files; positions touched, order, coordinates and the metadata of the returned object")
rng = S.rng
class Rec(ep.EBSDPatternFile):
    def __init__(self, nr, nc, H, W):
        ep.EBSDPatternFile.__init__(self, None); self.filepath = __file__
        self.version, self.nRows, self.nCols, self.nPatterns, self.patternH, self.patternW = 1, nr, nc, nr * nc, H, W
        self.filedatatype = np.uint16
        self.data = np.arange(nr * nc * H * W, dtype=np.uint16).reshape(nr * nc, H, W); self.rd = []; self.wr = []
    def pat_reader(self, patStart=0, nPatToRead=1):
        a, n = int(patStart), int(nPatToRead)
        assert n == 0 or 0 <= a and n > 0 and a + n <= self.nPatterns, "reader asked for %d patterns at %d of %d" % (n, a, self.nPatterns)
        self.rd.append((a, n)); i = np.arange(a, a + n)
        return self.data[i].copy(), np.stack([i % int(self.nCols), i // int(self.nCols)], axis=1).astype(np.float32)
    def pat_writer(self, p, patStart, nPatToWrite, typewrite):
        a, n = int(patStart), int(nPatToWrite)
        assert n == 0 or 0 <= a and n > 0 and a + n <= self.nPatterns, "writer asked for %d patterns at %d of %d" % (n, a, self.nPatterns)
        self.wr.append((a, n)); self.data[a:a + n] = p[:n]
def req(nr, nc, n):
    """a request and the positions it addresses"""
    if rng.random() < .45:
        a = int(rng.integers(0, n)); k = [int(rng.integers(1, n - a + 1)), -1, n - a + int(rng.integers(1, 5)), int(-rng.integers(1, 4))][int(rng.integers(4))]
        return [a, k], np.arange(a, n if k < 0 else min(n, a + k))
    c0, r0 = int(rng.integers(nc)), int(rng.integers(nr))
    def cnt(lo, m): return [int(rng.integers(1, m - lo + 1)), -1, m - lo + int(rng.integers(1, 5)), int(-rng.integers(1, 4))][int(rng.integers(4))]
    cc, rr = cnt(c0, nc), cnt(r0, nr)
    c1, r1 = (nc if cc < 0 else min(nc, c0 + cc)), (nr if rr < 0 else min(nr, r0 + rr))
    return [[c0, r0], [cc, rr]], (np.arange(r0, r1)[:, None] * nc + np.arange(c0, c1)).ravel()
def recorded(S):
    for t in range(400 * S.scale):
        nr, nc = [(1, 1), (1, 6), (5, 1), (3, 4), (4, 3), (2, 7)][int(rng.integers(6))]; n = nr * nc; H, W = 2, 3
        f = Rec(nr, nc, H, W); u8 = rng.random() < .5
        if u8: f.nRows, f.nCols = np.uint64(nr), np.uint64(nc)
        psc, idx = req(nr, nc, n); fl = bool(rng.integers(2)); inp = dict(scan=(nr, nc), request=psc, convertToFloat=fl); S.cur = inp
        psc_in = np.array(psc) if rng.random() < .5 else psc; keep = np.array(psc)
        p, xy = f.read_data(patStartCount=psc_in, convertToFloat=fl, returnArrayOnly=True)
        S.check(p.shape == (len(idx), H, W) and np.array_equal(p, f.data[idx]), "recorded:read", inp, lambda: (p[:, 0, 0] // (H * W), idx))
        S.check(p.dtype == (np.float32 if fl else np.uint16), "recorded:type", inp)
        S.check(np.array_equal(xy, np.stack([idx % nc, idx // nc], axis=1)), "recorded:coordinates", inp, xy)
        got = [i for a, k in f.rd for i in range(a, a + k)]
        S.check(np.array_equal(got, idx), "recorded:touched", inp, got)
        S.check(np.array_equal(np.array(psc_in), keep), "recorded:request-modified", inp)
        o = f.read_data(patStartCount=psc)
        S.check(np.array_equal(o.patterns, f.data[idx]) and np.array_equal(o.xyLocations, xy) and int(np.prod(o.nPatterns)) == len(idx) and np.array_equal(o.patStart, psc[0]), "recorded:object", inp, lambda: (o.nPatterns, o.patStart))
        # writing: the request is clipped to what is supplied (runs) or covers the slab (slabs)
        f.rd = []; old = f.data.copy(); new = rng.integers(0, 60000, (len(idx), H, W)).astype(np.uint16); n0 = new.copy()
        f.write_data(newpatterns=new, patStartCount=psc)
        exp = old.copy(); exp[idx] = new
        S.check(np.array_equal(f.data, exp), "recorded:write", inp, lambda: np.argwhere((f.data != exp).any(axis=(1, 2))).ravel())
        S.check(np.array_equal([i for a, k in f.wr for i in range(a, a + k)], idx), "recorded:written", inp, f.wr)
        S.check(np.array_equal(new, n0), "recorded:written-modified", inp)
    for t in range(20):
        nr, nc = 3, 4; f = Rec(nr, nc, 2, 3)
        a = 12 + t % 3; S.cur = [a, 2]
        r = f.read_data(patStartCount=[a, 2], returnArrayOnly=True)[0]; S.check(r.shape == (0, 2, 3), "recorded:past-the-end", [a, 2], r.shape)
        q = [[4 + t % 2, 1], [2, 2]] if t % 4 < 2 else [[1, 3 + t % 2], [2, 2]]; S.cur = q
        r = f.read_data(patStartCount=q, returnArrayOnly=True)[0]; S.check(r.shape == (0, 2, 3), "recorded:past-the-end", q, r.shape)
def coords(S):
    MK = [("UP", lambda d, *s: f1.up(d, 3, np.uint8, *s)), ("EBSP", lambda d, *s: f1.ebsp(d, 2, np.uint8, *s)), ("EBSP v1", lambda d, *s: f1.ebsp(d, 1, np.uint8, *s)), ("EBSP v4", lambda d, *s: f1.ebsp(d, 4, np.uint8, *s)), ("TFPAT", lambda d, *s: f1.tf(d, 16, *s))] + [("H5" + v, lambda d, *s, v=v: f1.h5(d, v, np.uint8, *s)) for v in ("EDAX", "kikuchipy", "BRUKER", "OXFORD")]
    for name, mkr in MK:
        for nr, nc in [(3, 4), (4, 3), (1, 5), (5, 1)][: None if not S.quick else 3]:
            with tempfile.TemporaryDirectory() as d:
                u, mk, _ = mkr(d, nr, nc, 3, 2); n = nr * nc
                S.cur = (name, nr, nc)
                if not name.startswith("H5"): u.write_header(writeBlank=True)
                ident = np.zeros((n, 3, 2), np.uint8); ident[:, 0, 0] = np.arange(n)
                if name == "TFPAT": ident = ident.astype(np.uint16)
                w = mk(); w.read_header(); (w.set_scan_rc((nr, nc)) if int(w.nCols) != nc or int(w.nRows) != nr else None)
                w.write_data(newpatterns=ident, patStartCount=[0, n])
                o = mk(); o.read_header(); (o.set_scan_rc((nr, nc)) if int(o.nCols) != nc or int(o.nRows) != nr else None)
                off0 = None
                sx, sy = (1.0, 1.0) if name == "TFPAT" else (0.25, 0.5)
                for q in range(14 * S.scale):
                    psc, idx = req(nr, nc, n); inp = (name, (nr, nc), psc); S.cur = inp
                    p, xy = o.read_data(patStartCount=psc, returnArrayOnly=True)
                    S.check(np.array_equal(p[:, 0, 0], idx), "coords %s:positions" % name, inp, p[:, 0, 0])
                    c = np.stack([(idx % nc) * sx, (idx // nc) * sy], axis=1)
                    if not S.check(xy.shape == c.shape, "coords %s:coordinates" % name, inp, lambda: xy): continue
                    off = xy - c                       # coordinates are relative to one common origin of the scan
                    origin = 0 if name == "H5OXFORD" else np.array([-nc * .5 * sx, -nr * .5 * sy])
                    if name.startswith("EBSP"): origin = off0 = off[0].copy() if off0 is None else off0
                    S.check(np.allclose(off, origin, atol=1e-5), "coords %s:coordinates" % name, inp, lambda: xy)
def wide(S):
    """a scan of thousands of columns (or rows): coordinates stay exact"""
    for name, mkr in [("UP", lambda d, *s: f1.up(d, 3, np.uint16, *s)), ("EBSP", lambda d, *s: f1.ebsp(d, 2, np.uint16, *s)), ("TFPAT", lambda d, *s: f1.tf(d, 16, *s))] + [("H5" + v, lambda d, *s, v=v: f1.h5(d, v, np.uint16, *s)) for v in ("EDAX", "kikuchipy", "BRUKER", "OXFORD")]:
        for nr, nc in [(2, 4099), (4099, 2)]:
            with tempfile.TemporaryDirectory() as d:
                u, mk, _ = mkr(d, nr, nc, 2, 1); n = nr * nc; S.cur = (name, nr, nc)
                if not name.startswith("H5"): u.write_header(writeBlank=True)
                o = mk(); o.read_header(); (o.set_scan_rc((nr, nc)) if int(o.nCols) != nc or int(o.nRows) != nr else None)
                ident = np.zeros((n, 2, 1), np.uint16); ident[:, 0, 0] = np.arange(n); o.write_data(newpatterns=ident, patStartCount=[0, n])
                sx, sy = (1.0, 1.0) if name == "TFPAT" else (0.25, 0.5); off = None
                for psc, idx in (([0, n], np.arange(n)), ([n - 40, -1], np.arange(n - 40, n)), ([[max(nc - 30, 0), 0], [-1, 1]], np.arange(max(nc - 30, 0), nc)), ([[0, max(nr - 30, 0)], [1, -1]], np.arange(max(nr - 30, 0), nr) * nc)):
                    inp = (name, (nr, nc), psc); p, xy = o.read_data(patStartCount=psc, returnArrayOnly=True)
                    S.check(np.array_equal(p[:, 0, 0], idx), "wide %s:positions" % name, inp)
                    c = np.stack([(idx % nc) * sx, (idx // nc) * sy], axis=1); off = (xy - c)[0] if off is None else off
                    S.check(xy.shape == c.shape and np.abs(xy - c - off).max() < 1e-2 * min(sx, sy), "wide %s:coordinates" % name, inp, lambda: xy)
if __name__ == "__main__": S.run(recorded, coords, wide)
