from lib import *
from pyebsdindex import nlpar_cpu, ebsd_pattern
import io, contextlib, types
class Mem:
    """pattern file held in memory; same interface as the pattern files"""
    filetype = "UP"; filepath = "mem"
    def __init__(self, nr, nc, H, W, dt=np.float32, data=None):
        self.nRows, self.nCols, self.patternH, self.patternW = nr, nc, H, W
        self.nPatterns = nr * nc; self.filedatatype = dt; self.version = 3
        self.data = np.zeros((nr * nc, H, W), dt) if data is None else data
        self.written = np.zeros(nr * nc, int); self.reads = []
    def read_header(self, *a, **k): return 0
    def read_data(self, path=None, convertToFloat=False, patStartCount=[0, -1], returnArrayOnly=False):
        (c0, r0), (nc, nr) = [[int(v) for v in q] for q in patStartCount]
        assert c0 >= 0 and r0 >= 0 and nc >= 1 and nr >= 1 and c0 + nc <= self.nCols and r0 + nr <= self.nRows, "read outside the scan: %r" % (patStartCount,)
        self.reads.append((c0, r0, nc, nr))
        a = self.data.reshape(self.nRows, self.nCols, self.patternH, self.patternW)[r0:r0 + nr, c0:c0 + nc].reshape(-1, self.patternH, self.patternW)
        return (a.astype(np.float32) if convertToFloat else a.copy()), np.zeros((nc * nr, 2), np.float32)
    def write_data(self, newpatterns=None, patStartCount=[0, -1], writeHead=False, flt2int='clip', scalevalue=0.98, maxScale=None):
        (c0, r0), (nc, nr) = [[int(v) for v in q] for q in patStartCount]
        assert c0 >= 0 and r0 >= 0 and c0 + nc <= self.nCols and r0 + nr <= self.nRows and newpatterns.shape[0] == nr * nc, "write outside the scan: %r %r" % (patStartCount, newpatterns.shape)
        idx = (np.arange(r0, r0 + nr)[:, None] * self.nCols + np.arange(c0, c0 + nc)[None]).ravel()
        self.data[idx] = newpatterns; self.written[idx] += 1
class N(nlpar_cpu.NLPAR):
    def bind(self, fin): self.fin = fin; self.nrows, self.ncols = fin.nRows, fin.nCols; return self
    def getinfileobj(self): return self.fin
    def setoutfile(self, *a, **k): pass
    def getoutfileobj(self):
        self.fout = Mem(self.fin.nRows, self.fin.nCols, self.fin.patternH, self.fin.patternW); return self.fout
def quiet(f, *a, **k):
    with contextlib.redirect_stdout(io.StringIO()): return f(*a, **k)
def run(fin, mask=None, sigma=None, chunk=0, **k):
    n = N().bind(fin); n.mask = mask; n.sigma = sigma
    quiet(n.calcnlpar, chunksize=chunk, verbose=0, automask=False, **k)
    return n.fout, n
def window(k, n, sr):
    lo = max(0, min(k - sr, n - (2 * sr + 1))); return lo, min(n, lo + 2 * sr + 1)
def inwin(nr, nc, sr):
    m = np.zeros((nr * nc, nr * nc), bool)
    for r in range(nr):
        a, b = window(r, nr, sr)
        for c in range(nc):
            d, e = window(c, nc, sr)
            q = np.zeros((nr, nc), bool); q[a:b, d:e] = True
            m[r * nc + c] = q.ravel()
    return m
SCANS = [(1, 1), (1, 5), (4, 1), (2, 2), (3, 7), (7, 3), (6, 6), (9, 5), (5, 9), (2, 8)]
