"""Exported result files"""
import re, types
from pyvc import core, arrays, npshim
from pyvc.core import _cmp, band, bor, bnot, add, sub, mul, ite, S
from pyvc.spec import *
EXPLANATION = "writeang is run on a result table with any number of points, for one to three phases and every way the scan size can be given; every value printed is followed from the table into the text, so the line of an arbitrary point is read back column by column and the header line by line. writeoh5 is run the same way with the datasets it creates recorded."
ASSUMPTIONS = ["contract of qu2eu: one row of three angles per quaternion, a function of that quaternion (R01)", "a printed value occupies at most six characters where the layout needs it: a fit below 100 degrees", "printing with d decimals keeps the value up to rounding", "contract of h5py: create_dataset stores the array given under its path; files open and close without error"]
Z, R = z3.IntSort(), z3.RealSort()
EU = z3.Function("EULER", R, R, R, R, Z, R)
class TextFile:
    """contract of a text file opened for writing: what is written is appended in order"""
    __vc_loopsafe__ = True
    def __init__(self, E): self.E, self.parts = E, []
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): pass
    def writelines(self, it):
        if isinstance(it, (list, tuple)):
            for t in it: self.write(t)
        else: raise Unsupported("writelines")
    def write(self, s):
        if not isinstance(s, str): raise Unsupported("text written")
        Ls = [l for l in self.E.loops if l.sym and l.active]
        if not Ls: self.parts.append((None, s)); return
        if len(Ls) > 1 or Ls[0].mode != "map": raise Unsupported("text written in nested or accumulating loops")
        self.parts.append((Ls[0], s))
    def split(self):
        """text before the rows, the loop that writes the rows, the text of its arbitrary iteration"""
        i = 0; head = ""; rows = ""; loop = None
        for l, s in self.parts:
            if l is None:
                if loop is not None: raise Unsupported("text after the rows")
                head += s
            else:
                if loop is not None and loop is not l: raise Unsupported("several loops write text")
                loop = l; rows += s
        return head, loop, rows
def tok(E, f):
    """value and format of a printed field, or the number it spells"""
    if len(f) == 6 and len(set(f)) == 1 and 0xE000 <= ord(f[0]) < 0xE000 + len(E.texts): return E.texts[ord(f[0]) - 0xE000]
    if any(ord(c) >= 0xE000 for c in f): return None
    try: return (core.fl(float(f)) if not re.fullmatch(r"[-+]?\d+", f) else int(f)), None
    except ValueError: return None
def printed(E, nm, f, want, dec=0, kind="r"):
    v = tok(E, f)
    E.oblige("%s: one value in its column" % nm, v is not None)
    if v is None: return
    E.oblige("%s" % nm, _cmp("==", v[0], want))
    if v[1] is not None and kind == "r":
        d = re.fullmatch(r"[ +\-<>=0-9]*?(?:\.(\d+))?([fg]?)", v[1])
        if d is None: raise Unsupported("format %r" % v[1])
        if d.group(1) is not None: E.oblige("%s: enough decimals" % nm, int(d.group(1)) >= dec)
def table(E, nph, n):
    dt = arrays.StructDT([("quat", "float64", (4,)), ("iq", "float32"), ("pq", "float32"), ("cm", "float32"), ("phase", "int32"), ("fit", "float32"), ("nmatch", "int32")])
    d = npshim.StructArr((nph + 1, n), dt)
    fn = {f: z3.Function("T_" + f, *([Z] * (3 if f == "quat" else 2) + [Z if dt_.kind == "i" else R])) for f, dt_, s in dt.fields}
    for f, t, s in dt.fields:
        def get(i, f=f):
            v = S(fn[f](*[lift(x) for x in i]))
            if f == "phase": E.fact(z3.And(v.t >= -1, v.t < nph))
            return v
        d.f[f] = marr(f, (nph + 1, n) + s, get, t)
    return d
class Rot:
    """contract of rotlib.qu2eu (R01): the three Euler angles of each quaternion"""
    def qu2eu(self, q):
        E = core.E
        if len(q.shape) == 1: raise Unsupported("single quaternion")
        E.oblige("all four components are handed over", _cmp("==", q.shape[1], 4))
        return marr("eu", (q.shape[0], 3), lambda i: S(EU(*[lift(core.fl(q[i[0], c])) for c in range(4)] + [lift(i[1])])))
class P:
    def __init__(self, *a): pass
    def expanduser(self): return self
    def resolve(self): return self
def phaselib(E, nph):
    out = []
    for p in range(nph):
        fam = [[1 + p, 1, 1], [2, 0, 0], [2, 2, 0]][:2 + p % 2]
        hexa = p == 1
        if hexa: fam = [[1, 0, -1, 0], [0, 0, 0, 2], [1, 0, -1, 1]]
        out.append(types.SimpleNamespace(phasename="Phase-%c" % (65 + p), lauecode=62 if hexa else 43, spacegroup=225 if not hexa else 194, pointgroupid=1,
                   latticeparameter=arrays.asarray([E.const("lat%d_%d" % (p, i)) for i in range(6)]), npolefamilies=len(fam), polefamilies=arrays.asarray(fam)))
    return out
def h3(ph):
    a = ph.polefamilies
    return [[a[i, c] for c in ((0, 1, 3) if a.shape[1] == 4 else (0, 1, 2))] for i in range(ph.npolefamilies)]
SIZES = ("none", "columns", "both", "file", "file without size")
def setup(E, L, nph, size):
    m = L.load("pyebsdindex.ebsdfile")
    m.rotlib = Rot(); m.Path = P
    n = E.const("npoints", "i"); E.assume(n >= 1)
    d = table(E, nph, n)
    xs, ys = E.const("xstep"), E.const("ystep"); E.assume(xs > 0); E.assume(ys > 0)
    k = dict(xstep=xs, ystep=ys)
    fid = None; C, Rw = 1, n
    if size in ("columns", "both"): C = E.const("ncols", "i"); E.assume(C >= 1); k["ncols"] = C; Rw = None
    if size == "both": Rw = E.const("nrows", "i"); E.assume(Rw >= 1); k["nrows"] = Rw
    if size.startswith("file"):
        fx, fy = E.const("fxstep"), E.const("fystep")
        fid = types.SimpleNamespace(xStep=fx, yStep=fy, nCols=None, nRows=None)
        if size == "file": C, Rw = E.const("ncols", "i"), E.const("nrows", "i"); E.assume(C >= 1); E.assume(Rw >= 1); fid.nCols, fid.nRows = C, Rw
        if E.decide(fx > Fraction(1, 10 ** 6)): xs, ys = fx, fy
    if Rw is None:
        q, r = E.divmod_idx(add(n, sub(C, 1)), C); Rw = q
    ix = types.SimpleNamespace(PC=arrays.asarray([E.const("pc%d" % i) for i in range(3)]), sampleTilt=E.const("tilt"), camElev=E.const("elev"), phaseLib=phaselib(E, nph), fID=fid)
    return m, n, d, xs, ys, k, C, Rw, ix
def record(E, d, i):
    """the specification of point i: (indexed?, values)"""
    b = lambda f: d.f[f][-1, i]
    q = [d.f["quat"][-1, i, c] for c in range(4)]
    return b, [S(EU(*[lift(x) for x in q] + [z3.IntVal(c)])) for c in range(3)]
def kept(E, d):
    for f in d.f: E.oblige("the results in memory are not altered (%s)" % f, unmodified(d.f[f]))
def ang(nph, size):
    def th(E, L):
        m, n, d, xs, ys, k, C, Rw, ix = setup(E, L, nph, size)
        E.texts = []
        f = TextFile(E); m.__dict__["open"] = lambda *a, **kw: f
        m.writeang("/scratch/a.ang", ix, d, **k)
        head, loop, rows = f.split()
        if loop is None:
            if any(not l.startswith("#") and l.strip() for l in re.split("[\r\n]+", head)): raise Unsupported("rows not written by one loop over the points")
            E.oblige("the file has a line for every point", False); return
        lo, hi, st = loop.dom
        E.oblige("one line per point, in scan order", band(band(_cmp("==", lo, 0), _cmp("==", hi, n)), _cmp("==", st, 1)))
        E.oblige("the line of a point ends with a line break, and only there", rows.endswith("\n") and rows.count("\n") == 1)
        E.oblige("the line of a point is not a comment", not rows.lstrip().startswith("#"))
        i = loop.kv
        col = rows.split()
        E.oblige("ten columns", len(col) == 10)
        if len(col) != 10: return
        b, eu = record(E, d, i)
        for c in range(3): printed(E, "Euler angle %d of the point's best orientation" % (c + 1), col[c], eu[c], 4)
        q, r = E.divmod_idx(i, C)
        printed(E, "position: column times step", col[3], mul(r, xs), 4); printed(E, "position: row times step", col[4], mul(q, ys), 4)
        printed(E, "pattern quality", col[5], b("pq"), 1)
        ok = _cmp(">=", b("phase"), 0)
        sh = 0 if nph == 1 else 1
        printed(E, "confidence, -1 when not indexed", col[6], ite(ok, b("cm"), -1), 2)
        printed(E, "phase, 0 when not indexed", col[7], ite(ok, add(b("phase"), sh), 0), kind="i")
        v = tok(E, col[9])
        E.oblige("fit: one value in its column", v is not None)
        if v is not None: E.oblige("fit of an indexed point", bor(bnot(ok), _cmp("==", v[0], b("fit"))))
        # header
        H = [l.strip() for l in re.split("[\r\n]+", head) if l.strip()]
        E.oblige("header lines are comments", all(l.startswith("#") for l in H))
        at = [j for j, l in enumerate(H) if re.match(r"# Phase\s", l)]
        E.oblige("one header section per phase", len(at) == nph)
        ids = [H[j].split()[2] for j in at]
        E.oblige("phases are numbered one to the number of phases", sorted(ids) == [str(j + 1) for j in range(nph)])
        for p, ph in enumerate(ix.phaseLib):
            if ids.count(str(p + 1)) != 1: continue
            j = at[ids.index(str(p + 1))]
            e = min([a for a in at if a > j] + [len(H)])
            sec = H[j:e]
            one = lambda key: [l for l in sec if l[1:].split()[:1] == [key]]
            E.oblige("phase %d: header carries its name" % (p + 1), [l.split("\t")[-1].strip() for l in one("MaterialName")] == [ph.phasename])
            E.oblige("phase %d: header carries its symmetry" % (p + 1), [l.split()[2] for l in one("Symmetry")] == [str(ph.lauecode)])
            lat = [l.split()[2:] for l in one("LatticeConstants")]
            E.oblige("phase %d: six lattice constants" % (p + 1), len(lat) == 1 and len(lat[0]) == 6)
            if len(lat) == 1 and len(lat[0]) == 6:
                for c in range(6): printed(E, "phase %d: lattice constant %d (lengths in Angstrom)" % (p + 1, c + 1), lat[0][c], mul(ph.latticeparameter[c], 10 if c < 3 else 1), 2)
            fam = [l.split()[2:5] for l in one("hklFamilies")]
            E.oblige("phase %d: its reflector families" % (p + 1), fam == [[str(x) for x in r_] for r_ in h3(ph)])
            E.oblige("phase %d: number of families" % (p + 1), [l.split()[2] for l in one("NumberFamilies")] == [str(ph.npolefamilies)])
        def grid(key):
            v = [l.split()[2] for l in H if l.split()[1:2] == [key] and len(l.split()) > 2]
            E.oblige("%s once in the header" % key, len(v) == 1)
            return v[0] if len(v) == 1 else "?"
        for key, w in (("XSTEP:", xs), ("YSTEP:", ys), ("NCOLS_ODD:", C), ("NCOLS_EVEN:", C), ("NROWS:", Rw)): printed(E, key[:-1], grid(key), w)
        kept(E, d)
    return th
class H5:
    """contract of an HDF5 file: datasets by path"""
    def __init__(self): self.d, self.closed = {}, False
    def File(self, *a, **k): return self
    def __enter__(self): return self
    def __exit__(self, *a): return False
    def close(self): self.closed = True
    def create_dataset(self, path, shape=None, dtype=None, data=None, **k):
        if data is None or shape is not None or dtype is not None or self.closed: raise Unsupported("dataset without data")
        path = "/".join(x for x in path.split("/") if x)
        core.E.oblige("dataset %s is created once" % path, path not in self.d)
        self.d[path] = data
    def __setitem__(self, path, data): self.create_dataset(path, data=data)
class CharArray:
    """numpy.chararray: fixed-width text"""
    def __init__(self, n, itemsize=1): self.n, self.w, self.v = n, itemsize, None
    def __setitem__(self, k, v): self.v = v if len(v) <= self.w else v[:self.w]
def flat(a):
    if isinstance(a, CharArray): return a.v.strip("\x00 ")
    if isinstance(a, str): return a.strip()
    if isinstance(a, arrays.ArrBase): return a.item() if not a.shape else a[0]
    if isinstance(a, (list, tuple)) and len(a) == 1: return a[0]
    return a
def oh5(nph, size, version):
    def th(E, L):
        m, n, d, xs, ys, k, C, Rw, ix = setup(E, L, nph, size)
        h = H5(); m.h5py = h
        m.np.chararray = CharArray
        E.texts = []
        m.writeoh5("/scratch/a.oh5", ix, d, version=version, **k)
        D = h.d
        def get(key):
            E.oblige("dataset %s is written" % key, key in D)
            return D.get(key)
        def one(key, want):
            v = get(key)
            if v is not None: E.oblige(key, _cmp("==", flat(v), want))
        i = E.row(0, n)
        b, eu = record(E, d, i)
        q, r = E.divmod_idx(i, C)
        ok = _cmp(">=", b("phase"), 0); E.nz_at(i)
        cols = {"Phi1": eu[0], "Phi": eu[1], "Phi2": eu[2], "Pattern Quality": b("pq"), "IQ": b("iq"), "X Position": mul(r, xs), "Y Position": mul(q, ys), "CI": ite(ok, b("cm"), -1)}
        base = "Scan 1/EBSD/"
        def column(nm):
            a = get(base + "Data/" + nm)
            if a is None: return None
            ln = len(a.shape) == 1 and _cmp("==", a.shape[0], n)
            E.oblige("%s: one entry per point" % nm, ln)
            if ln is False: return None
            E.oblige("%s keeps its precision" % nm, a.dtype.kind == "f" and a.dtype.itemsize >= 4 if nm != "Phase" else a.dtype.kind in "iu")
            return a[i]
        for nm, w in cols.items():
            v = column(nm)
            if v is not None: E.oblige("%s of every point, in scan order" % nm, _cmp("==", v, w))
        v = column("Fit")
        if v is not None: E.oblige("Fit of every indexed point", bor(bnot(ok), _cmp("==", v, b("fit"))))
        ids = sorted(set(p.split("/")[4] for p in D if p.startswith(base + "Header/Phase/")))
        E.oblige("one header section per phase", len(ids) == nph)
        E.oblige("phases are numbered consecutively", all(x.isdigit() for x in ids) and [int(x) for x in ids] == list(range(int(ids[0]), int(ids[0]) + len(ids))) if ids else False)
        if ids and ids[0].isdigit():
            sh = int(ids[0])
            # known finding (KNOWN_FINDINGS.txt): versions other than 8.6 number the phases from 0, which points not indexed get too
            if version == "8.6": E.oblige("phase numbers leave one for points not indexed", sh >= 1)
            v = column("Phase")
            if v is not None: E.oblige("Phase of every point as numbered in the header, 0 when not indexed", _cmp("==", v, ite(ok, add(b("phase"), sh), 0)))
            for p, ph in enumerate(ix.phaseLib):
                H = base + "Header/Phase/%d/" % (p + sh)
                one(H + "LGsymID", ph.lauecode); one(H + "SpaceGroupNumber", ph.spacegroup); one(H + "NumberFamilies", ph.npolefamilies)
                for c, nm in enumerate(("a", "b", "c", "alpha", "beta", "gamma")): one(H + "Lattice Constant " + nm, mul(ph.latticeparameter[c], 10 if c < 3 else 1))
                v = get(H + "MaterialName")
                if v is not None: E.oblige("phase %d: header carries its name" % p, flat(v) == ph.phasename)
                v = get(H + "hkl Families")
                if v is not None:
                    E.oblige("phase %d: one record per family" % p, _cmp("==", v.shape[0], ph.npolefamilies))
                    for j, row in enumerate(h3(ph)):
                        for c, nm in enumerate("HKL"): E.oblige("phase %d: family %d, %s" % (p, j, nm), _cmp("==", v.f[nm][j], row[c]))
        one(base + "Header/nColumns", C); one(base + "Header/nRows", Rw); one(base + "Header/Step X", xs); one(base + "Header/Step Y", ys)
        one(base + "Header/Sample Tilt", ix.sampleTilt); one(base + "Header/Camera Elevation Angle", ix.camElev)
        for c, nm in enumerate("xyz"): one(base + "Header/Pattern Center Calibration/%s-star" % nm, ix.PC[c])
        kept(E, d)
    return th
def proofs(tier):
    o = dict(shims={"h5py": types.SimpleNamespace()})
    A = ["pyebsdindex.ebsdfile.writeang"]
    out = []
    for nph, size in ((1, "none"), (2, "columns"), (1, "both"), (3, "file"), (2, "file without size"), (1, "columns")):
        out.append(Proof("ANG file, %d phase%s, scan size: %s" % (nph, "s" * (nph > 1), size), A, ang(nph, size), **o))
    for nph, size, v in ((1, "none", "8.6"), (2, "columns", "8.6"), (1, "both", "9.1"), (3, "file", "8.6"), (2, "file without size", "8.6")):
        out.append(Proof("OH5 file %s, %d phase%s, scan size: %s" % (v, nph, "s" * (nph > 1), size), ["pyebsdindex.ebsdfile.writeoh5"], oh5(nph, size, v), **o))
    return out
