from lib import *
from pyebsdindex import ebsd_pattern as ep
import tempfile, os, warnings, h5py, struct
warnings.simplefilter("ignore")
S = Suite("F01", "case = file format x pattern type x scan/pattern shape x history of writes and reads (runs and slabs), compared with an array model after every step")
rng = S.rng
def up(d, v, dt, nr, nc, H, W):
    def mk():
        u = ep.UPFile(os.path.join(d, "a" + (".up1" if dt is np.uint8 else ".up2")))
        return u
    u = mk(); u.version = v; u.patternH, u.patternW, u.nRows, u.nCols, u.nPatterns = H, W, nr, nc, nr * nc
    u.xStep, u.yStep = 0.25, 0.5
    if rng.random() < .4: u.filePos = (16 if v == 1 else 42) + int(rng.integers(1, 60))
    return u, mk, ["patternW", "patternH", "nPatterns", "filePos"] + (["nRows", "nCols", "xStep", "yStep", "hexflag"] if v == 3 else [])
def ebsp(d, v, dt, nr, nc, H, W, xy=True):
    def mk(): return ep.EBSPFile(os.path.join(d, "a.ebsp"))
    u = mk(); u.version = v; u.patternH, u.patternW, u.nRows, u.nCols, u.nPatterns = H, W, nr, nc, nr * nc
    u.xStep, u.yStep = 0.25, 0.5; u.hasxypos = xy; u.filedatatype = dt
    return u, mk, ["patternW", "patternH", "nPatterns", "filedatatype"] + (["xStep"] if xy and nc > 1 else [])
def tf(d, bits, nr, nc, H, W, scan=True, back=False):
    def mk(): return ep.TFPatFile(os.path.join(d, "a.pat"))
    u = mk(); u.version = 1; u.patternH, u.patternW, u.nRows, u.nCols, u.nPatterns = H, W, nr, nc, nr * nc
    u.bitdepth = bits; u.filedatatype = np.uint16; u.isscan = scan; u.hasbackground = back
    if back: u.background = rng.integers(0, 2 ** bits, (H, W)).astype(np.uint16)
    return u, mk, ["patternW", "patternH", "nPatterns", "bitdepth", "hasbackground", "isscan"] + (["nRows", "nCols"] if scan else [])
def h5(d, ven, dt, nr, nc, H, W):
    p = os.path.join(d, "a" + {"EDAX": ".oh5", "OXFORD": ".h5oina"}.get(ven, ".h5"))
    name = {"EDAX": "Pattern", "OXFORD": "Processed Patterns", "BRUKER": "RawPatterns", "kikuchipy": "patterns"}[ven]
    with h5py.File(p, "w") as f:
        g = f.create_group("Scan 1/EBSD/Data"); g.create_dataset(name, data=np.zeros((nr * nc, H, W), dt))
        h = f.create_group("Scan 1/EBSD/Header")
        s = lambda x: np.array([x.encode()])
        if ven == "EDAX":
            f["Manufacturer"] = s("EDAX"); f["Version"] = s("OIM Analysis 8.6.00")
            h["nColumns"], h["nRows"], h["Grid Type"], h["Step X"], h["Step Y"] = [nc], [nr], s("SqrGrid"), [.25], [.5]
        if ven == "kikuchipy":
            f["manufacturer"] = s("kikuchipy"); f["version"] = s("0.5.0")
            h["n_columns"], h["n_rows"], h["grid_type"], h["step_x"], h["step_y"] = [nc], [nr], s("isometric"), [.25], [.5]
        if ven == "BRUKER":
            f["Manufacturer"] = "BRUKER NANO".encode(); f["Version"] = "Esprit 2.X".encode()
            h["NCOLS"], h["NROWS"], h["XSTEP"], h["YSTEP"] = nc, nr, .25, .5
        if ven == "OXFORD":
            f["Format Version"] = s("5.0"); h["X Cells"], h["Y Cells"], h["X Step"], h["Y Step"] = [nc], [nr], [.25], [.5]
            yy, xx = np.mgrid[:nr, :nc]; g["Beam Position X"] = (xx.ravel() * .25); g["Beam Position Y"] = (yy.ravel() * .5)
    def mk():
        o = ep.get_pattern_file_obj(p); return o
    o = mk()
    return o, mk, []
def history(S, tag, u, mk, keys, dt, nr, nc, H, W, top, steps=6, created=False, fill=None):
    n = nr * nc; model = np.zeros((n, H, W), dt); sig = tag.split(" ")[0] + ":"
    log = []; S.cur = lambda: (tag, log)
    if not created:
        u.write_header(writeBlank=True)
        if tag.startswith("TFPAT") and u.isscan is False:
            pass
    o = mk(); o.read_header()
    for k in keys:
        a, b = getattr(u, k), getattr(o, k)
        S.check(a == b, sig + "header " + k, (tag, nr, nc, H, W), (a, b))
    if not (tag.startswith("UP v1") or tag.startswith("EBSP") and not getattr(o, "hasxypos", False)):     # those do not store the shape of the scan
        S.check(int(o.nRows) == nr and int(o.nCols) == nc, sig + "header scan shape", (tag, nr, nc, H, W), lambda: (o.nRows, o.nCols))
        if not tag.startswith("TFPAT") and (nc > 1 and nr > 1 or tag.startswith("UP")): S.check(o.xStep == 0.25 and o.yStep == 0.5, sig + "header step", (tag, nr, nc, H, W), lambda: (o.xStep, o.yStep))
    if getattr(u, "hasbackground", False): S.check(np.array_equal(np.reshape(o.background, (H, W)), u.background), sig + "background", (tag, nr, nc, H, W), lambda: o.background)
    if o.nRows is None or int(o.nRows) != nr or int(o.nCols) != nc: o.set_scan_rc((nr, nc)) if int(o.nPatterns) == n else None
    if not S.check(int(o.nPatterns) == n, sig + "header nPatterns", (tag, nr, nc, H, W), o.nPatterns): return
    inp = lambda: dict(format=tag, scan=(nr, nc), pattern=(H, W), history=list(log))
    def compare(what):
        q = mk(); q.read_header()
        if int(q.nCols) != nc: q.set_scan_rc((nr, nc))
        r = q.read_data(returnArrayOnly=True)[0]
        S.check(r.dtype == dt and np.array_equal(r, model), sig + what, inp, lambda: np.argwhere((r != model).any(axis=(1, 2))).ravel()[:10] if r.shape == model.shape else r.shape)
    compare("blank file")
    for s in range(steps):
        w = o if rng.random() < .5 else mk()
        if w is not o: w.read_header(); (w.set_scan_rc((nr, nc)) if int(w.nCols) != nc else None)
        if rng.random() < .5:
            a = int(rng.integers(0, n)); m = int(rng.integers(1, n - a + 1)); idx = np.arange(a, a + m); psc = [a, -1 if rng.random() < .3 else m]
        else:
            c0, r0 = int(rng.integers(nc)), int(rng.integers(nr)); cc, rr = int(rng.integers(1, nc - c0 + 1)), int(rng.integers(1, nr - r0 + 1))
            if rng.random() < .3: cc = nc - c0
            psc = [[c0, r0], [-1 if cc == nc - c0 and rng.random() < .5 else cc, -1 if rr == nr - r0 and rng.random() < .5 else rr]]
            idx = (np.arange(r0, r0 + rr)[:, None] * nc + np.arange(c0, c0 + cc)).ravel()
        pats = rng.integers(0, top + 1, (len(idx), H, W)).astype(dt)
        if len(idx) == 1 and rng.random() < .5: pats = pats[0]
        log.append(("write", psc)); w.write_data(newpatterns=pats, patStartCount=psc); model[idx] = pats
        compare("after a write")
        a = int(rng.integers(0, n)); m = int(rng.integers(1, n - a + 1))
        log.append(("read", [a, m])); r = o.read_data(patStartCount=[a, m], returnArrayOnly=True)[0]
        S.check(np.array_equal(r, model[a:a + m]), sig + "run read", inp)
        c0, r0 = int(rng.integers(nc)), int(rng.integers(nr)); cc, rr = int(rng.integers(1, nc - c0 + 1)), int(rng.integers(1, nr - r0 + 1))
        log.append(("read", [[c0, r0], [cc, rr]])); po = o.read_data(patStartCount=[[c0, r0], [cc, rr]], convertToFloat=bool(rng.integers(2)))
        S.check(np.array_equal(po.patterns, model.reshape(nr, nc, H, W)[r0:r0 + rr, c0:c0 + cc].reshape(-1, H, W)), sig + "slab read", inp)
        if s == 2:      # a pattern object read from the file is written back at another place of the same size
            a = int(rng.integers(0, n)); m = int(rng.integers(1, n - a + 1)); b = int(rng.integers(0, n - m + 1))
            log.append(("copy object", [a, m], [b, m])); po = o.read_data(patStartCount=[a, m]); o.write_data(newpatterns=po, patStartCount=[b, m if rng.random() < .5 else -1]); model[b:b + m] = model[a:a + m].copy()
            compare("object written back")
        if s == 3:
            c0 = int(rng.integers(nc)); cc = int(rng.integers(1, nc - c0 + 1))
            log.append(("copy slab object", [c0, cc])); po = o.read_data(patStartCount=[[c0, 0], [cc, nr]]); po.patterns[...] = po.patterns[::-1]
            o.write_data(newpatterns=po, patStartCount=[[c0, 0], [cc, nr]])
            model.reshape(nr, nc, H, W)[:, c0:c0 + cc] = model.reshape(nr, nc, H, W)[:, c0:c0 + cc].reshape(-1, H, W)[::-1].reshape(nr, cc, H, W); compare("slab object written back")
    # copies: complete, and with the header only
    dst = os.path.join(os.path.dirname(str(o.filepath)), "copy" + os.path.splitext(str(o.filepath))[1]); o.copy_file(dst)
    S.check(open(dst, "rb").read() == open(str(o.filepath), "rb").read(), sig + "copy", inp)
    if tag.split(" ")[0] in ("UP", "TFPAT"):
        dst2 = os.path.join(os.path.dirname(str(o.filepath)), "empty" + os.path.splitext(str(o.filepath))[1]); o.copy_file(dst2, empty_data=True)
        q = ep.get_pattern_file_obj(dst2); 
        S.check(all(getattr(q, k) == getattr(o, k) for k in keys), sig + "empty copy header", inp)
        if int(q.nCols) != nc: q.set_scan_rc((nr, nc))
        S.check(not q.read_data(returnArrayOnly=True)[0].any(), sig + "empty copy blank", inp)
    compare("source after copying")
SHAPES = [(2, 3, 4, 5), (3, 2, 5, 4), (1, 4, 3, 3), (4, 1, 2, 7), (3, 4, 6, 2), (1, 1, 3, 4), (5, 5, 2, 2)]
def run(S, mkr, tag, dt, top, k, **kw):
    for t in range(k * (1 if S.quick else 6)):
        nr, nc, H, W = SHAPES[int(rng.integers(len(SHAPES)))]
        with tempfile.TemporaryDirectory() as d:
            u, mk, keys = mkr(d, nr, nc, H, W)
            history(S, tag, u, mk, keys, dt, nr, nc, H, W, top, created=tag.startswith("H5"))
def part(name, *a):
    def f(S): run(S, *a)
    f.__name__ = name
    return f
parts = []
for dt, top in ((np.uint8, 255), (np.uint16, 65535)):
    for v in (3, 1): parts.append(part("up v%d %s" % (v, dt.__name__), lambda d, nr, nc, H, W, v=v, dt=dt: up(d, v, dt, nr, nc, H, W), "UP v%d %s" % (v, dt.__name__), dt, top, 6))
for v in (1, 2, 3, 4):
    for xy in (True, False):
        if v == 0 and xy: continue
        parts.append(part("ebsp v%d xy=%d" % (v, xy), lambda d, nr, nc, H, W, v=v, xy=xy: ebsp(d, v, np.uint8, nr, nc, H, W, xy), "EBSPv%d%s file" % (v, "xy" if xy else ""), np.uint8, 255, 3))
for xy in (True, False): parts.append(part("ebsp16 xy=%d" % xy, lambda d, nr, nc, H, W, xy=xy: ebsp(d, 2, np.uint16, nr, nc, H, W, xy), "EBSP16%s file" % ("xy" if xy else ""), np.uint16, 65535, 3))
parts.append(part("tfpat points", lambda d, nr, nc, H, W: tf(d, 16, nr, nc, H, W, False, True), "TFPAT points", np.uint16, 65535, 3))
for bits, back in ((8, False), (12, True), (16, False), (16, True)):
    parts.append(part("tfpat %d %d" % (bits, back), lambda d, nr, nc, H, W, bits=bits, back=back: tf(d, bits, nr, nc, H, W, True, back), "TFPAT %d bits background=%d" % (bits, back), np.uint16, 2 ** bits - 1, 3))
for ven in ("EDAX", "kikuchipy", "BRUKER", "OXFORD"):
    for dt, top in ((np.uint8, 255), (np.uint16, 65535)):
        parts.append(part("h5 %s %s" % (ven, dt.__name__), lambda d, nr, nc, H, W, ven=ven, dt=dt: h5(d, ven, dt, nr, nc, H, W), "H5%s %s" % (ven, dt.__name__), dt, top, 3))
def large(S):
    """patterns beyond 2 and 4 GiB of a (sparse) file"""
    for tag, mkr, dt in (("UP", lambda d, nr, nc, H, W: up(d, 3, np.uint16, nr, nc, H, W), np.uint16), ("EBSP", lambda d, nr, nc, H, W: ebsp(d, 2, np.uint16, nr, nc, H, W, False), np.uint16), ("TFPAT", lambda d, nr, nc, H, W: tf(d, 16, nr, nc, H, W), np.uint16)):
        nr, nc, H, W = 22, 100, 1024, 1024; n = nr * nc; sz = H * W * 2
        with tempfile.TemporaryDirectory() as d:
            u, mk, keys = mkr(d, nr, nc, H, W)
            p = str(u.filepath); S.cur = (tag, "large file")
            u.write_header(writeBlank=False)
            os.truncate(p, os.path.getsize(p) + n * (sz + 64))
            val = {0: 9, 2100: 7, 1050: 5, 3: 3}
            def ready(o):
                o.read_header()
                if o.nRows is None or int(o.nRows) != nr or int(o.nCols) != nc: o.set_scan_rc((nr, nc))
                if int(o.nPatterns) != n: o.nPatterns = np.uint64(n)
                return o
            w = u if tag == "EBSP" else ready(mk())      # an EBSP file without patterns does not tell their type
            for k, v in val.items(): w.write_data(newpatterns=np.full((1, H, W), v, dt), patStartCount=[k, 1])
            o = ready(mk())
            for k in list(val) + ([] if tag == "EBSP" else [2100 - 2048, 2100 - 1024, 1050 - 1024]):
                r = o.read_data(patStartCount=[k, 1], returnArrayOnly=True)[0]; w = val.get(k, 0)
                S.check(r.shape == (1, H, W) and r.min() == w and r.max() == w, tag + " large: pattern read back", (tag, n, k), lambda: (r.shape, r.min(), r.max(), w))
parts.append(large)
if __name__ == "__main__": S.run(*parts)
