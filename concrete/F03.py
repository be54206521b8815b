from lib import *
from pyebsdindex import ebsd_pattern as ep
import tempfile, os, warnings
warnings.simplefilter("ignore")
S = Suite("F03", "case = input type x target type x method x intensity layout; range, order, shape, exactness in clipping mode and untouched input, also through the writers")
rng = S.rng
DT = [np.float32, np.float64, np.uint8, np.int8, np.int16, np.uint16, np.int32, np.uint32, np.int64]
def data(dt, kind):
    shp = (int(rng.integers(1, 4)), int(rng.integers(1, 5)), int(rng.integers(1, 6)))
    f = np.issubdtype(dt, np.floating)
    if kind == 0: a = rng.normal(size=shp) * 100 if f else rng.integers(max(-2**31, np.iinfo(dt).min), min(2**31, np.iinfo(dt).max), shp)
    elif kind == 1: a = np.full(shp, rng.integers(0, 100))
    elif kind == 2: a = np.zeros(shp)
    elif kind == 3: a = rng.random(shp) * 1e6 - 3e5 if f else rng.integers(0, 120, shp)
    elif kind == 4: a = rng.integers(0, 120, shp) + (rng.random(shp) if f else 0)
    elif kind == 5: a = rng.integers(-120, -3, shp) if f or np.iinfo(dt).min < 0 else rng.integers(100, 120, shp)
    elif kind == 6: a = rng.random(shp) * 1e-3 if f else rng.integers(0, 2, shp)
    else: a = np.linspace(-10, 70000, int(np.prod(shp))).reshape(shp); a = a if f else np.clip(a, np.iinfo(dt).min, np.iinfo(dt).max)
    return a.astype(dt)
def order(a, r):
    i = np.argsort(a.ravel(), kind="stable"); x, y = a.ravel()[i], r.ravel()[i].astype(float)
    ok = np.all(np.diff(y) >= 0)
    eq = np.diff(x) == 0
    return ok and np.all(np.diff(y)[eq] == 0)
def direct(S):
    for t in range(700 * S.scale):
        dt = DT[int(rng.integers(len(DT)))]; to = [np.uint8, np.uint16, None][int(rng.integers(3))]; me = ["clip", "fullscale", "scale"][int(rng.integers(3))]
        a = data(dt, t % 8); two = rng.random() < .25
        if two: a = a[0]
        ms = None if rng.random() < .6 else float(rng.choice([0.5, 50, 200, 1000, 70000])); sv = float(rng.choice([0.98, 1.0, 0.5]))
        a0 = a.copy(); inp = lambda: dict(dtype=str(a0.dtype), typeout=None if to is None else to.__name__, method=me, maxScale=ms, scalevalue=sv, data=a0); S.cur = inp()
        r = ep.pat_flt2int(a, typeout=to, method=me, scalevalue=sv, maxScale=ms)
        S.check(np.array_equal(a, a0), "direct:input-modified", inp)
        S.check(r.shape == a0.shape, "direct:shape", inp, lambda: r.shape)
        S.check(r.dtype == to if to is not None else r.dtype in (np.uint8, np.uint16), "direct:type", inp)
        S.check(order(a0, r), "direct:order", inp, lambda: r)
        hi = np.iinfo(r.dtype).max
        if me == "clip":
            top = hi if ms is None else min(hi, ms)
            S.check(np.array_equal(r, np.clip(a0.astype(float), 0, top).astype(r.dtype)), "direct:clip", inp, lambda: r)
        elif ms is None:
            b = a0.astype(float); b = b - b.min() if me == "fullscale" or b.min() < 0 else b
            if b.max() > 0: S.check(np.all(np.abs(r - b * sv * hi / b.max()) <= 0.51 + 1e-5 * hi), "direct:scaled", inp, lambda: r)
    for dt in (np.float32, np.float64):
        a = data(dt, 0); a0 = a.copy(); r = ep.pat_flt2int(a, typeout=np.float32)
        S.check(np.array_equal(r, a0.astype(np.float32)) and r.dtype == np.float32, "direct:float-target")
def through_files(S):
    for t in range(24 * S.scale):
        ext, to = [(".up1", np.uint8), (".up2", np.uint16)][t % 2]; me = ["clip", "fullscale", "scale"][t % 3]
        with tempfile.TemporaryDirectory() as d:
            nr, nc, H, W = 3, 4, 2, 3
            u = ep.UPFile(os.path.join(d, "a" + ext)); u.patternH, u.patternW, u.nRows, u.nCols, u.nPatterns = H, W, nr, nc, nr * nc; u.xStep = u.yStep = 1.0
            u.write_header(writeBlank=True)
            slab = t % 4 < 2
            n = 6
            a = (rng.random((n, H, W)) * [300, 7e4, 50][int(rng.integers(3))] - [0, 20][int(rng.integers(2))]).astype(np.float32); a0 = a.copy()
            inp = dict(ext=ext, method=me, slab=slab, data=a0); S.cur = inp
            u.write_data(newpatterns=a, patStartCount=[[1, 0], [2, 3]] if slab else [2, n], flt2int=me)
            r = u.read_data(patStartCount=[[1, 0], [2, 3]] if slab else [2, n], returnArrayOnly=True)[0]
            S.check(np.array_equal(a, a0), "files:input-modified", inp); S.check(r.dtype == to and r.shape == a.shape, "files:shape", inp)
            S.check(order(a0, r), "files:order", inp, lambda: r)
            if me == "clip": S.check(np.array_equal(r, np.clip(a0, 0, np.iinfo(to).max).astype(to)), "files:clip", inp, lambda: r)
S.run(direct, through_files)
