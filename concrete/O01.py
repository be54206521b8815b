from tripcommon import *
import types, tempfile, shutil, h5py
from pyebsdindex import ebsdfile as ef
S = Suite("O01", "random result tables of one to three phases with indexed and unindexed points; scan sizes given, taken from the file or missing, incomplete last rows; both writers, both OH5 versions; files parsed independently")
DT = np.dtype([("quat", np.float64, 4), ("iq", np.float32), ("pq", np.float32), ("cm", np.float32), ("phase", np.int32), ("fit", np.float32), ("nmatch", np.int32), ("matchattempts", np.int32, 4), ("totvotes", np.int32)])
def table(rng, nph, n):
    d = np.zeros((nph + 1, n), DT); d["phase"] = -1; d["fit"] = 180; d["quat"][..., 0] = 1
    for i in range(n):
        p = int(rng.integers(-1, nph))
        d["pq"][:, i] = rng.uniform(0, 900); d["iq"][:, i] = rng.uniform(0, 9)
        if p >= 0:
            q = rotm(rng); d["quat"][[p, -1], i] = q; d["phase"][[p, -1], i] = p; d["cm"][[p, -1], i] = rng.uniform(.01, 1); d["fit"][[p, -1], i] = rng.uniform(.05, 2)
    return d
def euler_ok(e, q):
    """rotation of the Euler angles equals that of the (passive) quaternion"""
    a, b, c = e; g = np.array([[np.cos(c), np.sin(c), 0], [-np.sin(c), np.cos(c), 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, np.cos(b), np.sin(b)], [0, -np.sin(b), np.cos(b)]]) @ np.array([[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0], [0, 0, 1]])
    m = mat(q); return min(np.abs(g - m).max(), np.abs(g - m.T).max())
def conv(q):
    """+1 when the orientation matrix of the quaternion is the active one: taken from the library's own qu2om (R01)"""
    from pyebsdindex import rotlib
    return np.asarray(rotlib.qu2om(q)).reshape(3, 3)
def cases(S):
    for r in range(14 * S.scale):
        nph = 1 + r % 3; n = int(S.rng.integers(1, 30)); d = table(S.rng, nph, n); libs = [phase(i) for i in S.rng.choice(15, nph, replace=False)]
        m = r % 4; fid = None; k = {}; xs, ys = float(np.float32(S.rng.uniform(.1, 3))), float(np.float32(S.rng.uniform(.1, 3))); nc, nr = 1, n
        if m == 1: nc = int(S.rng.integers(1, 8)); k["ncols"] = nc; nr = -(-n // nc)
        elif m == 2: nc = int(S.rng.integers(1, 8)); nr = -(-n // nc); k.update(ncols=nc, nrows=nr)
        elif m == 3: nc = int(S.rng.integers(1, 8)); nr = -(-n // nc); fid = types.SimpleNamespace(nCols=nc, nRows=nr, xStep=xs, yStep=ys)
        if m != 3: k.update(xstep=xs, ystep=ys)
        ix = types.SimpleNamespace(PC=np.array([.5, .6, .7]), sampleTilt=70.0, camElev=5.3, phaseLib=libs, fID=fid)
        yield r, nph, n, d, libs, nc, nr, xs, ys, ix, k, {"phases": nph, "points": n, "columns": nc, "rows": nr, "size given": ["no", "columns", "both", "by the file"][m], "table": lambda d=d: d["phase"][-1]}
def common(S, inp, d, keep, nc, xs, ys, E, X, Y, PQ, CI, tol):
    n = d.shape[1]; b = d[-1]; i = np.arange(n)
    S.check(d.tobytes() == keep, "results in memory not altered", inp)
    if not S.check(all(len(np.atleast_1d(v)) == n for v in (E, X, Y, PQ, CI)), "one entry per point", inp, [np.shape(v) for v in (E, X, Y, PQ, CI)]): return False
    S.check(np.allclose(X, (i % nc) * xs, atol=tol) and np.allclose(Y, (i // nc) * ys, atol=tol), "positions", inp, lambda: {"x": X, "y": Y})
    S.check(np.allclose(PQ, b["pq"], atol=.06), "quality", inp)
    S.check(np.allclose(np.where(b["phase"] >= 0, CI - b["cm"], CI + 1), 0, atol=6e-4), "confidence, -1 where unindexed", inp, lambda: {"ci": CI, "cm": b["cm"], "phase": b["phase"]})
    for j in range(n):
        if b["phase"][j] >= 0: S.check(np.abs(conv(b["quat"][j]) - eulmat(E[j])).max() < 5e-5, "Euler angles", inp, lambda: {"point": j, "written": E[j], "quaternion": b["quat"][j]})
    return True
def eulmat(e):
    a, b, c = np.asarray(e, float)
    return np.array([[np.cos(c), np.sin(c), 0], [-np.sin(c), np.cos(c), 0], [0, 0, 1]]) @ np.array([[1, 0, 0], [0, np.cos(b), np.sin(b)], [0, -np.sin(b), np.cos(b)]]) @ np.array([[np.cos(a), np.sin(a), 0], [-np.sin(a), np.cos(a), 0], [0, 0, 1]])
def h3(lib):
    P = np.array(lib.polefamilies).astype(int); return P[:, [0, 1, 3]] if P.shape[1] == 4 else P
def ang(S):
    tmp = tempfile.mkdtemp()
    try:
        for r, nph, n, d, libs, nc, nr, xs, ys, ix, k, inp in cases(S):
            S.cur = inp; keep = d.tobytes(); f = os.path.join(tmp, "a.ang"); ef.writeang(f, ix, d, **k)
            L = open(f, encoding="utf-8").read().split("\n"); L = [l.strip("\r") for l in L]; H = [l for l in L if l.startswith("#")]; D = [l.split() for l in L if l and not l.startswith("#")]
            A = np.array(D, float)
            if not S.check(A.shape == (n, 10), "one entry per point", inp, A.shape): continue
            if not common(S, inp, d, keep, nc, xs, ys, A[:, :3], A[:, 3], A[:, 4], A[:, 5], A[:, 6], 2e-5): continue
            b = d[-1]; add = 0 if nph == 1 else 1
            S.check(np.all(A[:, 7] == np.where(b["phase"] >= 0, b["phase"] + add, 0)), "phase", inp, lambda: {"written": A[:, 7], "phase": b["phase"]})
            S.check(np.allclose(np.where(b["phase"] >= 0, A[:, 9] - b["fit"], 0), 0, atol=6e-4), "fit", inp)
            ids = [int(l.split()[2]) for l in H if l.startswith("# Phase")]; names = [l.split("\t")[1].strip() for l in H if "MaterialName" in l]; sym = [l.split()[2] for l in H if l.startswith("# Symmetry")]
            S.check(sorted(ids) == list(range(1, nph + 1)) and len(names) == nph and all(names[ids.index(i + 1)] == str(libs[i].phasename) and sym[ids.index(i + 1)] == str(libs[i].lauecode) for i in range(nph)), "phase list of the header", inp, lambda: {"ids": ids, "names": names})
            lat = [[float(v) for v in l.split()[2:]] for l in H if "LatticeConstants" in l]; S.check(all(np.allclose(lat[ids.index(i + 1)], np.array(libs[i].latticeparameter) * [10, 10, 10, 1, 1, 1], atol=6e-4) for i in range(nph)), "lattice", inp, lat)
            fam = []; cur = []
            for l in H:
                if l.startswith("# Phase"): cur = []; fam.append(cur)
                if l.startswith("# hklFamilies"): cur.append([int(v) for v in l.split()[2:5]])
            S.check(all(np.array_equal(fam[ids.index(i + 1)], h3(libs[i])) for i in range(nph)), "reflectors", inp, lambda: fam)
            g = {l.split()[1]: l.split()[2] for l in H if l.split()[1:2] and l.split()[1].endswith(":") and len(l.split()) > 2}
            S.check(int(g["NCOLS_ODD:"]) == nc and int(g["NCOLS_EVEN:"]) == nc and int(g["NROWS:"]) == nr and abs(float(g["XSTEP:"]) - xs) < 1e-6 and abs(float(g["YSTEP:"]) - ys) < 1e-6, "grid of the header", inp, g)
    finally: shutil.rmtree(tmp)
def oh5(S):
    tmp = tempfile.mkdtemp()
    try:
        for r, nph, n, d, libs, nc, nr, xs, ys, ix, k, inp in cases(S):
            ver = ["8.6", "9.1"][(r // 2) % 2]; inp = dict(inp, version=ver); S.cur = inp; keep = d.tobytes(); f = os.path.join(tmp, "a%d.oh5" % r); ef.writeoh5(f, ix, d, version=ver, **k)
            with h5py.File(f, "r") as h:
                D, Hd = h["Scan 1/EBSD/Data"], h["Scan 1/EBSD/Header"]; g = lambda x: D[x][()]
                ok = S.check(all(D[x].shape == (n,) for x in D), "one entry per point", inp, {x: D[x].shape for x in D})
                if not ok: continue
                if not common(S, inp, d, keep, nc, xs, ys, np.stack([g("Phi1"), g("Phi"), g("Phi2")], 1), g("X Position"), g("Y Position"), g("Pattern Quality"), g("CI"), 1e-3): continue
                b = d[-1]; keys = sorted(int(x) for x in Hd["Phase"]); add = min(keys)
                S.check(keys == list(range(add, add + nph)), "phase list of the header", inp, keys)
                for i in range(nph):
                    q = Hd["Phase/%d" % (i + add)]; lp = np.array(libs[i].latticeparameter, float)
                    S.check(q["MaterialName"][0].decode().strip("\x00 ") == str(libs[i].phasename) and int(q["LGsymID"][0]) == libs[i].lauecode and int(q["SpaceGroupNumber"][0]) == libs[i].spacegroup, "phase list of the header", inp)
                    S.check(np.allclose([q["Lattice Constant " + c][0] for c in ("a", "b", "c", "alpha", "beta", "gamma")], lp * [10, 10, 10, 1, 1, 1], rtol=1e-5), "lattice", inp)
                    F = q["hkl Families"][()]; S.check(np.array_equal(np.stack([F["H"], F["K"], F["L"]], 1), h3(libs[i])) and int(q["NumberFamilies"][0]) == len(F), "reflectors", inp)
                S.check(add >= 1 or np.all(b["phase"] >= 0), "unindexed points have the number of no phase" if ver == "8.6" else "unindexed:phase-0-when-numbered-from-0", inp)
                S.check(np.all(g("Phase") == np.where(b["phase"] >= 0, b["phase"] + add, 0)), "phase", inp, lambda: {"written": g("Phase"), "phase": b["phase"]})
                S.check(np.allclose(np.where(b["phase"] >= 0, g("Fit") - b["fit"], 0), 0, atol=1e-5) and np.allclose(g("IQ"), b["iq"]), "fit", inp)
                S.check(int(Hd["nColumns"][0]) == nc and int(Hd["nRows"][0]) == nr and abs(Hd["Step X"][0] - xs) < 1e-5 and abs(Hd["Step Y"][0] - ys) < 1e-5, "grid of the header", inp)
    finally: shutil.rmtree(tmp)
if __name__ == "__main__": S.run(ang, oh5)
