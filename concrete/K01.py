from tripcommon import *
import types, itertools
from pyebsdindex import rotlib
from pyebsdindex.EBSDImage import IPFcolor as ipf
S = Suite("K01", "random and special orientations (identity, axes on corners and edges of the triangle, hexagonal equator), all symmetry operators of 43 and 62, any sample direction incl. not normalised; maps of several shapes and phases with unindexed points")
def quats(S, n):
    q = [rotm(S.rng) for _ in range(n)]
    q += [np.array(v, float) / np.linalg.norm(v) for v in ((1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (0, 0, 0, 1), (1, 1, 0, 0), (1, 0, 1, 0), (1, 0, 0, 1), (1, 1, 1, 1), (1, -1, 1, 1), (0, 1, 1, 0), (h3, .5, 0, 0), (h3, 0, 0, .5), (np.cos(np.pi / 8), 0, np.sin(np.pi / 8), 0), (np.cos(np.arccos(3 ** -.5) / 2), np.sin(np.arccos(3 ** -.5) / 2) * r2, -np.sin(np.arccos(3 ** -.5) / 2) * r2, 0))]
    return np.array(q)
DIRS = [(0, 0, 1), (1, 0, 0), (0, 1, 0), (0, 0, -1), (1, 1, 0), (1, 1, 1), (.2, -.5, .9), (0, 0, 7.0), (2, 1, 0), (.001, 0, 0)]
def hemul(a, b):
    w, x, y, z = a; p, q, r, s = b
    return np.array([w*p-x*q-y*r-z*s, w*q+x*p+y*s-z*r, w*r-x*s+y*p+z*q, w*s+x*r-y*q+z*p])
def group(l):
    """quaternions generated by the class's generators"""
    G = [np.array([1., 0, 0, 0])]; todo = list(G)
    while todo:
        a = todo.pop()
        for g in GEN[l]:
            c = hemul(np.array(g, float), a)
            if not any(min(np.abs(c - x).max(), np.abs(c + x).max()) < 1e-6 for x in G): G.append(c); todo.append(c)
    return np.array(G)
def colours(S):
    for l, f in ((43, ipf.qu2ipf_cubic), (62, ipf.qu2ipf_hex)):
        Q = quats(S, 30 * S.scale); G = group(l)
        for d in DIRS:
            v = np.array(d, float); inp0 = {"class": l, "direction": d}; S.cur = inp0
            c = f(Q, vector=v.copy()); S.check(c.shape == (len(Q), 3) and np.all(np.isfinite(c)) and c.min() >= 0 and c.max() <= 1, "valid colour", inp0, lambda: c)
            c2 = f(Q, vector=-v); S.check(np.abs(c - c2).max() < 2e-3, "opposite directions", inp0, lambda: np.abs(c - c2).max(axis=1))
            c1 = f(Q, vector=v / np.linalg.norm(v)); S.check(np.abs(c - c1).max() < 1e-4, "length of the direction", inp0)
            S.check(np.abs(np.array([f(q[None], vector=v.copy())[0] for q in Q[:6]]) - c[:6]).max() < 1e-6, "each point from its own orientation", inp0)
            for i, q in enumerate(Q):
                # the symmetry acts on the crystal side: crystal = q(sample)
                e = np.array([np.asarray(rotlib.quat_multiply(g, q)).ravel() for g in G]) if i < 4 else None
                A = np.array([mat(g) for g in G]) if i == 0 else A
                if i < 4:
                    x = np.asarray(rotlib.quat_vector(q, v)).ravel(); y = np.asarray(rotlib.quat_vector(e, v)); S.check(all(any(np.abs(a @ x - t).max() < 1e-5 * max(1, np.linalg.norm(v)) for a in A) for t in y), "equivalents are equivalent", {"class": l, "quat": q})
                else: e = None
                if e is None: e = np.array([np.asarray(rotlib.quat_multiply(g, q)).ravel() for g in (G if S.scale > 1 else G[S.rng.integers(0, len(G), 4)])])
                ce = f(e, vector=v.copy()); S.check(np.abs(ce - c[i]).max() < 2e-3, "symmetry equivalents", dict(inp0, quat=q), lambda: ce - c[i])
        for x in np.eye(3):
            fc = ipf.ipf_color_cubic if l == 43 else ipf.ipf_color_hex; c = fc(x[None]); S.check(c.shape == (1, 3) and c.min() >= -1e-6 and c.max() <= 1 + 1e-6, "valid colour of a crystal direction", {"class": l, "dir": x})
            S.cur = {"class": l, "single direction": x}; S.check(np.abs(np.asarray(fc(x)).ravel() - c.ravel()).max() < 1e-9, "single direction", {"class": l, "dir": x})
    # corners are pure
    c = np.array([ipf.ipf_color_cubic(np.array([x]) / np.linalg.norm(x))[0] for x in ((0, 0, 1.), (0, 1., 1.), (1., 1., 1.))]); S.check(len({int(np.argmax(x)) for x in c}) == 3, "corners have different colours", {"class": 43}, c)
    c = np.array([ipf.ipf_color_hex(np.array([x]) / np.linalg.norm(x))[0] for x in ((0, 0, 1.), (1., 0, 0), (h3, .5, 0))]); S.check(len({int(np.argmax(x)) for x in c}) == 3, "corners have different colours", {"class": 62}, c)
DT = np.dtype([("quat", np.float64, 4), ("pq", np.float32), ("cm", np.float32), ("phase", np.int32), ("fit", np.float32)])
def maps(S):
    for r in range(16 * S.scale):
        libs = [[43], [62], [43, 62], [62, 43, 43], [43, 62, 62, 43]][r % 5]; ix = types.SimpleNamespace(phaseLib=[types.SimpleNamespace(lauecode=l) for l in libs], fID=None)
        n = int(S.rng.integers(1, 40)); xs = int(S.rng.integers(1, 9)); ys = None if r % 3 else int(S.rng.integers(1, 9)); d = np.zeros((len(libs) + 1, n), DT); d["quat"][..., 0] = 1; d["phase"] = -1; d["fit"] = 180
        d["pq"] = S.rng.uniform(1, 9, n)
        for i in range(n):
            for p in range(len(libs)):
                if S.rng.uniform() < .7: d["quat"][p, i] = rotm(S.rng); d["phase"][p, i] = p; d["fit"][p, i] = S.rng.uniform(.1, 2)
            ok = [p for p in range(len(libs)) if d["phase"][p, i] >= 0]
            if ok and S.rng.uniform() < .9: d[-1, i] = d[ok[S.rng.integers(len(ok))], i]
        v = np.array(DIRS[r % len(DIRS)], float); inp = {"classes": libs, "points": n, "xsize": xs, "ysize": ys, "direction": v, "phase": d["phase"][-1]}; S.cur = inp; keep = d.tobytes()
        if r % 4 == 3: ix.fID = types.SimpleNamespace(nCols=xs, xStep=1.0); m = ipf.makeipf(d, ix, vector=v, ysize=ys)
        else: m = ipf.makeipf(d, ix, vector=v, xsize=xs, ysize=ys)
        H = ys if ys is not None else -(-n // xs)
        S.check(d.tobytes() == keep, "results not altered", inp)
        if not S.check(m.shape == (H, xs, 3), "shape of the map", inp, m.shape): continue
        S.check(np.all(np.isfinite(m)) and m.min() >= 0 and m.max() <= 1, "valid colour", inp)
        E = np.zeros((H * xs, 3))
        for i in range(min(n, H * xs)):
            p = d["phase"][-1, i]
            if p >= 0: E[i] = (ipf.qu2ipf_cubic if libs[p] == 43 else ipf.qu2ipf_hex)(d["quat"][-1, i][None], vector=v)[0]
        S.check(np.abs(m.reshape(-1, 3) - E).max() < 1e-5, "every point by its own orientation, unindexed black", inp, lambda: {"rows": np.nonzero(np.abs(m.reshape(-1, 3) - E).max(axis=1) > 1e-5)[0]})
if __name__ == "__main__": S.run(colours, maps)
