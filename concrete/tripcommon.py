from lib import *
from pyebsdindex import tripletvote as tv, crystal_sym as cs
h3 = np.sqrt(3) / 2; r2 = np.sqrt(.5)
GEN = {1: [], 2: [(0, 0, 1, 0)], 22: [(0, 1, 0, 0), (0, 0, 1, 0)], 4: [(r2, 0, 0, r2)], 42: [(r2, 0, 0, r2), (0, 1, 0, 0)], 3: [(.5, 0, 0, h3)], 32: [(.5, 0, 0, h3), (0, 1, 0, 0)],
       6: [(h3, 0, 0, .5)], 62: [(h3, 0, 0, .5), (0, 1, 0, 0)], 23: [(0, 1, 0, 0), (.5, .5, .5, .5)], 43: [(r2, 0, 0, r2), (.5, .5, .5, .5)]}
RANGES = [(1, 2, 1), (3, 15, 2), (16, 74, 22), (75, 88, 4), (89, 142, 42), (143, 148, 3), (149, 167, 32), (168, 176, 6), (177, 194, 62), (195, 206, 23), (207, 230, 43)]
def laue(sg): return [l for a, b, l in RANGES if a <= sg <= b][0]
def mat(q):
    w, x, y, z = q
    return np.array([[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)], [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)], [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]])
def ops(l):
    """rotation matrices generated by the class's generators"""
    G = [np.eye(3)]; gen = [mat(np.array(g, float)) for g in GEN[l]]; todo = list(G)
    while todo:
        a = todo.pop()
        for g in gen:
            c = g @ a
            if not any(np.abs(c - x).max() < 1e-6 for x in G): G.append(c); todo.append(c)
    return G
def recip(lp):
    """columns: reciprocal basis, x along a, z along c* (the setting of crystallometry: a along x, b in the xy plane)"""
    a, b, c = lp[:3]; al, be, ga = np.deg2rad(lp[3:])
    A = np.zeros((3, 3)); A[:, 0] = [a, 0, 0]; A[:, 1] = [b * np.cos(ga), b * np.sin(ga), 0]
    cy = c * (np.cos(al) - np.cos(be) * np.cos(ga)) / np.sin(ga); A[:, 2] = [c * np.cos(be), cy, np.sqrt(c * c - (c * np.cos(be)) ** 2 - cy * cy)]
    return np.linalg.inv(A).T
def h3of4(f): return [f[0], f[1], f[3]] if len(f) == 4 else list(f)
def orbit(l, lp, hkl):
    """symmetry equivalents of a plane and their opposites"""
    B = recip(lp); Bi = np.linalg.inv(B); out = set()
    for R in ops(l):
        v = np.rint(Bi @ R @ B @ np.asarray(hkl, float)); assert np.allclose(v, Bi @ R @ B @ np.asarray(hkl, float), atol=1e-6)
        out.add(tuple(int(x) for x in v)); out.add(tuple(int(-x) for x in v))
    return out
C = [1, 1, 1, 90, 90, 90]
PHASES = [(225, C, [[0, 0, 2], [1, 1, 1], [0, 2, 2], [1, 1, 3]]), (229, [2.87] * 3 + [90] * 3, [[0, 1, 1], [0, 0, 2], [1, 1, 2], [0, 1, 3]]), (227, [5.4] * 3 + [90] * 3, [[1, 1, 1], [0, 2, 2], [0, 0, 4], [1, 1, 3], [1, 3, 3]]),
          (205, [5.42] * 3 + [90] * 3, [[1, 1, 1], [0, 0, 2], [0, 2, 1], [1, 1, 2]]), (194, [1, 1, 1.63, 90, 90, 120], [[1, 0, -1, 0], [0, 0, 0, 2], [1, 0, -1, 1], [1, 0, -1, 2], [1, 1, -2, 0]]),
          (194, [3.2, 3.2, 5.2, 90, 90, 120], [[1, 0, 0], [0, 0, 2], [1, 0, 1], [1, 1, 2]]), (176, [9.4, 9.4, 6.9, 90, 90, 120], [[2, 1, 1], [0, 0, 2], [3, 0, 0], [1, 1, 2]]), (167, [4.99, 4.99, 17.06, 90, 90, 120], [[0, 1, 2], [1, 0, 4], [1, 1, 0], [1, 1, 3]]),
          (152, [4.9, 4.9, 5.4, 90, 90, 120], [[1, 0, -1, 1], [1, 0, -1, 0], [1, 1, -2, 2]]), (148, [4.8, 4.8, 16, 90, 90, 120], [[0, 1, 2], [1, 1, 0], [1, 0, 4]]), (139, [3.9, 3.9, 12.8, 90, 90, 90], [[1, 1, 0], [1, 0, 3], [0, 0, 4], [2, 1, 1]]),
          (87, [5.2, 5.2, 11.3, 90, 90, 90], [[1, 1, 2], [0, 0, 4], [2, 1, 1], [2, 0, 0]]), (62, [4.76, 10.2, 5.98, 90, 90, 90], [[1, 2, 0], [1, 1, 1], [0, 2, 1], [1, 3, 1]]), (14, [5.1, 5.2, 5.3, 90, 99.2, 90], [[1, 1, 1], [1, 1, -1], [0, 0, 2], [0, 2, 0], [2, 0, 0]]),
          (2, [3.1, 4.2, 5.3, 83, 95, 104], [[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, -1, 1]]), (225, C, [[1, 1, 1]]), (221, C, [[0, 1, 1]]), (194, [1, 1, 1.6, 90, 90, 120], [[1, 0, -1, 1]]), (225, C, [[1, 1, 1], [2, 2, 2], [0, 0, 2], [0, 0, 0]])]
EFF = {18: [[1, 1, 1], [0, 0, 2]]}     # parallel and zero reflectors are dropped
def eff(i): return EFF.get(i, [h3of4(f) for f in PHASES[i][2]])
LIB = {}
def phase(i, **k):
    key = (i, tuple(k.items()))
    if key not in LIB:
        sg, lp, fam = PHASES[i]; LIB[key] = tv.addphase(spacegroup=sg, latticeparameter=lp, polefamilies=fam, phasename="p%d" % i, **k)
    return LIB[key]
def planes(i):
    """one normal per plane (opposites counted once): hkl, family, unit vector"""
    sg, lp, _ = PHASES[i]; B = recip(lp); out = []
    for f, h in enumerate(eff(i)):
        seen = set()
        for v in sorted(orbit(laue(sg), lp, h)):
            if tuple(-x for x in v) in seen: continue
            seen.add(v); n = B @ np.array(v, float); out.append((v, f, n / np.linalg.norm(n)))
    return out
def rotm(rng):
    q = rng.normal(size=4); q /= np.linalg.norm(q); q = q if q[0] >= 0 else -q
    return q
