from lib import *
import pyebsdindex.crystal_sym as cs
S = Suite("S01", "all 230 space groups; every operator pair of every Laue class; random orientations for the quatin form")
RANGES = [(1, 2, 1), (3, 15, 2), (16, 74, 22), (75, 88, 4), (89, 142, 42), (143, 148, 3), (149, 167, 32), (168, 176, 6), (177, 194, 62), (195, 206, 23), (207, 230, 43)]
ORDER = {1: 1, 2: 2, 22: 4, 4: 4, 42: 8, 3: 3, 32: 6, 6: 6, 62: 12, 23: 12, 43: 24}
h3 = np.sqrt(3) / 2; CUBE = np.eye(3); HEXA = np.array([[1, 0, 0], [-.5, h3, 0], [-.5, -h3, 0]]); Z = np.array([[0, 0, 1.]]); Y = np.array([[0, 1., 0]])
AXES = {1: [CUBE], 2: [Y], 22: [CUBE[:1], CUBE[1:2], Z], 4: [Z, CUBE[:2]], 42: [Z, CUBE[:2]], 3: [Z, HEXA], 32: [Z, HEXA], 6: [Z, HEXA], 62: [Z, HEXA], 23: [CUBE], 43: [CUBE]}
r2 = np.sqrt(.5)
GEN = {1: [], 2: [(0, 0, 1, 0)], 22: [(0, 1, 0, 0), (0, 0, 1, 0)], 4: [(r2, 0, 0, r2)], 42: [(r2, 0, 0, r2), (0, 1, 0, 0)], 3: [(.5, 0, 0, h3)], 32: [(.5, 0, 0, h3), (0, 1, 0, 0)],
       6: [(h3, 0, 0, .5)], 62: [(h3, 0, 0, .5), (0, 1, 0, 0)], 23: [(0, 1, 0, 0), (.5, .5, .5, .5)], 43: [(r2, 0, 0, r2), (.5, .5, .5, .5)]}
def ham(a, b):
    return np.array([a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3], a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2], a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1], a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0]])
def mat(q):
    w, x, y, z = q
    return np.array([[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)], [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)], [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]])
def isin(v, A): return np.min(np.minimum(np.abs(A - v).max(1), np.abs(A + v).max(1))) < 2e-6
def laue(S):
    for a, b, l in RANGES:
        for sg in range(a, b + 1): S.check(cs.spacegroup2lauenumber(sg) == l, "laue class", {"space group": sg}, lambda: {"got": cs.spacegroup2lauenumber(sg), "expected": l})
def group(S):
    for a, b, l in RANGES:
        for src, q in (("laueid2symops", cs.laueid2symops(l)), ("spacegroupnum2symops", cs.spacegroupnum2symops(a)), ("spacegroupnum2symops", cs.spacegroupnum2symops(b))):
            q = np.atleast_2d(np.asarray(q, float)); inp = {"laue": l, "via": src}
            if not S.check(q.shape == (ORDER[l], 4), "order", inp, {"shape": q.shape}): continue
            S.check(np.allclose((q * q).sum(1), 1, atol=1e-6), "unit operators", inp)
            S.check(isin(np.array([1., 0, 0, 0]), q), "identity", inp)
            for g in GEN[l]: S.check(isin(np.array(g), q), "defining rotations", dict(inp, rotation=g))
            for i in range(len(q)):
                S.check(isin(q[i] * [1, -1, -1, -1], q), "inverse", dict(inp, i=i))
                for j in range(len(q)):
                    if i != j: S.check(abs(q[i] @ q[j]) < .999, "distinct", dict(inp, i=i, j=j))
                    S.check(isin(ham(q[i], q[j]), q), "closed", dict(inp, i=i, j=j))
                for o in AXES[l]: S.check(all(isin(mat(q[i]) @ v, o) for v in o), "axes", dict(inp, i=i))
def quatin(S):
    fs = {"cubicsym_q": (43, 23), "hexsym_q": (62, 6), "trigonal_q": (32, 3), "tetragonal_q": (42, 4), "orthorhombic_q": (22, 22), "monoclinic_q": (2, 2), "triclinic_q": (1, 1)}
    for nm, ls in fs.items():
        f = S.need(cs, nm)
        for low in (False, True):
            ops = np.atleast_2d(f(low=low))
            S.check(len(ops) == ORDER[ls[1 if low else 0]], "order", {"function": nm, "low": low})
            for rep in range(5):
                a = S.rng.normal(size=4); a /= np.linalg.norm(a); a0 = a.copy()
                r = np.atleast_2d(f(a, low=low))
                S.check(np.array_equal(a, a0), "input unmodified", {"function": nm})
                S.check(r.shape == ops.shape and all(np.allclose(r[i], ham(ops[i].astype(float), a), atol=1e-6) for i in range(len(ops))), "equivalents", {"function": nm, "low": low, "q": a})
S.run(laue, group, quatin)
