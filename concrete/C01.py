from lib import *
from pyebsdindex.crystallometry import Crystal
S = Suite("C01", "unit cells of all seven systems and random triclinic ones, at scales 1e-10 to 1e4, angles down to 15 and up to 160 degrees; planes and directions up to index 6")
def cells(S):
    out = [(1, 1, 1, 90, 90, 90), (.3, .3, .5, 90, 90, 90), (.3, .4, .5, 90, 90, 90), (.3, .3, .5, 90, 90, 120), (.4, .4, .4, 60, 60, 60), (.4, .4, .4, 110, 110, 110), (.5, .9, .57, 90, 106.9, 90), (.814, 1.279, .716, 94.3, 116.6, 87.7), (.3, .3, .5, 90, 90, 90.001), (.2, 5., .4, 90, 95, 90), (1, 1, 1, 15, 15, 15), (1, 1, 1, 20, 90, 90), (1, 1, 1, 90, 90, 160), (1, 1, 1, 90, 160, 90), (1, 1, 1, 160, 90, 90)]
    while len(out) < 40 * S.scale:
        p = tuple(S.rng.uniform(.2, 3, 3)) + tuple(S.rng.uniform(40, 140, 3))
        ca, cb, cg = np.cos(np.deg2rad(p[3:]))
        if 1 - ca*ca - cb*cb - cg*cg + 2*ca*cb*cg > .02: out.append(p)
    return out
def mats(S):
    for p in cells(S):
        for sc in (1e-10, 1e-3, 1., 10., 1e4):
            l = np.array(p[:3]) * sc; inp = {"cell": tuple(l) + tuple(p[3:])}
            x = Crystal("x", *l, *p[3:])
            ca, cb, cg = np.cos(np.deg2rad(p[3:])); sg = np.sin(np.deg2rad(p[5]))
            a, b, c = l
            G = np.array([[a*a, a*b*cg, a*c*cb], [a*b*cg, b*b, b*c*ca], [a*c*cb, b*c*ca, c*c]])
            L1 = np.outer(l, l); R1 = 1 / L1
            ok = lambda A, B, s, nm: S.check(A.shape == (3, 3) and np.allclose(np.asarray(A) / s, np.asarray(B) / s, atol=1e-8 * max(1, np.abs(B / s).max())), nm, inp, lambda: {"got": A, "expected": B})
            ok(x.metricTensor, G, L1, "metric tensor")
            Gi = np.linalg.inv(G / L1) / L1
            ok(x.reciprocalMetricTensor, Gi, R1, "reciprocal metric tensor")
            A = x.directStructureMatrix; B = x.reciprocalStructureMatrix
            ok(A.T @ A, G, L1, "direct structure matrix"); ok(B.T @ B, Gi, R1, "reciprocal structure matrix")
            ok(B.T @ A, np.eye(3), np.outer(1 / l, l), "A and B dual"); ok(x.invDirectStructureMatrix @ A, np.eye(3), np.outer(1 / l, l), "inverse direct structure matrix")
            ok(x.invReciprocalStructureMatrix @ B, np.eye(3), np.outer(l, 1 / l), "inverse reciprocal structure matrix")
            S.check(np.linalg.det(A / l) > 0, "right handed", inp)
            S.check(abs(x.volume / (a * b * c) - np.sqrt(np.linalg.det(G / L1))) < 1e-8, "volume", inp)
            # plane spacing and normals against explicit basis vectors
            v = np.array([[a, 0, 0], [b * cg, b * sg, 0], [c * cb, c * (ca - cb * cg) / sg, 0]]); v[2, 2] = np.sqrt(max(c * c - v[2, 0]**2 - v[2, 1]**2, 0))
            h = S.rng.integers(-6, 7, 3)
            if not h.any(): continue
            rec = np.linalg.inv(v / l.max()).T / l.max(); n = h @ rec
            S.check(np.allclose(B @ h, n, atol=1e-8 * np.linalg.norm(n)), "plane normal", dict(inp, hkl=h), lambda: {"got": B @ h, "expected": n})
            S.check(abs(1 / np.sqrt(h @ x.reciprocalMetricTensor @ h) * np.linalg.norm(n) - 1) < 1e-8, "plane spacing", dict(inp, hkl=h))
            S.check(np.allclose(A @ h, h @ v, atol=1e-8 * l.max() * 20), "direction", dict(inp, uvw=h))
S.run(mats)
