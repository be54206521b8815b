from tripcommon import *
from pyebsdindex import rotlib
S = Suite("T04", "3-12 weighted vector pairs, noise-free and noisy, rotations including identity, half turns and rotations within 1e-12..1e-2 of a half turn; permutations, common rotations, batches; optimum by an eigenvector of Davenport's matrix")
def rots(rng):
    out = [np.array([1., 0, 0, 0])]
    for k in range(14): out.append(rotm(rng))
    for ax in ([1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [.6, 0, .8], [1, 1, 1], rng.normal(size=3), rng.normal(size=3)):
        ax = np.array(ax, float) / np.linalg.norm(ax)
        for e in (0, 1e-12, 1e-9, 1e-6, 1e-4, 1e-2, np.pi / 2 - 1e-4): out.append(np.r_[np.sin(e), np.cos(e) * ax])
    return out
def davenport(B, P, w):
    """the rotation with P ~ R B that maximises sum w P.RB, by the eigenvector of the 4x4 matrix"""
    M = (w[:, None] * B).T @ P; s = np.trace(M); Sm = M + M.T; z = np.array([M[1, 2] - M[2, 1], M[2, 0] - M[0, 2], M[0, 1] - M[1, 0]])
    K = np.zeros((4, 4)); K[0, 0] = s; K[0, 1:] = K[1:, 0] = z; K[1:, 1:] = Sm - s * np.eye(3)
    v, V = np.linalg.eigh(K); return V[:, -1], v[-1], v[-1] - v[-2]
def same(a, b): return min(np.abs(a - b).max(), np.abs(a + b).max())
def judge(S, q, B, P, w, inp, exact=None, tol=1e-5):
    S.check(np.all(np.isfinite(q)) and abs(q @ q - 1) < 1e-6, "unit", inp, q); S.check(q[0] >= 0, "scalar part", inp, q)
    e, lam, gap = davenport(B, P, w / w.sum())
    val = lambda x: float((w / w.sum()) @ np.sum(P * (B @ mat(x).T), 1))
    S.check(val(q) > lam - 1e-7 - tol ** 2, "maximises the weighted agreement", inp, lambda: {"value": val(q), "optimum": lam, "q": q, "expected": e})
    if exact is not None: S.check(np.abs(B @ mat(q).T - P).max() < tol, "maps the bands onto the poles", inp, lambda: {"q": q, "rotation": exact})
def rot(q, V): return V @ mat(q).T
def solver(S):
    f = S.need(tv, "BandIndexer._orientation_quest_nb")
    for rep in range(2 * S.scale):
        for q in rots(S.rng):
            n = int(S.rng.integers(3, 9)); B = S.rng.normal(size=(n, 3)); B /= np.linalg.norm(B, axis=1, keepdims=True)
            if np.linalg.svd(B)[1][1] < .3: continue
            w = S.rng.uniform(.1, 1, n); P = rot(q, B)
            for noise in (0, .01):
                P1 = P + S.rng.normal(size=P.shape) * noise; P1 /= np.linalg.norm(P1, axis=1, keepdims=True)
                inp = {"rotation": q, "bands": B, "noise": noise, "weights": w}; S.cur = inp
                a = [x.copy() for x in (P1, B, w)]
                r = f(P1[None], B[None], w[None]); g = np.asarray(r[0])[0]
                S.check(all(np.array_equal(x, y) for x, y in zip(a, (P1, B, w))), "input unmodified", inp)
                judge(S, g, B, P1, w, inp, q if noise == 0 else None)
                S.check(abs(float(np.asarray(r[2])[0]) - np.mean(np.sum(P1 * rot(g, B), 1))) < 1e-6, "unweighted fit", inp)
                o = S.rng.permutation(n); g2 = np.asarray(f(P1[None][:, o], B[None][:, o], w[None][:, o])[0])[0]
                S.check(same(g, g2) < 1e-5, "order of the bands", inp, {"a": g, "b": g2})
                h = rotm(S.rng); g3 = np.asarray(f(P1[None], rot(h, B)[None], w[None])[0])[0]
                # P = q.B = q'.(h.B)  =>  rot(g3, rot(h, .)) = rot(g, .)
                X = np.eye(3); S.check(np.abs(rot(g3, rot(h, X)) - rot(g, X)).max() < 1e-4, "common rotation", inp, {"h": h})
def batch(S):
    f = S.need(tv, "BandIndexer._orientation_quest_nb")
    n, m = 6, 9; B = S.rng.normal(size=(n, m, 3)); B /= np.linalg.norm(B, axis=2, keepdims=True); q = [rotm(S.rng) for _ in range(n)]; q[2] = np.array([0, 0, 1., 0])
    P = np.array([rot(q[k], B[k]) for k in range(n)]); w = S.rng.uniform(.2, 1, (n, m)); w[1, 2:5] = 0; w[3, :] = 0; w[4, 3:] = 0; P[1, 2:5] = 1
    w[5] *= 1e-3
    r = f(P, B, w); Q = np.asarray(r[0])
    for k in range(n):
        s = f(P[k:k + 1], B[k:k + 1], w[k:k + 1]); inp = {"pattern": k}
        S.check(same(Q[k], np.asarray(s[0])[0]) < 1e-7, "batch", inp)
        if k != 3: judge(S, Q[k], B[k][w[k] > 0], P[k][w[k] > 0], w[k][w[k] > 0], inp, q[k])
    S.check(np.allclose(Q[3], [1, 0, 0, 0]) and float(np.asarray(r[2])[3]) <= -.99, "no bands", {"pattern": 3}, r[2][3])
def single(S):
    f = S.need(tv, "_orientation_quest_nb")
    for q in rots(S.rng):
        n = 6; B = S.rng.normal(size=(n, 3)); B /= np.linalg.norm(B, axis=1, keepdims=True); P = rot(q, B); w = S.rng.uniform(.1, 1, n)
        g, lam = f(P, B, w); judge(S, np.asarray(g), B, P, w, {"rotation": q, "bands": B}, q); S.check(abs(lam - 1) < 1e-6, "eigenvalue", {"rotation": q})
def whole(S):
    """through bandindex: the returned orientation reproduces noise-free bands, half turns included"""
    for k, q in enumerate(rots(S.rng)):
        i = (0, 4, 1)[k % 3]; P = planes(i); N = np.array([x[2] for x in P]); sel = S.rng.permutation(len(P))[:8]
        V = N[sel]; B = rot(q * [1, -1, -1, -1], V); B = B * np.where(B @ [.1, .2, 1] < 0, -1, 1)[:, None]
        p = phase(i, nband_earlyexit=20); inp = {"phase": PHASES[i][:2], "rotation": q, "planes": [P[x][0] for x in sel]}; S.cur = inp
        r = p.bandindex(B[None], band_intensity=np.linspace(2, 1, 8)[None]); g = np.asarray(r[0])[0]
        if int(r[4][0]) < 8: continue
        pm = np.asarray(r[3])[0]; S.check(np.abs(rot(g, B) - p.completelib["polesCart"][pm]).max() < 1e-4, "orientation", inp, lambda: {"q": g, "deviation": np.abs(rot(g, B) - p.completelib["polesCart"][pm]).max()})
        S.check(abs(g @ g - 1) < 1e-6 and g[0] >= 0, "canonical", inp, g); S.check(float(r[1][0]) < .05, "fit", inp, r[1])
        if S.late(): break
if __name__ == "__main__": S.run(solver, batch, single, whole)
