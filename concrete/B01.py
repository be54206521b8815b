from lib import *
from pyebsdindex import radon_fast as rf
S = Suite("B01", "case = (detector shape, plan size, mask) x (row rho, theta); oracle = weights recovered from unit-impulse patterns against the geometry of the line x cos + y sin = rho about the detector centre")
rng = S.rng
def plan(H, W, nT, nR, mask=None, mv=-1.0, **k):
    return rf.Radon(imageDim=(H, W), nTheta=nT, nRho=nR, mask=None if mask is None else mask.copy(), missingval=mv, **k)
SH = [(8, 10), (10, 8), (9, 9), (7, 12), (6, 6), (1, 7), (11, 5)]
def mk(H, W, kind):
    if kind == 0: return None
    m = np.ones((H, W), dtype=int)
    if kind == 1:
        y, x = np.mgrid[:H, :W]; m[(y - (H - 1) / 2) ** 2 + (x - (W - 1) / 2) ** 2 > (0.4 * min(H, W)) ** 2] = 0
    if kind == 2: m[rng.random((H, W)) < 0.4] = 0
    if kind == 3: m[: H // 2] = 0
    return m
def weights(S):
    for H, W in SH[: 5 if S.quick else None]:
        for kind in range(4):
            nT, nR = (12, 14) if rng.random() < .5 else (9, 10)
            m = mk(H, W, kind); S.cur = (H, W, kind, nT, nR)
            P = plan(H, W, nT, nR, m)
            imp = np.eye(H * W, dtype=np.float32).reshape(H * W, H, W)
            w = P.radon_faster(imp)                              # nR, nT, H*W
            S.check(w.shape == (nR, nT, H * W), "weights:shape", S.cur)
            mm = np.ones((H, W), bool) if m is None else m > 0
            x = np.arange(W) - (W - 1) / 2; y = np.arange(H) - (H - 1) / 2
            rho, th = np.asarray(P.rho, float), np.asarray(P.theta, float)
            S.check(np.allclose(th, np.arange(nT) * 180.0 / nT) and np.allclose(np.diff(rho), 2 * P.rhoMax / nR) and abs(rho[-1] - P.rhoMax) < 1e-3, "weights:axes", S.cur, (th, rho))
            for i in range(nR):
                for j in range(nT):
                    v = w[i, j]; c, s = np.cos(np.deg2rad(th[j])), np.sin(np.deg2rad(th[j]))
                    if np.all(v == -1):
                        sup = np.zeros((H, W), bool)
                    else:
                        sup = (v != 0).reshape(H, W)
                    if abs(abs(s) - np.sqrt(.5)) < 1e-6: near = None
                    d = (x[None] * c + y[:, None] * s - rho[i])
                    ax = np.abs(d) / max(abs(s), abs(c))          # distance along the axis that is stepped through
                    must = (ax < 0.5 - 1e-3) & mm; may = (ax <= 0.5 + 1e-3) & mm
                    ok = np.all(must <= sup) and np.all(sup <= may)
                    if sup.any():
                        ok = ok and abs(v.sum() - 1) < 1e-5 and np.ptp(v[v != 0]) < 1e-6 and np.all(v >= 0)
                    S.check(ok, "weights:line", (H, W, kind, i, j), lambda: (v, must, rho[i], th[j]))
            if S.late(): return
def transform(S):
    for t in range(12 * S.scale):
        H, W = SH[int(rng.integers(5))]; kind = int(rng.integers(4)); m = mk(H, W, kind); mv = [-1.0, 0.0, -5.0][int(rng.integers(3))]
        nT, nR = int(rng.integers(4, 20)), int(rng.integers(4, 20))
        P = plan(H, W, nT, nR, m, mv); S.cur = (H, W, kind, nT, nR, mv)
        imp = np.eye(H * W, dtype=np.float32).reshape(H * W, H, W)
        w = P.radon_faster(imp).astype(float); emp = np.all(w == mv, axis=2) if mv != 0 else np.all(w == 0, axis=2)
        wt = np.where(emp[:, :, None], 0, w)
        n = int(rng.integers(1, 6))
        im = rng.normal(size=(n, H, W)).astype(np.float32) * 100 if t % 2 else rng.integers(0, 256, (n, H, W)).astype([np.uint8, np.uint16, np.float32][t % 3])
        im0 = im.copy()
        r = P.radon_faster(im)
        ref = np.einsum("ijk,nk->ijn", wt, im.reshape(n, -1).astype(float)) + mv * emp[:, :, None]
        S.check(np.array_equal(im, im0), "transform:input-modified", S.cur)
        S.check(r.shape == ref.shape and np.allclose(r, ref, atol=2e-2 + 1e-4 * np.abs(ref)), "transform:linear", S.cur, lambda: np.abs(r - ref).max())
        one = np.concatenate([P.radon_faster(im[k]) for k in range(n)], axis=2)
        S.check(np.allclose(one, r, atol=1e-3), "transform:stack-vs-single", S.cur)
        cst = P.radon_faster(np.full((2, H, W), 37.25, np.float32))
        S.check(np.allclose(np.where(emp[:, :, None], 37.25, cst), 37.25, rtol=1e-5), "transform:constant", S.cur)
        # the masked pixels have no influence
        if m is not None:
            im2 = im.astype(np.float32).copy(); im2[:, m == 0] = 1e6
            S.check(np.allclose(P.radon_faster(im2), r, atol=1e-3), "transform:masked", S.cur)
        pd = np.array([int(rng.integers(0, 4)), int(rng.integers(0, 4))])
        q = P.radon_faster(im, padding=pd)
        core = q[pd[0]:q.shape[0] - pd[0], pd[1]:q.shape[1] - pd[1]]
        out = q.copy(); out[pd[0]:q.shape[0] - pd[0], pd[1]:q.shape[1] - pd[1]] = mv
        S.check(q.shape == (nR + 2 * pd[0], nT + 2 * pd[1], n) and np.array_equal(core, r) and np.all(out == mv), "transform:padding", (S.cur, pd))
        bg = rng.random((H, W)).astype(np.float32) * 10
        S.check(np.allclose(P.radon_faster(im, background=bg), np.where(emp[:, :, None], mv, r - np.einsum("ijk,k->ij", wt, bg.ravel())[:, :, None]), atol=2e-2 + 1e-4 * np.abs(r)), "transform:background", S.cur)
        s = P.radon_faster(im, normalization=False)
        cnt = (wt > 0).sum(axis=2)
        S.check(np.allclose(np.where(emp[:, :, None], 0, s), np.where(emp[:, :, None], 0, r * cnt[:, :, None]), rtol=1e-3, atol=5e-2), "transform:unnormalised", S.cur)
        f = P.radon_fast(im)
        S.check(f.shape == r.shape and np.allclose(f, r, atol=2e-2 + 1e-4 * np.abs(r)), "transform:radon_fast", S.cur, lambda: np.abs(f - r).max())
        f = P.radon_fast(im[0], padding=pd, background=bg); g = P.radon_faster(im[0], padding=pd, background=bg)
        S.check(f.shape == g.shape and np.allclose(f, g, atol=2e-2 + 1e-4 * np.abs(g)), "transform:radon_fast-single-background", S.cur)
        if np.ptp(bg) > 0:
            f = P.radon_fast(im, background=bg + 1, background_method="DIVIDE"); g = P.radon_faster((im / (bg + 1)).astype(np.float32))
            S.check(np.allclose(f, g, atol=2e-2 + 1e-4 * np.abs(g)), "transform:divide-background", S.cur)
        # maskindex: permuted storage of the pixels
        if m is None:
            perm = rng.permutation(H * W).reshape(H, W)
            Q = rf.Radon(imageDim=(H, W), nTheta=nT, nRho=nR, maskindex=perm, missingval=mv)
            st = np.empty_like(im.reshape(n, -1)); st[:, perm.ravel()] = im.reshape(n, -1)
            S.check(np.allclose(Q.radon_faster(st.reshape(n, H, W)), r, atol=1e-2 + 1e-4 * np.abs(r)), "transform:maskindex", S.cur)
        fa = P.radon_faster(im, fixArtifacts=True, padding=pd)
        a = pd[1]
        if nT >= 3:
            e = q.copy(); e[:, a] = e[:, a + 1]; e[:, e.shape[1] - 1 - a] = e[:, e.shape[1] - 2 - a]
            S.check(np.array_equal(fa, e), "transform:fixArtifacts", S.cur)
S.run(weights, transform)
