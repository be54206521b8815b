from nlparcommon import *
S = Suite("N01", "case = scan size x search radius x lambda/threshold x chunk size; every pattern carries a one-hot identity in pixels outside the mask, so the output exposes the weights that were used")
rng = S.rng
def weights(S):
    for t in range(60 * S.scale):
        nr, nc = SCANS[int(rng.integers(len(SCANS)))] if t >= len(SCANS) else SCANS[t]
        sr = int(rng.integers(0, 5)); n = nr * nc
        lam = [0.3, 0.7, 1.5, 5.0][int(rng.integers(4))]; dth = [0.0, 0.5, -0.3, 3.0][int(rng.integers(4))]
        chunk = int(rng.integers(0, nr + 2)); sat = bool(rng.integers(2)); off = [0.0, 0.25][int(rng.integers(4)) // 3]
        kind = int(rng.integers(4))
        H = 2; W = 6 + n                                 # 12 measured pixels, the rest hold the identity
        data = np.zeros((n, H, W), np.float32)
        base = rng.normal(size=(1, H, 6)) * 50 + 200
        data[:, :, :6] = base + rng.normal(size=(n, H, 6)) * [0.0, 1.0, 30.0, 5.0][kind]
        if kind == 3: data[: n // 2, :, :6] += 90
        data[np.arange(n), 0, 6 + np.arange(n)] = 64.0
        data[:, 1, 6] = 400.0                            # common maximum keeps the saturation threshold away
        mask = np.zeros((H, W), np.uint8); mask[:, :6] = 1
        sig = None if rng.random() < .6 else (rng.random((nr, nc)).astype(np.float32) * 5 + (0 if rng.random() < .5 else .5))
        inp = dict(nr=nr, nc=nc, sr=sr, lam=lam, dthresh=dth, chunk=chunk, sat=sat, kind=kind, diff_offset=off)
        S.cur = inp
        fin = Mem(nr, nc, H, W, data=data.copy())
        fo, _ = run(fin, mask, sig, chunk, searchradius=sr, lam=lam, dthresh=dth, saturation_protect=sat, diff_offset=off)
        w = fo.data[:, 0, 6:6 + n] / 64.0
        win = inwin(nr, nc, sr)
        S.check(np.array_equal(fin.data, data), "weights:input-modified", inp)
        S.check(np.all(np.isfinite(w)) and np.all(w >= -1e-6), "weights:non-negative", inp, lambda: w.min())
        S.check(np.allclose(w.sum(axis=1), 1, atol=1e-4), "weights:sum-to-one", inp, lambda: w.sum(axis=1))
        S.check(np.all(np.abs(w[~win]) < 1e-7), "weights:outside-the-window", inp, lambda: np.argwhere((np.abs(w) > 1e-7) & ~win)[:5])
        S.check(np.all(np.diag(w) > 0), "weights:own-pattern", inp, lambda: np.diag(w))
        if kind == 0 and sig is None or lam == 5.0 and dth == 3.0 and kind == 0:
            S.check(np.all(w[win] > 1e-4), "weights:whole-window-used", inp, lambda: np.argwhere((w <= 1e-4) & win)[:5])
        ref = np.einsum("ij,jk->ik", w, data.reshape(n, -1))
        S.check(np.allclose(fo.data.reshape(n, -1), ref, rtol=1e-4, atol=0.05), "weights:mean-of-patterns", inp)
        if S.late(): break
def influence(S):
    for t in range(20 * S.scale):
        nr, nc = SCANS[int(rng.integers(len(SCANS)))]; sr = int(rng.integers(1, 4)); n = nr * nc
        data = (rng.normal(size=(1, 3, 4)) * 30 + 200 + rng.normal(size=(n, 3, 4)) * 3).astype(np.float32)
        chunk = int(rng.integers(0, nr + 1)); sg = np.full((nr, nc), 3.0, np.float32)
        k = int(rng.integers(n)); d2 = data.copy(); d2[k] = rng.random((3, 4)) * 500
        inp = dict(nr=nr, nc=nc, sr=sr, chunk=chunk, changed=k); S.cur = inp
        a, _ = run(Mem(nr, nc, 3, 4, data=data), None, sg.copy(), chunk, searchradius=sr, saturation_protect=False)
        b, _ = run(Mem(nr, nc, 3, 4, data=d2), None, sg.copy(), chunk, searchradius=sr, saturation_protect=False)
        win = inwin(nr, nc, sr)[:, k]
        S.check(np.array_equal(a.data[~win], b.data[~win]), "influence:outside-the-window", inp)
        lo = np.array([data[w].min(axis=0) for w in inwin(nr, nc, sr)]); hi = np.array([data[w].max(axis=0) for w in inwin(nr, nc, sr)])
        S.check(np.all(a.data >= lo - .01) and np.all(a.data <= hi + .01), "influence:range", inp)
        one = np.repeat(data[:1], n, axis=0)
        for sat in (True, False):
            c, _ = run(Mem(nr, nc, 3, 4, data=one), None, None if t % 2 else sg.copy(), chunk, searchradius=sr, saturation_protect=sat)
            S.check(np.allclose(c.data, one, rtol=1e-5), "influence:identical-patterns", (inp, sat))
def wide(S):
    """scans so wide or long that linear positions inside one window differ by powers of two; every pattern from scratch"""
    for nr, nc, sr in [(7, 128, 3), (6, 86, 3), (40, 33, 4)] + ([(9, 256, 4), (5, 512, 2), (5, 1024, 2)] if not S.quick else []):
        n = nr * nc; data = (rng.normal(size=(1, 2, 4)) * 30 + 200 + rng.normal(size=(n, 2, 4)) * 4).astype(np.float32); sg = np.full((nr, nc), 3.0, np.float32)
        inp = dict(nr=nr, nc=nc, sr=sr); S.cur = inp
        a, _ = run(Mem(nr, nc, 2, 4, data=data), None, sg.copy(), 0, searchradius=sr, lam=.7, dthresh=0.0, saturation_protect=False)
        d = data.reshape(n, 8).astype(np.float64); idx = np.arange(n).reshape(nr, nc); w = inwin(nr, nc, sr)
        ref = np.zeros((n, 8)); m = 8
        for k in range(n):
            j = np.flatnonzero(w[k]); dd = ((d[j] - d[k]) ** 2).sum(axis=1); o = j != k; s2 = 18.0
            # squared distance in units of its standard deviation, as documented (Brewick et al. 2019)
            q = (dd - m * s2) / (s2 * np.sqrt(2.0 * m)); q[~o] = 0; wt = np.exp(-np.maximum(q, 0) / .7 ** 2)
            ref[k] = (wt[:, None] * d[j]).sum(axis=0) / wt.sum()
        bad = np.flatnonzero(np.abs(a.data.reshape(n, 8) - ref).max(axis=1) > .05)
        S.check(bad.size == 0, "wide:documented weights", inp, lambda: {"points": bad[:10].tolist(), "got": a.data.reshape(n, 8)[bad[:2]], "expected": ref[bad[:2]]})
S.run(weights, influence, wide)
