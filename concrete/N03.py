from nlparcommon import *
S = Suite("N03", "case = scan size x neighbourhood x mask x duplicates x chunk size; oracle = brute-force smallest root mean square difference / sqrt 2 over the neighbourhood")
rng = S.rng
def ref(data, nr, nc, nn, mask, sat):
    p = data.reshape(nr * nc, -1)[:, mask.ravel() > 0].astype(float); out = np.full((nr, nc), 1e12)
    mx = data.max() * 0.9961 if sat else np.inf
    for r in range(nr):
        for c in range(nc):
            best = None
            for y in range(max(0, r - nn), min(nr, r + nn + 1)):
                for x in range(max(0, c - nn), min(nc, c + nn + 1)):
                    if (y, x) == (r, c): continue
                    a, b = p[r * nc + c], p[y * nc + x]; ok = (a < mx) & (b < mx)
                    d2 = ((a - b)[ok] ** 2).sum()
                    if d2 >= 1e-3:
                        s = d2 / (2.0 * ok.sum()); best = s if best is None or s < best else best
            if best is not None: out[r, c] = np.sqrt(best)
    return out
def brute(S):
    for t in range(60 * S.scale):
        nr, nc = SCANS[int(rng.integers(len(SCANS)))] if t >= len(SCANS) else SCANS[t]
        nn = int(rng.integers(1, 4)); n = nr * nc; H, W = 3, 4
        data = (rng.normal(size=(1, H, W)) * 30 + 200 + rng.normal(size=(n, H, W)) * rng.choice([1, 8, 40], size=(n, 1, 1))).astype(np.float32)
        if t % 3 == 0 and n > 2: data[1:] = np.where(rng.random((n - 1, 1, 1)) < .3, data[:-1], data[1:])
        mask = (rng.random((H, W)) < .7).astype(np.uint8); mask[0, 0] = 1
        sat = bool(rng.integers(2))
        if sat: data[:, 0, 0] = 600
        if sat: mask[1, 1] = 1
        R = ref(data, nr, nc, nn, mask, sat)
        for ch in sorted(set([0, 1, 2, nr])):
            inp = dict(nr=nr, nc=nc, nn=nn, chunk=ch, sat=sat, mask=mask.tolist()); S.cur = inp
            f = Mem(nr, nc, H, W, data=data.copy()); a = N().bind(f); a.mask = mask.copy()
            s = quiet(a.calcsigma, chunksize=ch, nn=nn, saturation_protect=sat, automask=False)
            S.check(s.shape == (nr, nc) and np.allclose(s, R, rtol=1e-4), "brute:smallest-difference", inp, lambda: (s, R))
            S.check(np.array_equal(f.data, data) and np.array_equal(a.mask, mask), "brute:input-modified", inp)
        if not sat or True:
            a = N().bind(Mem(nr, nc, H, W, data=data * np.float32(4))); a.mask = mask.copy()
            s4 = quiet(a.calcsigma, chunksize=0, nn=nn, saturation_protect=sat, automask=False)
            w = R < 1e11
            S.check(np.allclose(s4[w], 4 * R[w], rtol=1e-4), "brute:scales", inp)
        if S.late(): return
def masks(S):
    am = S.need(N, "automask")
    for H, W in [(5, 5), (8, 10), (10, 8), (7, 12), (60, 60), (1, 4)]:
        m = am(H, W); S.check(m.shape == (H, W) and set(np.unique(m)) <= {0, 1}, "masks:automask", (H, W))
    # pixels outside the mask have no influence
    for t in range(6 * S.scale):
        nr, nc = SCANS[int(rng.integers(4, len(SCANS)))]; d = (rng.random((nr * nc, 9, 9)) * 100).astype(np.float32)
        a = N().bind(Mem(nr, nc, 9, 9, data=d)); s = quiet(a.calcsigma, chunksize=2, saturation_protect=False); m = a.mask
        d2 = d.copy(); d2[:, m == 0] = rng.random((nr * nc, int((m == 0).sum()))) * 1e4
        s2 = quiet(N().bind(Mem(nr, nc, 9, 9, data=d2)).calcsigma, chunksize=0, saturation_protect=False)
        S.cur = (nr, nc); S.check(np.allclose(s, s2, rtol=1e-5), "masks:no-influence", S.cur)
def saturation(S):
    nr, nc = 8, 3
    data = (rng.normal(size=(1, 4, 5)) * 30 + 200 + rng.normal(size=(nr * nc, 4, 5)) * 5).astype(np.float32)
    data = np.minimum(data, 240); data[:12] *= 0.5
    S.cur = "upper half of the scan darker than the lower half"
    r = []
    for ch in (nr, 2):
        a = N().bind(Mem(nr, nc, 4, 5, data=data)); a.mask = np.ones((4, 5), np.uint8)
        r.append(quiet(a.calcsigma, chunksize=ch, saturation_protect=True, automask=False))
    S.check(np.allclose(r[0], r[1], rtol=1e-5), "saturation:threshold-per-chunk", S.cur, lambda: r)
S.run(brute, masks, saturation)
