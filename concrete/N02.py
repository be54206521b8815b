from nlparcommon import *
import tempfile, os
S = Suite("N02", "case = scan size x search radius x chunk sizes; the whole-scan result is compared with every chunking, tilings are enumerated, and real pattern files are denoised")
rng = S.rng
def chunks(S):
    for t in range(40 * S.scale):
        nr, nc = SCANS[int(rng.integers(len(SCANS)))] if t >= len(SCANS) else SCANS[t]
        sr = int(rng.integers(0, 5)); n = nr * nc
        data = (rng.normal(size=(1, 3, 4)) * 30 + 200 + rng.normal(size=(n, 3, 4)) * 5).astype(np.float32)
        sat = bool(rng.integers(2))
        if sat: data[:, 0, 0] = 500                   # every pattern reaches the same maximum
        sg = None if t % 2 else (rng.random((nr, nc)).astype(np.float32) * 5 + .5)
        kw = dict(searchradius=sr, lam=[.5, .9, 3.0][t % 3], dthresh=[0.0, .4][t % 2], saturation_protect=sat, diff_offset=[0.0, 0.1][int(rng.integers(3)) // 2])
        whole, nw = run(Mem(nr, nc, 3, 4, data=data.copy()), None, None if sg is None else sg.copy(), nr + int(rng.integers(0, 3)), **kw)
        for ch in sorted(set([1, 2, 3, max(1, nr - 1), nr]) - ({2} if S.quick and t % 2 else set())):
            inp = dict(nr=nr, nc=nc, chunk=ch, sigma="given" if sg is not None else "estimated", **kw); S.cur = inp
            fin = Mem(nr, nc, 3, 4, data=data.copy())
            o, nn = run(fin, None, None if sg is None else sg.copy(), ch, **kw)
            S.check(np.all(o.written == 1), "chunks:written-once", inp, lambda: o.written)
            S.check(np.allclose(o.data, whole.data, rtol=2e-5, atol=1e-3), "chunks:same-result", inp, lambda: (np.abs(o.data - whole.data).max(), np.argwhere(np.abs(o.data - whole.data) > 1e-3)[:4]))
            S.check(np.array_equal(fin.data, data), "chunks:input-modified", inp)
            if sg is None: S.check(np.shape(nn.sigma) == (nr, nc) and np.allclose(nn.sigma, nw.sigma, rtol=1e-5), "chunks:sigma-kept", inp)
            else: S.check(np.array_equal(nn.sigma, sg), "chunks:sigma-kept", inp)
        if S.late(): return
def position(S):
    """with a vanishing lambda every pattern is reproduced in its own place"""
    for t in range(24 * S.scale):
        nr, nc = SCANS[t % len(SCANS)]; n = nr * nc; sr = int(rng.integers(0, 4))
        data = (rng.random((n, 2, 5)) * 1000).astype(np.float32)
        ch = int(rng.integers(1, nr + 1)); sgs = [np.full((nr, nc), 1e-3, np.float32), 1e-3, np.float32(1e-3), np.array([1e-3], np.float32)]
        inp = dict(nr=nr, nc=nc, sr=sr, chunk=ch, sigma=t % 4); S.cur = inp
        o, _ = run(Mem(nr, nc, 2, 5, data=data), None, sgs[t % 4], ch, searchradius=sr, lam=1e-2, saturation_protect=False)
        S.check(np.allclose(o.data, data, rtol=1e-5) and np.all(o.written == 1), "position:own-place", inp)
def saturation(S):
    """saturated pixels must be recognised the same way however the scan is split"""
    nr, nc = 8, 3
    data = (rng.normal(size=(1, 4, 5)) * 30 + 200 + rng.normal(size=(nr * nc, 4, 5)) * 5).astype(np.float32)
    data = np.minimum(data, 240); data[:12] *= 0.5     # the upper half of the scan never reaches the maximum
    S.cur = "upper half of the scan darker than the lower half"
    r = [run(Mem(nr, nc, 4, 5, data=data), None, np.full((nr, nc), 3, np.float32), ch, searchradius=1, saturation_protect=True)[0].data for ch in (nr, 2)]
    S.check(np.allclose(r[0], r[1], rtol=1e-5), "saturation:threshold-per-chunk", S.cur, lambda: np.abs(r[0] - r[1]).max())
def tiles(S):
    calc = S.need(N, "_calcchunks"); n_ = N()
    for nc in [1, 2, 3, 4, 7, 11, 40]:
        for nr in [1, 2, 3, 5, 8, 13, 41]:
            for ov in [0, 1, 2, 3, 5]:
                for tb in [1, 200, 800, 3000, 2e4, 1e9]:
                    inp = dict(ncol=nc, nrow=nr, overlap=ov, bytes=tb); S.cur = inp
                    a, b, C, R = calc(n_, [4, 5], nc, nr, target_bytes=tb, col_overlap=ov, row_overlap=ov)
                    for n, k, T in ((nc, a, C), (nr, b, R)):
                        T = np.asarray(T)
                        S.check(len(T) == k and T.min() >= 0 and T.max() <= n and np.all(T[:, 1] > T[:, 0]), "tiles:inside", inp, T)
                        own = np.zeros(n, int); ok = True
                        for q in range(k):
                            s = T[q, 0] + (ov if q > 0 else 0); e = T[q, 1] - (ov if q < k - 1 else 0)
                            ok = ok and 0 <= s <= e <= n and T[q, 0] <= max(0, s - ov) and T[q, 1] >= min(n, e + ov)
                            own[max(s, 0):max(e, 0)] += 1
                        S.check(ok, "tiles:margin", inp, T); S.check(np.all(own >= 1), "tiles:cover", inp, T)
def files(S):
    """denoising real files: every pattern is written at its own position of the output file"""
    for t, (ext, dt) in enumerate([(".up1", np.uint8), (".up2", np.uint16)] * (2 if S.quick else 6)):
        with tempfile.TemporaryDirectory() as d:
            nr, nc, H, W = [(5, 4), (3, 7), (2, 3), (8, 2)][t % 4] + (5, 6); n = nr * nc
            u = ebsd_pattern.UPFile(os.path.join(d, "scan" + ext))
            u.patternH, u.patternW, u.nRows, u.nCols, u.nPatterns = H, W, nr, nc, n
            u.xStep = u.yStep = 0.5; u.version = 3
            u.write_header(writeBlank=True)
            top = 250 if dt is np.uint8 else 60000
            pats = rng.integers(0, top, (n, H, W)).astype(dt)
            u.write_data(newpatterns=pats, patStartCount=[0, n])
            res = []
            for ch in (1, 2, nr):
                nl = nlpar_cpu.NLPAR(os.path.join(d, "scan" + ext)); nl.sigma = np.full((nr, nc), 1e-2, np.float32) if t % 2 else None
                out = None if ch == 2 else os.path.join(d, "o%d%s" % (ch, ext))
                lam = 1e-2 if t % 2 else 0.8
                S.cur = (ext, nr, nc, ch, out is None)
                p = quiet(nl.calcnlpar, chunksize=ch, searchradius=1 + t % 2, lam=lam, verbose=0, automask=False, saturation_protect=False, fileout=out)
                o = ebsd_pattern.get_pattern_file_obj(p); r = o.read_data(returnArrayOnly=True)[0]; res.append(r)
                S.check(all(getattr(o, q) == getattr(u, q) for q in "nRows nCols nPatterns patternW patternH xStep yStep".split()), "files:header", S.cur)
                if t % 2: S.check(np.array_equal(r, pats), "files:position", S.cur, lambda: np.argwhere((r != pats).any(axis=(1, 2))).ravel()[:10])
            S.check(all(np.abs(q.astype(int) - res[0].astype(int)).max() <= 1 for q in res), "files:same-result", S.cur)
            S.check(np.array_equal(ebsd_pattern.get_pattern_file_obj(os.path.join(d, "scan" + ext)).read_data(returnArrayOnly=True)[0], pats), "files:input-unchanged", S.cur)
S.run(chunks, position, tiles, files, saturation)
