from patcommon import *
S = Suite("B02", "synthetic patterns, noise, gradients and flat patterns, several shapes, samplings, masks and numbers of bands; local maxima by brute force over the window; crafted transforms with fewer maxima than requested")
def maxima(conv, mask, win):
    """brute force: inside the mask, equal to the largest value of its window"""
    H, W = conv.shape; a, b = win[0] // 2, win[1] // 2; out = []
    for r, c in np.argwhere(mask):
        if conv[r, c] >= conv[max(0, r - a):r + a + 1, max(0, c - b):c + b + 1].max(): out.append((r, c))
    return out
def judge(S, d, conv, row, inp, nB):
    pad = d.padding; mask = np.zeros(conv.shape, bool); mask[pad[0]:-pad[0], pad[1]:-pad[1]] = d.rdnmask > 0
    mx = [(r, c) for r, c in maxima(conv, mask, d.peakPad) if conv[r, c] > 0]; val = sorted((float(conv[p]) for p in mx), reverse=True)
    v = row["valid"] != 0; k = int(v.sum())
    S.check(np.all(v[:k]), "valid bands first", inp, v); S.check(k == min(nB, len(mx)), "number of bands", inp, {"valid": k, "maxima": len(mx)})
    loc = np.rint(row["maxloc"][:k]).astype(int) + pad; ls = [tuple(x) for x in loc]
    S.check(len(set(ls)) == len(ls), "distinct", inp, ls); S.check(all(p in mx for p in ls), "local maxima in the searched region", inp, lambda: [p for p in ls if p not in mx])
    if all(0 <= p[0] < conv.shape[0] and 0 <= p[1] < conv.shape[1] for p in ls):
        got = [float(conv[p]) for p in ls]; S.check(np.all(np.diff(got) <= 1e-6), "decreasing strength", inp, got); S.check(np.allclose(got, val[:k], rtol=1e-5, atol=1e-7), "strongest maxima", inp, lambda: {"got": got, "strongest": val[:k]})
        S.check(np.allclose(row["max"][:k] * max(conv.mean(), 1e-12), got, rtol=1e-3, atol=1e-6), "strength", inp)
    S.check(np.abs(row["aveloc"][:k] - row["maxloc"][:k]).max(initial=0) <= 1, "sub-pixel position", inp, lambda: row["aveloc"][:k] - row["maxloc"][:k])
    S.check(np.all(np.diff(row["max"][:k]) <= 1e-5), "reported strength decreases", inp)
def subpix(conv, r, c):
    z = conv[r-1:r+2, c-1:c+2]; g = np.array([.5*(z[2,1]-z[0,1]), .5*(z[1,2]-z[1,0])]); Hh = np.array([[z[2,1]+z[0,1]-2*z[1,1], .25*(z[2,2]-z[0,2]-z[2,0]+z[0,0])], [0, z[1,2]+z[1,0]-2*z[1,1]]]); Hh[1,0] = Hh[0,1]
    return g, Hh
def images(S):
    cfg = [((40, 48), 60, 30, 6, None), ((36, 36), 45, 40, 12, None), ((48, 40), 90, 30, 4, "mask"), ((40, 40), 36, 24, 9, "neg")]
    for shape, nT, nR, nB, m in cfg[: 4]:
        k = {}
        if m == "mask": pm = np.ones(shape, np.uint8); pm[:, :8] = 0; k = {"patternmask": pm}
        d = bdm.BandDetect(patDim=shape, nTheta=nT, nRho=nR, tSigma=1.0, rSigma=1.2, rhoMaskFrac=(-.2 if m == "neg" else .1), nBands=nB, **k)
        st = stack(S.rng, 0, 6, shape); st[5] = 0; inp0 = {"shape": shape, "nTheta": nT, "nRho": nR, "nBands": nB, "variant": m}; S.cur = inp0
        got = {}; orig = d.rdn_local_max
        def grab(c, *a, **q): got["conv"] = np.array(c); return orig(c, *a, **q)
        d.rdn_local_max = grab; bd = d.find_bands(st); del d.rdn_local_max
        S.check(bd.shape == (6, nB), "shape", inp0)
        if "conv" not in got: S.skipped.append("images: local maximum step not called"); continue
        for q in range(6): judge(S, d, got["conv"][:, :, q], bd[q], dict(inp0, pattern=q), nB)
        dz = d.find_bands(np.zeros((1,) + shape, np.float32)) if m is None and shape[0] == shape[1] else None
        if dz is not None: S.check(not np.any(dz["valid"]), "flat transform has no bands", inp0, dz["valid"])
        rad = d.radonPlan; rad.radon2pole(bd, PC=[.5, .6, .65]); th = np.pi - np.deg2rad(np.interp(bd["aveloc"][:, :, 1], np.arange(nT), rad.theta)); rh = -np.interp(bd["aveloc"][:, :, 0], np.arange(nR), rad.rho)
        v = bd["valid"] > 0; S.check(np.allclose(bd["theta"][v], th[v], atol=1e-5) and np.allclose(bd["rho"][v], rh[v], atol=1e-4), "angle and distance", inp0)
def crafted(S):
    """transforms with known peaks"""
    d = bdm.BandDetect(patDim=(40, 40), nTheta=60, nRho=40, tSigma=1.0, rSigma=1.2, rhoMaskFrac=.1, nBands=8); pad = d.padding; shp = (40 + 2 * pad[0], 60 + 2 * pad[1]); wh = np.argwhere(d.rdnmask > 0)
    for rep in range(12 * S.scale):
        n = int(S.rng.integers(0, 7)); conv = np.zeros(shp + (2,), np.float32); y, x = np.mgrid[0:shp[0], 0:shp[1]]; pk = [[], []]
        for q in range(2):
            for t in range(200):
                if len(pk[q]) >= (n if q == 0 else 12): break
                r, c = wh[S.rng.integers(len(wh))] + pad
                if any(abs(r - a) <= d.peakPad[0] // 2 + 5 and abs(c - b) <= d.peakPad[1] // 2 + 5 for a, b in pk[q]): continue
                o = S.rng.uniform(-.4, .4, 2); pk[q].append((r, c)); conv[:, :, q] = np.maximum(conv[:, :, q], (S.rng.uniform(1, 9) * np.exp(-((y - r - o[0]) ** 2 + (x - c - o[1]) ** 2) / 3)).astype(np.float32))
        conv[conv < 1e-3] = 0; lm = d.rdn_local_max(conv); bd = d.band_label(2, conv, conv, lm)
        for q in range(2):
            inp = {"peaks": [tuple(int(v) for v in p) for p in pk[q]], "pattern": q, "peak window": d.peakPad}; S.cur = inp
            judge(S, d, conv[:, :, q], bd[q], inp, 8)
            S.check(int((bd["valid"][q] > 0).sum()) <= 8 and (q or int((bd["valid"][q] > 0).sum()) == len(pk[0])), "fewer maxima than requested", inp, bd["valid"][q])
            for k in np.nonzero(bd["valid"][q])[0]:
                r, c = np.rint(bd["maxloc"][q, k]).astype(int) + pad; g, Hh = subpix(conv[:, :, q], r, c)
                e = -np.linalg.solve(Hh, g); 
                if np.abs(e).max() < .8: S.check(np.abs(bd["aveloc"][q, k] - bd["maxloc"][q, k] - e).max() < 2e-2, "parabolic peak position", inp, lambda: {"got": bd["aveloc"][q, k] - bd["maxloc"][q, k], "expected": e})
def peaks(S):
    """a single stripe is found where it is"""
    for rep in range(6 * S.scale):
        shape = [(48, 48), (40, 56), (56, 40)][rep % 3]; H, W = shape; d = bdm.BandDetect(patDim=shape, nTheta=90, nRho=45, tSigma=1.0, rSigma=1.2, rhoMaskFrac=.1, nBands=3)
        th, rho = S.rng.uniform(.2, 2.9), S.rng.uniform(-.45, .45) * min(H, W) / 2; y, x = np.mgrid[0:H, 0:W]; 
        im = np.exp(-(((x + .5 - W / 2) * np.cos(th) + ((H - y - .5) - H / 2) * np.sin(th) - rho) / 2.0) ** 2)
        bd = d.find_bands(im[None].astype(np.float32)); d.radonPlan.radon2pole(bd, PC=[.5, .5, .6]); t, r = float(bd["theta"][0, 0]), float(bd["rho"][0, 0])
        inp = {"shape": shape, "theta": th, "rho": rho}
        # (theta, rho) and (theta + pi, -rho) are the same line
        dt = (t - th + np.pi / 2) % np.pi - np.pi / 2; sg = 1 if abs(((t - th + np.pi) % (2 * np.pi)) - np.pi) < np.pi / 2 else -1
        S.check(bd["valid"][0, 0] and abs(dt) < np.deg2rad(4) and abs(sg * r - rho) < 2.0, "stripe located", inp, {"theta": t, "rho": r})
if __name__ == "__main__": S.run(images, crafted, peaks)
