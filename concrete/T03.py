from tripcommon import *
S = Suite("T03", "patterns of 2-12 bands made from a random orientation of 8 phases plus noise, spurious, near-tolerance, parallel and invalid bands, and fully random band sets; the assignment step and the whole matching, single patterns and batches")
def case(S, i, kind, nb):
    P = planes(i); N = np.array([x[2] for x in P]); R = mat(rotm(S.rng))
    k = min(nb, len(P)); B = N[S.rng.permutation(len(P))[:k]] @ R.T
    if kind == "noise": B = B + S.rng.normal(size=B.shape) * .012
    if kind == "tolerance":  # some bands at 1.5 .. 2.5 degrees
        ax = np.cross(B, S.rng.normal(size=B.shape)); ax /= np.linalg.norm(ax, axis=1, keepdims=True); an = np.deg2rad(S.rng.uniform(1.5, 2.5, len(B))) * (S.rng.random(len(B)) < .5)
        B = B * np.cos(an)[:, None] + ax * np.sin(an)[:, None]
    if kind == "spurious": B[S.rng.permutation(k)[: k // 2]] = S.rng.normal(size=(k // 2, 3))
    if kind == "random": B = S.rng.normal(size=(nb, 3))
    if kind == "parallel": B[1:k:2] = B[0:k - (k % 2):2][: len(B[1:k:2])] + S.rng.normal(size=(len(B[1:k:2]), 3)) * .003
    if len(B) < nb: B = np.r_[B, S.rng.normal(size=(nb - len(B), 3))]
    B /= np.linalg.norm(B, axis=1, keepdims=True); B = B * np.where(B @ [.1, .2, 1] < 0, -1, 1)[:, None]
    I = np.sort(S.rng.uniform(.5, 3, nb))[::-1].copy()
    if kind == "invalid": I[nb // 2:] = 0; B[nb // 2:] = N[0] @ R.T
    return B, I
KIND = ["clean", "noise", "tolerance", "spurious", "random", "parallel", "invalid"]
def fits(B, R, cart): return np.rad2deg(np.arccos(np.clip(cart @ (R @ B.T), -1, 1)))     # pole x band
def judge(S, inp, p, B, I, out, R=None):
    q, fit, cm, pm, nm = out
    lab = pm >= 0; nb = len(B)
    S.check(pm.shape == (nb,), "one label slot per band", inp)
    S.check(nm == lab.sum() and nm <= (I >= 1e-6).sum(), "count equals labels", inp, {"nmatch": nm, "labels": pm})
    S.check(nm == 0 or nm >= 3, "at least three", inp, {"nmatch": nm})
    S.check(np.all(pm < len(p.completelib["poles"])), "label range", inp, pm)
    S.check(not np.any(lab & (I < 1e-6)), "invalid bands unlabelled", inp, {"labels": pm, "intensity": I})
    if nm == 0: S.check(fit >= 179.9 and np.allclose(q, [1, 0, 0, 0]) and not lab.any(), "not indexed", inp, {"fit": fit, "quat": q, "labels": pm})
def match(S):
    for rep in range(105 * S.scale):
        if S.late(): break
        i = (0, 1, 4, 7, 9, 11, 12, 14)[rep % 8]; kind = KIND[rep % 7]; nb = int(S.rng.integers(2, 9)) if rep % 5 else 12
        B, I = case(S, i, kind, nb); p = phase(i, nband_earlyexit=int(S.rng.choice([4, 8, 20])))
        inp = {"phase": PHASES[i][:2], "kind": kind, "bands": B, "intensity": I, "early exit": p.nband_earlyexit}; S.cur = inp
        B0, I0 = B.copy(), I.copy()
        cart = np.asarray(p.completelib["polesCart"], float)
        grab = {}; orig = p._assign_bands_nb
        p._assign_bands_nb = lambda *a: grab.setdefault("r", orig(*a))
        try: r = p.bandindex(B[None], band_intensity=I[None])
        finally: del p._assign_bands_nb
        S.check(np.array_equal(B, B0) and np.array_equal(I, I0), "input unmodified", inp)
        q, fit, cm, pm, nm = r[0][0], float(r[1][0]), float(r[2][0]), np.asarray(r[3])[0], int(r[4][0])
        judge(S, inp, p, B, I, (q, fit, cm, pm, nm))
        if "r" in grab:
            f0, m0, v0, n0, w0, ij, R, fb = [np.asarray(x)[0] for x in grab["r"]]
            S.check(n0 == nm and np.array_equal(pm[v0 > 0], m0[v0 > 0]) and np.array_equal(v0 > 0, pm >= 0), "labels as assigned", inp)
            if nm:
                S.check(np.allclose(R @ R.T, np.eye(3), atol=1e-4) and np.linalg.det(R) > .9, "rotation", inp, R)
                A = fits(B, R.astype(float), cart); best = A.min(0); l = pm >= 0
                S.check(all(A[pm[j], j] < p.angTol + .03 for j in np.nonzero(l)[0]), "within tolerance", inp, lambda: {"fit of labels": [float(A[pm[j], j]) for j in np.nonzero(l)[0]]})
                S.check(all(A[pm[j], j] < best[j] + .03 for j in np.nonzero(l)[0]), "closest pole", inp)
                S.check(np.all(best[~l & (I >= 1e-6)] > p.angTol - .03), "bands within tolerance are labelled", inp, lambda: {"fits": best, "labels": pm})
                S.check(abs(float(f0) - best[l].mean()) < .03, "fit is the mean", inp, {"fit": f0, "mean": best[l].mean()})
                # the reported orientation is that of the labels
                A2 = fits(B, mat(q), cart); d2 = np.array([A2[pm[j], j] for j in np.nonzero(l)[0]])
                S.check(d2.min() < p.angTol and np.median(d2) < 2 * p.angTol, "orientation belongs to the labels", inp, {"deviations": d2})
        if kind == "clean" and min(nb, len(planes(i))) >= 7 and nb <= len(planes(i)) and i in (0, 1, 4): S.check(nm >= min(nb, p.nband_earlyexit) - 1 and fit < .1, "clean pattern is indexed", inp, {"nmatch": nm, "fit": fit})
def batch(S):
    """each pattern of a batch is matched as if alone"""
    for rep in range(6 * S.scale):
        i = (0, 4, 12)[rep % 3]; nb = 7; p = phase(i)
        c = [case(S, i, KIND[(rep + k) % 7], nb) for k in range(5)]; B = np.array([x[0] for x in c]); I = np.array([x[1] for x in c])
        inp = {"phase": PHASES[i][:2], "bands": B, "intensity": I}; S.cur = inp
        r = p.bandindex(B, band_intensity=I)
        for k in range(5):
            s = p.bandindex(B[k:k + 1], band_intensity=I[k:k + 1])
            S.check(all(np.allclose(np.asarray(a)[k], np.asarray(b)[0], atol=1e-6) for a, b in zip(r, s)), "batch", lambda: dict(inp, pattern=k))
            if k == 0:
                t = p.bandindex(B[k], band_intensity=I[k])
                S.check(all(np.allclose(np.asarray(a)[0], np.asarray(b)[0], atol=1e-6) for a, b in zip(t, s)), "two-dimensional input", inp)
def few(S):
    p = phase(0)
    for nb in (1, 2, 3):
        B, I = case(S, 0, "clean", nb); inp = {"bands": B}; S.cur = inp
        r = p.bandindex(B[None], band_intensity=I[None])
        judge(S, inp, p, B, I, (r[0][0], float(r[1][0]), r[2][0], np.asarray(r[3])[0], int(r[4][0])))
        if nb < 3: S.check(int(r[4][0]) == 0, "too few bands", inp)
    B, I = case(S, 0, "clean", 6); r = p.bandindex(B[None], band_intensity=I[None] * 0)
    judge(S, "no valid band", p, B, I * 0, (r[0][0], float(r[1][0]), r[2][0], np.asarray(r[3])[0], int(r[4][0])))
if __name__ == "__main__": S.run(match, batch, few)
