from tripcommon import *
S = Suite("T01", "18 phases of all 11 Laue classes with three- and four-index reflectors, single-family phases, parallel and zero reflectors; each expansion against the orbit under independently generated rotations")
def one(S, i):
    sg, lp, fam = PHASES[i]; F = eff(i); l = laue(sg)
    inp = {"space group": sg, "lattice": lp, "reflectors": fam}; S.cur = inp
    p = phase(i); c = p.completelib
    if not S.check(p.npolefamilies == len(F), "families", inp, lambda: p.npolefamilies): return
    pol = np.asarray(c["poles"], float); cart = np.asarray(c["polesCart"], float); fid = np.asarray(c["familyid"]); n = len(pol)
    S.check(np.abs(pol - np.rint(pol)).max() < .02, "integer indices", inp)
    hk = [tuple(int(x) for x in np.rint(v)) for v in pol]
    S.check(cart.shape == (n, 3) and fid.shape == (n,) and np.shape(c["angTable"]) == (n, n), "sizes", inp)
    B = recip(lp)
    for f, h in enumerate(F):
        a = int(c["famIndex"][f]); b = a + int(c["nFamily"][f]); got = hk[a:b]; want = orbit(l, lp, h); fi = dict(inp, family=h)
        S.check(len(set(got)) == len(got), "duplicates", fi, lambda: sorted(got))
        S.check(set(got) == want, "orbit", fi, lambda: {"missing": sorted(want - set(got))[:10], "extra": sorted(set(got) - want)[:10]})
        S.check(np.array_equal(np.nonzero(fid == f)[0], np.arange(a, b)), "attribution", fi)
    S.check(int(np.sum(c["nFamily"])) == n, "all poles attributed", inp)
    N = pol @ B.T; N /= np.linalg.norm(N, axis=1, keepdims=True)
    S.check(np.abs(cart - N).max() < 1e-4, "unit normals", inp, lambda: {"hkl": hk[int(np.abs(cart - N).max(1).argmax())]})
    D = np.clip(N @ N.T, -1, 1); T = np.rad2deg(np.arccos(D))
    S.check(np.abs(np.cos(np.deg2rad(c["angTable"])) - D).max() < 1e-4, "angle table", inp)
    pf = np.asarray(p.polefamilies).reshape(len(F), -1)
    S.check([h3of4(list(x)) for x in pf.tolist()] == [list(x) for x in F] and (pf.shape[1] == 3 or np.all(pf[:, 2] == -pf[:, 0] - pf[:, 1])), "stored reflectors", inp, lambda: pf)
def phases(S):
    for i in range(len(PHASES)):
        try: one(S, i)
        except (Skip, AssertionError): raise
        except Exception as e: S.check(False, "exception:" + type(e).__name__, S.cur, traceback.format_exc()[-800:])
def rnd(S):
    """random lattices and reflectors"""
    for rep in range(24 * S.scale):
        a, b, l = RANGES[rep % 11]; sg = int(S.rng.integers(a, b + 1)); x, y, z = S.rng.uniform(2, 9, 3)
        lp = {1: [x, y, z, *S.rng.uniform(75, 110, 3)], 2: [x, y, z, 90, S.rng.uniform(80, 110), 90], 22: [x, y, z, 90, 90, 90], 4: [x, x, z, 90, 90, 90], 42: [x, x, z, 90, 90, 90], 23: [x] * 3 + [90] * 3, 43: [x] * 3 + [90] * 3}.get(l, [x, x, z, 90, 90, 120])
        F = []; seen = set()
        while len(F) < 3:
            h = S.rng.integers(-3, 4, 3)
            if not h.any() or tuple(h) in seen: continue
            o = orbit(l, lp, h); F.append([int(v) for v in h]); seen |= {tuple(int(v) for v in np.array(q) * k // m) for q in o for k in (1, 2, 3) for m in (1, 2, 3) if not (np.array(q) * k % m).any()}
        PHASES.append((sg, lp, F))
        one(S, len(PHASES) - 1); PHASES.pop(); LIB.pop((len(PHASES), ()), None)
def rebuild(S):
    """building twice gives the same library"""
    for i in (0, 4, 8, 13):
        sg, lp, fam = PHASES[i]; p = tv.addphase(spacegroup=sg, latticeparameter=lp, polefamilies=fam); a = {k: np.array(v) for k, v in p.completelib.items()}
        p.build_trip_lib()
        S.check(all(np.array_equal(a[k], p.completelib[k]) for k in a), "rebuild", PHASES[i])
def defaults(S):
    for t, n in (("FCC", [6, 8, 12, 24]), ("BCC", [12, 6, 24, 24]), ("HCP", None)):
        p = tv.addphase(libtype=t)
        if n: S.check(list(p.completelib["nFamily"]) == n, "default multiplicities", t)
        else: S.check(list(p.completelib["nFamily"]) == [6, 2, 12, 12, 6, 12, 12, 12], "default multiplicities", t)
if __name__ == "__main__": S.run(phases, rnd, rebuild, defaults)
