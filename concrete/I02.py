from patcommon import *
S = Suite("I02", "stacks of synthetic patterns, noise, blank and gradient patterns: whole, alone, shuffled, in sub-batches, with chunk sizes 1..n+3 and -1, for band detection and indexing, 2 and 3 dimensional input, integer and float input")
def detect(S):
    for rep, shape in enumerate([(40, 48), (44, 36), (36, 36)][: 2 if S.quick else 3]):
        x = indexer([0], shape=shape, nB=6); d = x.bandDetectPlan; n = 7; st = stack(S.rng, 0, n, shape); st0 = st.copy()
        inp = {"shape": shape, "patterns": n}; S.cur = inp
        full = d.find_bands(st); S.check(np.array_equal(st, st0), "input unmodified", inp)
        for c in (1, 2, 3, 4, 6, 7, 8, 10, -1):
            r = d.find_bands(st, chunksize=c); S.check(eq(full, r), "chunk size", dict(inp, chunksize=c), lambda: {"rows that differ": [k for k in range(n) if not eq(full[k:k+1], r[k:k+1])]})
        for k in range(n):
            S.check(eq(full[k:k+1], d.find_bands(st[k:k+1])), "alone", dict(inp, pattern=k)); 
            if k < 2: S.check(eq(full[k:k+1], d.find_bands(st[k])), "alone, two dimensions", dict(inp, pattern=k))
        o = S.rng.permutation(n); S.check(eq(full[o], d.find_bands(st[o])), "shuffled", dict(inp, order=o)); S.check(eq(full[2:5], d.find_bands(st[2:5], chunksize=2)), "sub-batch", inp)
        i8 = np.clip((st - st.min()) * 60, 0, 255).astype(np.uint8); S.check(eq(d.find_bands(i8), d.find_bands(i8.astype(np.float32))), "integer patterns", inp)
        d.backgroundsub = S.rng.normal(size=shape).astype(np.float32); fb = d.find_bands(st)
        for c in (1, 3): S.check(eq(fb, d.find_bands(st, chunksize=c)), "chunk size, background", dict(inp, chunksize=c))
        S.check(eq(fb[3:4], d.find_bands(st[3:4])), "alone, background", inp); d.backgroundsub = None
def index(S):
    for L in ([0], [4, 0]):
        n = 6; st = stack(S.rng, L[0], n, (40, 48)); x = indexer(L, nB=6); inp = {"phases": [PHASES[i][0] for i in L]}; S.cur = inp
        full, fb = x.index_pats(patsin=st)[:2]
        for c in (1, 4): r, rb = x.index_pats(patsin=st, chunksize=c)[:2]; S.check(eq(full, r) and eq(fb, rb), "index: chunk size", dict(inp, chunksize=c))
        for k in range(n): r, rb = x.index_pats(patsin=st[k:k + 1])[:2]; S.check(eq(full[:, k:k + 1], r) and eq(fb[k:k + 1], rb), "index: alone", dict(inp, pattern=k))
        o = S.rng.permutation(n); r, rb = x.index_pats(patsin=st[o])[:2]; S.check(eq(full[:, o], r) and eq(fb[o], rb), "index: shuffled", dict(inp, order=o))
        r, rb = x.index_pats(patsin=st[0])[:2]; S.check(eq(full[:, :1], r), "index: two dimensions", inp)
        if S.late(): break
def history(S):
    """earlier calls leave no trace"""
    st = stack(S.rng, 0, 5, (40, 48)); big = stack(S.rng, 0, 2, (30, 30))
    a = es.EBSDIndexer(phaselist=[phase(0)], patDim=np.array((40, 48)), nTheta=60, nRho=30, nBands=6, PC=[.5, .6, .65]); r = a.index_pats(patsin=st)[:2]
    a.index_pats(patsin=big); q = a.index_pats(patsin=st)[:2]; S.check(eq(r[0], q[0]) and eq(r[1], q[1]), "history: other shape in between", {"shapes": [(40, 48), (30, 30)]})
    b = es.EBSDIndexer(phaselist=["FCC"], patDim=np.array((40, 48)), nTheta=60, nRho=30, nBands=6, PC=[.5, .6, .65]); b.index_pats(patsin=st[:2]); b.phaselist = [phase(0), phase(4)]; b.phaseLib = list(b.phaselist)
    c = es.EBSDIndexer(phaselist=[phase(0), phase(4)], patDim=np.array((40, 48)), nTheta=60, nRho=30, nBands=6, PC=[.5, .6, .65])
    b.bandDetectPlan.dataType = c.bandDetectPlan.dataType
    u, v = b.index_pats(patsin=st)[0], c.index_pats(patsin=st)[0]; S.check(eq(u, v), "history: phases changed", {"from": "FCC", "to": "two phases"})
def synthetic(S):
    from T03 import case
    for rep in range(3 * S.scale):
        L = [[0], [0, 4], [12, 0]][rep % 3]; x = indexer(L, nB=6, nband_earlyexit=5); n = 6
        bd = np.zeros((n, 6), dtype=x.bandDetectPlan.dataType); bn = np.zeros((n, 6, 3)); bd["band_match_index"] = -100
        for k in range(n):
            B, I = case(S, L[k % len(L)], ["clean", "random", "noise", "invalid"][k % 4], 6); bn[k] = B; bd["max"][k] = I; bd["valid"][k] = I > 0
        bd["theta"] = 1; inp = {"phases": [PHASES[i][0] for i in L], "bands": bn}; S.cur = inp
        f, fb = x._indexbandsphase(bd.copy(), bn.copy())
        for k in range(n): g, gb = x._indexbandsphase(bd[k:k+1].copy(), bn[k:k+1].copy()); S.check(eq(f[:, k:k+1], g) and eq(fb[k:k+1], gb), "matching: alone", dict(inp, pattern=k), lambda: {"batch": str(f[:, k]), "alone": str(g[:, 0])})
        o = S.rng.permutation(n); g, gb = x._indexbandsphase(bd[o].copy(), bn[o].copy()); S.check(eq(f[:, o], g) and eq(fb[o], gb), "matching: shuffled", inp)
if __name__ == "__main__": S.run(detect, index, synthetic, history)
