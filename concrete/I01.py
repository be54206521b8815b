from patcommon import *
S = Suite("I01", "1-3 phases x mixtures of patterns of each phase, of none, noise, blank and partial patterns; synthetic band sets through the per-phase loop and whole synthetic images; early exits; getmatchedpole")
ph = lambda x: x["phase"]
def judge(S, dat, n, m, inp, lib=None):
    if not S.check(dat.shape == (m + 1, n), "shape", inp, dat.shape): return
    for j in range(m):
        d = dat[j]; ok = d["nmatch"] > 0
        S.check(np.all(np.isin(d["phase"], [j, -1])) and np.array_equal(d["phase"] == j, ok), "phase layer carries its phase", inp, d["phase"])
        S.check(np.all(d["nmatch"][ok] >= 3), "at least three bands", inp)
        S.check(np.all(d["fit"][~ok] >= 179.9), "unindexed fit", inp, lambda: {"fit": d["fit"], "nmatch": d["nmatch"]})
        S.check(np.all(np.abs((d["quat"][ok] ** 2).sum(-1) - 1) < 1e-5) and np.all(d["quat"][ok][:, 0] >= 0), "orientation is a unit quaternion", inp)
        S.check(np.all(d["fit"][ok] < 90), "fit of indexed patterns", inp, d["fit"])
    b = dat[m]
    score = np.where(dat[:m]["nmatch"] > 0, (3.0 - dat[:m]["fit"]) * dat[:m]["nmatch"], -np.inf)
    for k in range(n):
        p = int(b["phase"][k]); ik = dict(inp, pattern=k)
        if p >= 0:
            S.check(p < m and b[k].tobytes() == dat[p, k].tobytes(), "best layer is that phase's record", ik, lambda: {"best": str(b[k]), "layer": str(dat[p, k])})
            if p < m: S.check(score[:, k].max() <= score[p, k] + 1e-4 * abs(score[p, k]), "best phase scores best", ik, lambda: {"scores": score[:, k], "phase": p})
        else:
            S.check(np.all(dat[:m]["nmatch"][:, k] <= 0), "unindexed only if no phase indexes", ik, lambda: {"nmatch": dat[:m]["nmatch"][:, k]})
            S.check(b["fit"][k] >= 179.9, "unindexed fit", ik, b["fit"][k])
LISTS = [[0], [0, 4], [4, 0], [0, 1, 4], [12, 0], [1, 12, 7]]
def bands(S):
    """synthetic bands through the per-phase loop"""
    from T03 import case
    for rep in range(14 * S.scale):
        if S.late(): break
        L = LISTS[rep % len(LISTS)]; x = indexer(L, nB=6, nband_earlyexit=(20 if rep % 2 else 5)); n = int(S.rng.integers(1, 9))
        for j, i in enumerate(L): x.phaseLib[j].angTol = 5.0 if (rep % 7 == 3 and len(L) > 1) else 2.0
        plan = x.bandDetectPlan; bd = np.zeros((n, 6), dtype=plan.dataType); bn = np.zeros((n, 6, 3)); bd["band_match_index"] = -100
        kinds = []
        for k in range(n):
            i = L[int(S.rng.integers(len(L)))]; kd = ["clean", "random", "noise", "invalid", "spurious", "tolerance"][int(S.rng.integers(6))]; kinds.append((i, kd))
            B, I = case(S, i, kd, 6); bn[k] = B; bd["max"][k] = I; bd["valid"][k] = I > 0
        bd["normmax"] = bd["max"]; bd["theta"] = S.rng.uniform(.2, 3, (n, 6)); bd["rho"] = S.rng.uniform(-8, 8, (n, 6)); bd["width"] = 1
        inp = {"phases": [PHASES[i][0] for i in L], "patterns": kinds, "bands": bn, "early exit": x.nband_earlyexit}; S.cur = inp
        b0, n0 = bd.copy(), bn.copy()
        dat, bo = x._indexbandsphase(bd.copy(), bn.copy())
        judge(S, dat, n, len(L), inp)
        S.check(np.allclose(dat["pq"], (bd["max"] * bd["valid"]).mean(1)[None], atol=1e-4), "pattern quality", inp)
        mi = bo["band_match_index"]
        for j in range(len(L)):
            S.check(np.array_equal((mi[:, :, j] >= 0).sum(1), np.maximum(dat["nmatch"][j], 0)), "labelled bands are counted", dict(inp, phase=j), lambda: {"labels": mi[:, :, j], "nmatch": dat["nmatch"][j]})
            pl = x.getmatchedpole(dat, bo, phasenumber=j); lab = mi[:, :, j]; po = np.rint(x.phaseLib[j].completelib["poles"]).astype(int)
            want = np.where((lab >= 0)[..., None], po[np.maximum(lab, 0)], 0)
            S.check(np.array_equal(pl, want), "getmatchedpole", dict(inp, phase=j))
        pl = x.getmatchedpole(dat, bo)
        for k in range(n):
            p = int(dat[-1]["phase"][k])
            want = np.zeros((6, 3), int) if p < 0 else x.getmatchedpole(dat, bo, phasenumber=p)[k]
            S.check(np.array_equal(pl[k], want), "getmatchedpole of the best phase", dict(inp, pattern=k))
        # the same orientation as the matching itself, in the reference frame
        from pyebsdindex import rotlib
        ref = x._detector2refframe()
        for j in range(len(L)):
            early = np.zeros(n, bool) if j == 0 else dat["nmatch"][:j].max(0) >= x.nband_earlyexit
            S.check(np.all(dat["nmatch"][j][early] == 0), "early exit", dict(inp, phase=j))
            r = x.phaseLib[j].bandindex(bn, band_intensity=(((-1 * np.abs(bd["rho"]) * 0.5 / (plan.rhoMax * (1 - plan.rhoMaskFrac)) + 1) * bd["max"]) * bd["valid"] * .75).astype(np.float32))
            for k in np.nonzero((dat["nmatch"][j] >= 3) & (np.asarray(r[4]) == dat["nmatch"][j]))[0]:
                g = np.ravel(rotlib.quat_multiply(np.asarray(r[0])[k], ref)); S.check(min(np.abs(g - dat["quat"][j, k]).max(), np.abs(g + dat["quat"][j, k]).max()) < 1e-3, "orientation in the reference frame", dict(inp, phase=j, pattern=int(k)))
    for i in LIB.values(): i.angTol = 2.0
def images(S):
    """whole images through index_pats"""
    for rep, L in enumerate([[0], [4, 0], [0, 1, 4]]):
        n = 7; st = stack(S.rng, L[0], n, (40, 48)); st[1] = kik(S.rng, L[-1], (40, 48)); st0 = st.copy()
        x = indexer(L, nB=6); inp = {"phases": [PHASES[i][0] for i in L], "patterns": "synthetic %d" % rep}; S.cur = inp
        dat, bd, a, b = x.index_pats(patsin=st)
        S.check(np.array_equal(st, st0), "input unmodified", inp); judge(S, dat, n, len(L), inp); S.check(bd.shape == (n, 6), "bands per pattern", inp)
        S.check(np.all(dat[-1]["phase"][[k for k in range(n) if k % 6 == 4]] == -1), "blank pattern is not indexed", inp)
        if S.quick and rep: continue
        d2, b2 = es.index_pats(patsin=st, ebsd_indexer_obj=x); S.check(eq(dat, d2), "wrapper", inp)
        d3, b3, a3, n3 = x.index_pats(patsin=st, patstart=2, npats=3); S.check(d3.shape == (len(L) + 1, 3) and eq(dat[:, 2:5], d3), "requested range", inp, d3.shape)
        d3, b3 = es.index_pats(patsin=st, ebsd_indexer_obj=x, patstart=4); S.check(d3.shape == (len(L) + 1, 3) and eq(dat[:, 4:], d3), "requested range", inp, d3.shape)
if __name__ == "__main__": S.run(bands, images)
