from tripcommon import *
import itertools
S = Suite("T02", "every triple of planes of 15 phases against the library; every library row against the planes' angles; voting with one-row libraries for triples in all six orders")
def expect(A, B, C):
    """sorted angles and families of (a plane, b plane, c plane) -> rows consistent with the convention: label k is the family of the plane shared by angles (0,1), (0,2), (1,2)"""
    ang = []
    for u, v in ((A, B), (A, C), (B, C)): ang.append(np.rad2deg(np.arccos(min(1, abs(u[2] @ v[2])))))
    pairs = [(0, 1), (0, 2), (1, 2)]; o = sorted(range(3), key=lambda k: ang[k]); fam = [A[1], B[1], C[1]]
    lab = [fam[(set(pairs[o[x]]) & set(pairs[o[y]])).pop()] for x, y in ((0, 1), (0, 2), (1, 2))]
    return [ang[k] for k in o], lab
def complete(S):
    for i in range(16 if S.quick else 18):
        P = planes(i); inp = {"phase": PHASES[i]}; S.cur = inp
        lib = phase(i).angtriplets; A, F = np.asarray(lib["angles"], float), np.asarray(lib["familyid"])
        S.check(len(A) == len(F) and np.all(np.diff(A, axis=1) >= 0), "ascending", inp)
        S.check(len({(tuple(np.rint(a * 100).astype(int)), tuple(f)) for a, f in zip(A, F)}) == len(A), "duplicates", inp)
        rows = {}
        for a, f in zip(A, F): rows.setdefault(tuple(sorted(f)), []).append((a, tuple(f)))
        tri = list(itertools.combinations(range(len(P)), 3))
        if len(tri) > (1500 if S.quick else 10000): tri = [tri[k] for k in S.rng.choice(len(tri), 1500 if S.quick else 10000, replace=False)]
        for t in tri:
            a, f = expect(*[P[k] for k in t])
            if a[0] < 1.02: continue
            cand = rows.get(tuple(sorted(f)), [])
            tie = (a[1] - a[0] < .03, a[2] - a[1] < .03)
            ok = False
            for ra, rf in cand:
                if np.abs(ra - a).max() > .011: continue
                if rf == tuple(f) or (tie[0] and rf == (f[0], f[2], f[1])) or (tie[1] and rf == (f[1], f[0], f[2])) or (tie[0] and tie[1]): ok = True; break
            S.check(ok, "triplet present", lambda: dict(inp, planes=[P[k][0] for k in t]), lambda: {"angles": a, "families": f, "rows": [(x.tolist(), y) for x, y in cand][:8]})
        ang = {}
        for u in P:
            for v in P:
                if u is v: continue
                ang.setdefault((u[1], v[1]), set()).add(round(np.rad2deg(np.arccos(min(1, abs(u[2] @ v[2])))), 3))
        for a, f in zip(A, F):
            for k, (x, y) in enumerate(((0, 1), (0, 2), (1, 2))):
                # angle k lies between the two planes that share it
                s = ang.get((f[x], f[y]), ())
                S.check(any(abs(a[k] - z) < .011 for z in s), "row labels", lambda: dict(inp, row=(a.tolist(), f.tolist())))
def lookup(S):
    """a measured triple votes for the families of its own planes, whatever the order of the bands"""
    f = S.need(tv, "BandIndexer._tripvote_numba")
    for i in (0, 4, 7, 11, 12, 13):
        P = planes(i); p = phase(i); done = 0; nf = len(eff(i))
        for t in itertools.islice((S.rng.choice(len(P), 3, replace=False) for _ in range(4000)), 4000):
            a, fm = expect(*[P[k] for k in t])
            if a[0] < 4 or a[1] - a[0] < 4 or a[2] - a[1] < 4 or len(set(fm)) < 2: continue
            rowa, rowf = np.array([np.round(a, 2)]), np.array([fm])
            for o in itertools.permutations(range(3)):
                tt = [t[k] for k in o]; R = mat(rotm(S.rng))
                bn = np.array([R @ P[k][2] * S.rng.choice([-1, 1]) for k in tt]); inten = S.rng.uniform(.5, 2, (1, 3))
                inp = {"phase": PHASES[i], "planes": [P[k][0] for k in tt]}; S.cur = inp
                r = f(bn[None], inten, p.lut, 2.0, rowa, rowf, nf)
                acc = np.asarray(r[0])[0]; want = np.zeros((nf, 3), bool)
                for b, k in enumerate(tt): want[P[k][1], b] = True
                S.check(np.array_equal(acc > 0, want), "vote", inp, lambda: {"votes": acc, "expected families": [P[k][1] for k in tt]})
                S.check([int(x) for x in np.asarray(r[1])[0]] == [P[k][1] for k in tt], "winning family", inp)
            done += 1
            if done >= 12 * S.scale: break
def permtab(S):
    p = phase(0); L = np.asarray(p.lut)
    for ang in itertools.permutations((10., 20., 30.)):
        # poles 0,1,2 with angles (01, 02, 12)
        s = np.argsort(ang); pr = [(0, 1), (0, 2), (1, 2)]
        want = [(set(pr[s[x]]) & set(pr[s[y]])).pop() for x, y in ((0, 1), (0, 2), (1, 2))]
        S.check([int(v) for v in L[:, s[0], s[1], s[2]]] == want, "permutation table", {"angles": ang})
        a, b = p._sortlib_id(np.array([ang]), np.array([[4, 5, 6]]))
        S.check(np.array_equal(a[0], sorted(ang)) and [int(v) - 4 for v in b[0]] == want, "sorted row", {"angles": ang})
def duplicates(S):
    """rows with equal angles and different labels, or the other way round, are different triplets"""
    p = phase(0); allf = np.array(list(itertools.product(range(4), repeat=3)))
    for t in range(60 * S.scale):
        k = int(S.rng.integers(1, 5)); lab = allf[(allf < k).all(axis=1)]
        lab = lab[S.rng.permutation(len(lab))[:int(S.rng.integers(1, len(lab) + 1))]]; lab = lab[S.rng.integers(0, len(lab), 2 * len(lab))]
        ang = np.array([[20., 40., 60.], [20., 40., 60.01], [30., 40., 60.]])[S.rng.integers(0, 1 if t % 2 else 3, len(lab))]
        inp = {"angles": ang, "labels": lab}; S.cur = inp
        A, F = p._sortlib_id(ang.copy(), lab.copy(), findDups=True)
        key = lambda a, f: (tuple(np.rint(np.asarray(a) * 100).astype(int)), tuple(int(x) for x in f))
        got = [key(a, f) for a, f in zip(A, F)]
        S.check(len(got) == len(set(got)), "kept twice", inp); S.check(set(got) == {key(a, f) for a, f in zip(ang, lab)}, "every triplet kept", inp)
if __name__ == "__main__": S.run(complete, lookup, permtab, duplicates)
