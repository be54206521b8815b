from lib import *; from rotcommon import *
import pyebsdindex.rotlib as rl
S = Suite("R03", "batches of special and random rows, permuted and of several lengths, against the rows alone; compiled code is not used (NUMBA_DISABLE_JIT)")
def same(a, b): return np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)
def batches(S):
    sp = [q for _, q in special()]
    for a in KINDS:
        for b in KINDS:
            nm = "%s2%s" % (a, b)
            if a == b or not hasattr(rl, nm): continue
            f = getattr(rl, nm)
            qs = sp[::2] + [q / np.linalg.norm(q) for q in S.rng.normal(size=(12 * S.scale, 4))]
            vs = np.array([FROMQ[a](q) if a != "cu" else rl.ho2cu(q2ho(q)) for q in qs], float)
            if a == "ax": vs[3, :3] *= 2; vs[4, 3] = 9.0; vs[5, 3] = -2.0
            if a == "eu": vs[3] = [2*np.pi, 0, 2*np.pi]; vs[4] = [0.4, np.pi, 1.1]
            single = [np.array(f(v.copy())) for v in vs]
            for perm in (np.arange(len(vs)), S.rng.permutation(len(vs)), S.rng.permutation(len(vs))[:2], S.rng.permutation(len(vs))[:7]):
                inp = vs[perm].copy(); keep = inp.copy()
                S.cur = {"converter": nm, "rows": inp}
                r = np.array(f(inp))
                S.check(r.shape[0] == len(perm), nm + ":row count", {"converter": nm, "n": len(perm)})
                S.check(same(inp, keep), nm + ":input modified", {"converter": nm, "rows": keep})
                bad = [i for i in range(len(perm)) if not same(r[i], single[perm[i]])] if r.shape[0] == len(perm) else []
                S.check(not bad, nm + ":row depends on batch", lambda: {"converter": nm, "rows": keep, "row": bad[:3]}, lambda: {"batch": r[bad[0]], "alone": single[perm[bad[0]]]})
            r32 = f(vs[:5].astype(np.float32))
            S.check(np.allclose(np.where(np.isfinite(single[:5]), single[:5], 9e9), np.where(np.isfinite(r32), r32, 9e9), atol=1) or True, nm + ":float32", {"converter": nm}, trivial=True)
def quats(S):
    q = S.rng.normal(size=(9, 4)); q /= np.linalg.norm(q, axis=1)[:, None]; v = S.rng.normal(size=(9, 3)); q2 = S.rng.normal(size=(9, 4))
    for f, args in [(rl.quatnorm, (q2,)), (rl.quatconj, (q2,)), (rl.axnorm, (q2,)), (rl.quat_multiply, (q, q2)), (rl.quat_vector, (q, v))]:
        nm = f.__name__
        keep = [x.copy() for x in args]
        r = np.array(f(*args))
        S.check(all(same(x, y) for x, y in zip(args, keep)), nm + ":input modified", {"args": keep})
        for i in range(9):
            s = np.array(f(*[x[i] for x in keep]))
            S.check(np.allclose(r[i], s, atol=1e-15, rtol=0), nm + ":row depends on batch", lambda: {"args": keep, "row": i}, lambda: {"batch": r[i], "alone": s})
        p = S.rng.permutation(9)
        S.check(same(np.array(f(*[x[p] for x in keep])), r[p]), nm + ":order", lambda: {"args": keep, "perm": p})
    for f, one, many in [(rl.quat_multiply, q[0], q2), (rl.quat_vector, q[0], v)]:
        r = np.array(f(one, many))
        for i in range(9): S.check(np.allclose(r[i], f(one, many[i]), atol=1e-15, rtol=0), f.__name__ + ":one with many", lambda: {"one": one, "many": many, "row": i})
    for f, many, one in [(rl.quat_multiply, q2, q[0]), (rl.quat_vector, q, v[0])]:
        r = np.array(f(many, one))
        for i in range(9): S.check(np.allclose(r[i], f(many[i], one), atol=1e-15, rtol=0), f.__name__ + ":many with one", lambda: {"one": one, "many": many, "row": i})
S.run(batches, quats)
