from lib import *; from rotcommon import q2m
import pyebsdindex.rotlib as rl
S = Suite("R05", "random and special unit quaternions and vectors, three pairings, both handedness values")
def rot(S):
    for rep in range(18 * S.scale):
        n = [1, 2, 3, 5, 8, 13][rep % 6]
        q = S.rng.normal(size=(n, 4)); q /= np.linalg.norm(q, axis=1)[:, None]
        if rep % 4 == 0: q[0] = np.eye(4)[rep // 4 % 4]
        v = S.rng.normal(size=(n, 3)) * (100 if rep % 5 == 0 else 1)
        for p in (1, -1):
            for x, y, nm in ((q, v, "N with N"), (q[0], v, "one with N"), (q, v[0], "N with one")):
                r = np.atleast_2d(rl.quat_vector(x.copy(), y.copy(), p=p))
                X, Y = np.atleast_2d(x), np.atleast_2d(y)
                N = max(len(X), len(Y))
                h = np.array([(q2m(X[i if len(X) > 1 else 0]) if p > 0 else q2m(X[i if len(X) > 1 else 0]).T) @ Y[i if len(Y) > 1 else 0] for i in range(N)])
                S.check(r.shape == h.shape and np.allclose(r, h, atol=1e-10), "quat_vector:%s" % nm, lambda: {"q": x, "v": y, "p": p}, lambda: {"result": r, "expected": h})
        om = np.array(rl.qu2om(q)).reshape(-1, 3, 3)
        S.check(np.allclose(om, [q2m(x) for x in q], atol=1e-9), "qu2om:matrix", lambda: {"q": q})
        a = rl.quat_vector(rl.quat_multiply(q[0], q[-1]), v[0]); b = rl.quat_vector(q[0], rl.quat_vector(q[-1], v[0]))
        S.check(np.allclose(a, b, atol=1e-9), "quat_vector:product acts in sequence", lambda: {"q1": q[0], "q2": q[-1], "v": v[0]})
    r = rl.quat_vector(np.array([0.8, 0.6, 0, 0]), np.array([0, 0, 1]))
    S.check(np.allclose(r, q2m(np.array([0.8, 0.6, 0, 0])) @ [0, 0, 1]), "quat_vector:integer vector", {"v": [0, 0, 1]}, lambda: r)
def single(S):
    f = S.need(rl, "quat_vector1")
    for rep in range(20):
        q = S.rng.normal(size=4); q /= np.linalg.norm(q); v = S.rng.normal(size=3)
        for p in (1, -1): S.check(np.allclose(f(q, v, p=p), (q2m(q) if p > 0 else q2m(q).T) @ v), "quat_vector1", {"q": q, "v": v, "p": p})
S.run(rot, single)
