from lib import *
import pyebsdindex.rotlib as rl
S = Suite("R04", "random and axis-aligned quaternion pairs, three pairings, both handedness values")
def ham(a, b):
    return np.stack([a[...,0]*b[...,0]-a[...,1]*b[...,1]-a[...,2]*b[...,2]-a[...,3]*b[...,3], a[...,0]*b[...,1]+a[...,1]*b[...,0]+a[...,2]*b[...,3]-a[...,3]*b[...,2],
        a[...,0]*b[...,2]-a[...,1]*b[...,3]+a[...,2]*b[...,0]+a[...,3]*b[...,1], a[...,0]*b[...,3]+a[...,1]*b[...,2]-a[...,2]*b[...,1]+a[...,3]*b[...,0]], -1)
def prod(S):
    units = np.concatenate([np.eye(4), -np.eye(4)])
    for rep in range(12 * S.scale):
        n = [1, 2, 3, 5, 8, 13][rep % 6]
        a, b = (S.rng.normal(size=(n, 4)), S.rng.normal(size=(n, 4))) if rep % 3 else (units[S.rng.integers(0, 8, n)], units[S.rng.integers(0, 8, n)])
        for p in (1, -1):
            for x, y, nm in ((a, b, "N with N"), (a[0], b, "one with N"), (a, b[0], "N with one"), (a[:1], b, "one row with N"), (a, b[:1], "N with one row")):
                r = np.atleast_2d(rl.quat_multiply(x.copy(), y.copy(), p=p))
                X, Y = np.broadcast_arrays(np.atleast_2d(x), np.atleast_2d(y))
                h = ham(X, Y) if p > 0 else ham(Y, X)
                S.check(r.shape == h.shape and np.allclose(r, h, atol=1e-12), "quat_multiply:%s" % nm, lambda: {"q1": x, "q2": y, "p": p}, lambda: {"result": r, "expected": h})
def laws(S):
    for rep in range(30 * S.scale):
        a, b, c = S.rng.normal(size=(3, 4))
        m = rl.quat_multiply
        S.check(np.allclose(m(m(a, b), c), m(a, m(b, c)), atol=1e-11), "quat_multiply:associative", {"a": a, "b": b, "c": c})
        S.check(abs(np.linalg.norm(m(a, b)) - np.linalg.norm(a) * np.linalg.norm(b)) < 1e-11, "quat_multiply:norm", {"a": a, "b": b})
        S.check(np.allclose(m(a, rl.quatconj(a)), [a @ a, 0, 0, 0], atol=1e-11), "quatconj:inverse", {"a": a})
    q = np.array([0.8, 0.6, 0, 0])
    S.check(np.allclose(rl.quat_multiply(q, np.array([1, 0, 0, 0])), q), "quat_multiply:integer operand", {"q1": q, "q2": [1, 0, 0, 0]})
def single(S):
    f = S.need(rl, "quat_multiply1")
    for rep in range(20):
        a, b = S.rng.normal(size=(2, 4))
        for p in (1, -1): S.check(np.allclose(f(a, b, p=p), ham(a, b) if p > 0 else ham(b, a)), "quat_multiply1", {"a": a, "b": b, "p": p})
S.run(prod, laws, single)
