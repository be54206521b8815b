from lib import *
import pyebsdindex.crystal_sym as cs, pyebsdindex.crystallometry as cm
S = Suite("S02", "all index triples up to 3 singly, random batches, zero/duplicate/negative rows; directions u,v,w up to 6 and fractional ones")
def planes(S):
    allt = np.array([[h, k, l] for h in range(-3, 4) for k in range(-3, 4) for l in range(-3, 4)])
    for a in [allt, allt.astype(float), allt[::-1].copy(), allt[:1], S.rng.integers(-20, 21, (17, 3)), S.rng.normal(size=(5, 3))] + [allt[i] for i in range(0, len(allt), 7)]:
        a0 = a.copy(); r = np.asarray(cs.hex3poles2hex4poles(a)).reshape(-1, 4); A = a.reshape(-1, 3)
        ok = r.shape[0] == A.shape[0] and np.allclose(r, np.c_[A[:, 0], A[:, 1], -A[:, 0] - A[:, 1], A[:, 2]])
        S.check(ok, "hex3poles2hex4poles", {"poles": a}, {"result": r})
        S.check(np.array_equal(a, a0), "input unmodified", {"poles": a0})
        b = np.asarray(cs.hex4poles2hex3poles(r)).reshape(-1, 3)
        S.check(b.shape == A.shape and np.allclose(b, A), "three-four-three", {"poles": a}, {"result": b})
        if ok:
            r0 = r.copy(); c = np.asarray(cs.hex3poles2hex4poles(np.asarray(cs.hex4poles2hex3poles(r)))).reshape(-1, 4)
            S.check(c.shape == r.shape and np.allclose(c, r0) and np.array_equal(r, r0), "four-three-four", {"poles": r0}, {"result": c})
        ri = np.c_[A[:, 0], A[:, 1], -A[:, 0] - A[:, 1], A[:, 2]]
        S.check(np.allclose(np.asarray(cs.hex4poles2hex3poles(ri)).reshape(-1, 3), A), "hex4poles2hex3poles", {"poles": ri})
    # other layouts and integer types of the same list
    for dt in (np.uint8, np.uint16, np.int8, np.int16, np.int32, np.float32):
        A = (S.rng.integers(0 if np.dtype(dt).kind == "u" else -120, 121, (12, 3))).astype(dt); A0 = A.astype(float); w = np.c_[A0[:, 0], A0[:, 1], -A0[:, 0] - A0[:, 1], A0[:, 2]]
        for lay, f in (("rows", lambda a, m: a), ("stack", lambda a, m: a.reshape(3, 4, m)), ("Fortran rows", lambda a, m: np.asfortranarray(a)), ("Fortran stack", lambda a, m: np.asfortranarray(a.reshape(3, 4, m))), ("strided", lambda a, m: np.repeat(a, 2, axis=0)[::2])):
            inp = {"layout": lay, "dtype": np.dtype(dt).name, "poles": A}; S.cur = inp
            r = np.asarray(cs.hex3poles2hex4poles(f(A, 3))).reshape(-1, 4)
            S.check(np.allclose(r, w), "layouts: three to four", inp, lambda: {"result": r})
            S.check(np.allclose(np.asarray(cs.hex4poles2hex3poles(f(w, 4))).reshape(-1, 3), A0), "layouts: four to three", inp)
def dirs(S):
    f = S.need(cm, "uvtw2uvw")
    L = [np.array([u, v, -u - v, w]) for u in range(-6, 7) for v in range(-6, 7) for w in (-4, -1, 0, 2, 6)]
    L += [np.array([u, v, -u - v, w]) for u, v, w in [(.25, .1, .5), (.2, -.1, 0), (1/3, 1/3, 0), (2/3, -1/3, 1), (-.1, -.2, .3), (1.5, .25, 2)]]
    for x in L:
        if not np.any(x): continue
        x0 = x.copy(); r = np.asarray(f(x), float); e = np.array([2 * x[0] + x[1], x[0] + 2 * x[1], x[3]], float)
        S.check(np.all(np.isfinite(r)) and np.allclose(r / np.linalg.norm(r), e / np.linalg.norm(e), atol=1e-9), "uvtw2uvw", {"uvtw": x}, lambda: {"result": r, "expected direction": e})
        S.check(np.array_equal(x, x0), "input unmodified", {"uvtw": x0})
S.run(planes, dirs)
