from lib import *; from rotcommon import *
import pyebsdindex.rotlib as rl
S = Suite("R02", "every converter x (named special rotations and random rotations), canonical form of the result")
e = 1e-6
def canon(S, b, r, nm, info):
    r = np.asarray(r, float)
    if b == "om":
        m = r.reshape(3, 3)
        S.check(dist(m @ m.T, np.eye(3)) < e and abs(np.linalg.det(m) - 1) < e, nm + ":proper orthogonal", info, lambda: r)
    if b == "qu": S.check(abs(np.linalg.norm(r) - 1) < e and r[0] >= -1e-12, nm + ":unit quaternion with non-negative scalar", info, lambda: r)
    if b == "eu": S.check(0 <= r[0] < 2*np.pi + 1e-9 and 0 <= r[1] <= np.pi + 1e-9 and 0 <= r[2] < 2*np.pi + 1e-9, nm + ":Euler ranges", info, lambda: r)
    if b == "ax": S.check(abs(np.linalg.norm(r[:3]) - 1) < e and 0 <= r[3] <= np.pi + 2e-6, nm + ":axis-angle form", info, lambda: r)
    if b == "ro": S.check(abs(np.linalg.norm(r[:3]) - 1) < e and r[3] >= 0, nm + ":Rodrigues form", info, lambda: r)
    if b == "ho": S.check(np.linalg.norm(r) <= R1 + 1e-6, nm + ":inside the ball", info, lambda: r)
    if b == "cu": S.check(np.abs(r).max() <= 0.5 * np.pi ** (2/3) + 1e-6, nm + ":inside the cube", info, lambda: r)
def allconv(S):
    ins = special()
    for i in range(60 * S.scale):
        q = S.rng.normal(size=4); ins.append(("random", q / np.linalg.norm(q)))
    for d in (1e-3, 1e-5, 3e-7, 1e-9, -1e-3, -1e-5, -3e-7, -1e-9):       # beside the half turns
        v = S.rng.normal(size=3); v[S.rng.integers(3)] *= S.rng.integers(2); q = np.r_[d, v / np.linalg.norm(v)]; ins.append(("half turn%+g" % d, q / np.linalg.norm(q)))
    for a in KINDS:
        for b in KINDS:
            nm = "%s2%s" % (a, b)
            if a == b or not hasattr(rl, nm): continue
            f = getattr(rl, nm)
            vs = [FROMQ[a](q) if a != "cu" else rl.ho2cu(q2ho(q)) for _, q in ins]
            if a == "eu": vs += [np.array(x) for x in ([2*np.pi, 0, 2*np.pi], [0.4, np.pi, 1.1], [6.2, 0, 6.2], [2*np.pi, np.pi, 0.0], [6.2, 1, 6.2])]
            if a == "ax": vs += [np.array(x, float) for x in ([0, 0, 2, 1.0], [3, 4, 0, 2.0], [1, 0, 0, 4.0], [0, 1, 0, -1.0], [1, 1, 1, 7.0], [5, 0, 0, 12.0], [0, 0, -1, -4.0])]
            if a == "qu": vs += [np.array(x) for x in ([-1.0, 0, 0, 0], [-0.5, 0.5, 0.5, -0.5], [0, 0, -1.0, 0], [-2.0, 0.2, 0, 0], [3.0, 1, 1, 1])]
            if a == "ro": vs += [np.array([0, 0, 1.0, 0]), np.array([0.6, 0.8, 0, np.inf])]
            for v in vs:
                S.cur = {"converter": nm, "input": v}
                canon(S, b, f(np.array(v)), nm, {"converter": nm, "input": v})
def norms(S):
    for i in range(40 * S.scale):
        q = S.rng.normal(size=4) * 10.0 ** S.rng.integers(-3, 3)
        if i % 2: q[0] = S.rng.choice([-1, 1]) * 10.0 ** S.rng.uniform(-14, -1)
        r = rl.quatnorm(q)
        S.check(abs(np.linalg.norm(r) - 1) < e and r[0] >= 0, "quatnorm:canonical", {"q": q}, lambda: r)
        a = np.concatenate([S.rng.normal(size=3), [S.rng.uniform(-20, 20)]])
        r = rl.axnorm(a)
        S.check(abs(np.linalg.norm(r[:3]) - 1) < e and 0 <= r[3] <= np.pi + 2e-6 and dist(q2m(ax2q(r)), q2m(ax2q(a))) < 1e-5, "axnorm:canonical", {"ax": a}, lambda: r)
S.run(allconv, norms)
