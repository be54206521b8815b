from lib import *; from rotcommon import *
import pyebsdindex.rotlib as rl
S = Suite("R01", "every converter x (named special rotations and random rotations); non-trivial: distinct converter/rotation pairs")
TOL = 2e-6
def convs():
    for a in KINDS:
        for b in KINDS:
            if a != b and hasattr(rl, "%s2%s" % (a, b)): yield a, b
def inputs(S, n):
    out = special()
    for i in range(n):
        q = S.rng.normal(size=4); out.append(("random", q / np.linalg.norm(q)))
    return out
def pairs(S):
    ins = inputs(S, 60 * S.scale)
    for a, b in convs():
        f = getattr(rl, "%s2%s" % (a, b))
        use = [(nm, FROMQ[a](q) if a != "cu" else rl.ho2cu(q2ho(q)), q) for nm, q in ins]
        if a == "eu":
            use += [("eu raw", np.array(e), eu2q(e)) for e in ([0.4, np.pi, 1.1], [5.0, np.pi, 2.0], [0.4, 0.0, 1.1], [2*np.pi, 1.0, 2*np.pi], [2*np.pi, 0.0, 2*np.pi], [0, 0, 0], [6.0, 0, 6.0], [3.0, 1.0, 3.3], [np.pi, 0, np.pi], [0, np.pi, 0], [1, np.pi/2, 2], [1e-4, 1e-4, 1e-4])]
        if a == "ax":
            use += [("ax raw", np.array(x, float), ax2q(x)) for x in ([0, 0, 2, 1.0], [3, 4, 0, 2.0], [0.1, 0.2, -0.2, 3.0], [1, 0, 0, 4.0], [0, 1, 0, -1.0], [1, 1, 1, 7.0], [0, 0, -1, -4.0], [1, 2, 2, 2*np.pi - 0.5], [0, 2, 0, np.pi], [1, 1, 0, -np.pi], [5, 0, 0, 12.0], [1, 1, 1, 0.0], [0, 0, 3, 3 * np.pi])]
        if a == "ro": use += [("ro raw", np.array([0, 0, 1, 0.0]), np.array([1.0, 0, 0, 0])), ("ro raw", np.array([0.6, 0.8, 0, np.inf]), np.array([0, 0.6, 0.8, 0])), ("ro raw", np.array([0.6, 0, 0.8, 1e-7]), ax2q([0.6, 0, 0.8, 2e-7]))]
        if a == "qu": use += [("qu raw", np.array(x), np.array(x)) for x in ([-1.0, 0, 0, 0], [-0.5, 0.5, 0.5, -0.5], [-0.6, 0, 0.8, 0], [0, 0, -1.0, 0], [-0.9, 0.1, 0.3, np.sqrt(1 - .81 - .01 - .09)])]
        for nm, v, q in use:
            S.cur = {"converter": "%s2%s" % (a, b), "input": v}
            r = f(np.array(v))
            try: d = dist(tomat(b, r), q2m(q))
            except Exception as e: d = np.inf
            tol = TOL
            if "cu" in (a, b) or "ho" in (a, b): tol = 2e-5
            # the real code's cut-offs act within 1e-6 of the special orientations; quaternion square roots amplify rounding there
            S.check(d < (tol if nm != "near half turn" else 1e-4), "%s2%s:rotation changed" % (a, b), {"converter": "%s2%s" % (a, b), "case": nm, "input": v}, lambda: {"result": r, "matrix difference": d})
def cube_ball(S):
    for i in range(150 * S.scale):
        c = (S.rng.random(3) - 0.5) * np.pi ** (2 / 3)
        if i % 7 == 0: c[i % 3] = 0
        if i % 11 == 0: c[(i + 1) % 3] = c[i % 3]
        h = rl.cu2ho(c)
        S.check(dist(h, cu2ho(c)) < 1e-6, "cu2ho:definition", {"cu": c}, lambda: {"result": h, "expected": cu2ho(c)})
        b = rl.ho2cu(h)
        S.check(dist(b, c) < 1e-5, "ho2cu:inverse of cu2ho", {"cu": c}, lambda: {"ho": h, "back": b})
    for h in ([0, 0, 1.0], [0, 1.0, 0], [1, 0, 0.0], [0, 0, -1.0], [0, -1.2, 0], [-.3, 0, 0], [0.5, 0.5, 0.5], [-0.5, 0.5, 0.5]):
        c = rl.ho2cu(np.array(h)); S.check(dist(cu2ho(c), h) < 1e-5, "ho2cu:definition", {"ho": h}, lambda: {"cu": c})
def ho_angle_fit(S):
    for w in np.linspace(1e-3, np.pi, 400 * S.scale):
        h = cbrt(0.75 * (w - np.sin(w)))
        r = rl.ho2ax(np.array([0, 0.6 * h, -0.8 * h]))
        S.check(abs(r[3] - w) < 2e-5, "ho2ax:angle", {"angle": w}, lambda: {"result": r})
def integers(S):
    for a, b, v in [("ax", "qu", [0, 0, 1, 2]), ("eu", "om", [1, 2, 3]), ("eu", "qu", [1, 0, 0]), ("ax", "om", [1, 1, 0, 1]), ("ho", "ax", [0, 0, 1]), ("eu", "ax", [2, 1, 1]), ("qu", "om", [1, 1, 0, 0]), ("cu", "ho", [0, 1, 0])]:
        f = getattr(rl, a + "2" + b)
        r = f(np.array(v))
        q = TOQ[a](np.array(v, float))
        S.check(dist(tomat(b, r), q2m(q)) < 1e-4, "%s2%s:integer input" % (a, b), {"input": v}, lambda: {"result": r})
S.run(pairs, cube_ball, ho_angle_fit, integers)
