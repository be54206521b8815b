"""Independent oracle for orientation representations: everything is compared as a rotation matrix."""
import numpy as np
from scipy.special import cbrt
R1 = (0.75 * np.pi) ** (1 / 3)
def q2m(q):
    w, x, y, z = q / np.linalg.norm(q)
    # passive matrix of the default convention (same as pyebsdindex qu2om for p = 1)
    return np.array([[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)], [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)], [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]])
def ax2q(a):
    u = np.asarray(a[:3], float); u = u / np.linalg.norm(u)
    return np.concatenate([[np.cos(a[3] / 2)], np.sin(a[3] / 2) * u])
def eu2q(e):
    s, d, c, sn = 0.5 * (e[0] + e[2]), 0.5 * (e[0] - e[2]), np.cos(e[1] / 2), np.sin(e[1] / 2)
    return np.array([c * np.cos(s), -sn * np.cos(d), -sn * np.sin(d), -c * np.sin(s)])
def ro2q(r):
    if np.isinf(r[3]): return np.concatenate([[0.0], r[:3] / np.linalg.norm(r[:3])])
    return ax2q([r[0], r[1], r[2], 2 * np.arctan(r[3])])
def ho_angle(h):
    """angle w with (3/4 (w - sin w)) = h^3, by bisection"""
    t = 4.0 / 3.0 * h ** 3
    lo, hi = 0.0, np.pi * 1.0000001
    for _ in range(200):
        m = 0.5 * (lo + hi)
        if m - np.sin(m) < t: lo = m
        else: hi = m
    return 0.5 * (lo + hi)
def ho2q(h):
    n = np.linalg.norm(h)
    if n < 1e-14: return np.array([1.0, 0, 0, 0])
    return ax2q([h[0], h[1], h[2], ho_angle(n)])
def q2ax(q):
    q = np.array(q, float) / np.linalg.norm(q)
    if q[0] < 0: q = -q
    s = np.linalg.norm(q[1:])
    if s < 1e-15: return np.array([0, 0, 1.0, 0.0])
    return np.concatenate([q[1:] / s, [2 * np.arctan2(s, q[0])]])
def q2ho(q):
    a = q2ax(q)
    return a[:3] * cbrt(0.75 * (a[3] - np.sin(a[3])))
def q2ro(q):
    a = q2ax(q)
    return np.array([a[0], a[1], a[2], np.inf if np.pi - a[3] < 1e-12 else np.tan(a[3] / 2)])
def cu2ho(cu):
    """Rosca et al. 2014, written from the paper: cube -> ball"""
    cu = np.array(cu, float) * (np.pi / 6) ** (1 / 6)
    if np.abs(cu).max() < 1e-15: return np.zeros(3)
    ax = int(np.argmax(np.abs(cu)))
    perm = [(ax + 1) % 3, (ax + 2) % 3, ax]
    p = cu[perm]
    x, y, z = p
    if abs(x) < 1e-15 and abs(y) < 1e-15: out = np.array([0, 0, np.sqrt(6 / np.pi) * z])
    else:
        sw = abs(y) > abs(x)
        if sw: x, y = y, x
        q = np.pi / 12 * y / x
        # equal-area square -> disc -> ball
        bt = R1 * 2 ** 0.25 / (np.pi ** (5 / 6) / 6 ** (1 / 6) / 2)
        k = bt * x / np.sqrt(np.sqrt(2) - np.cos(q))
        t1, t2 = (np.sqrt(2) * np.cos(q) - 1) * k, np.sqrt(2) * np.sin(q) * k
        if sw: t1, t2 = t2, t1
        r = t1 * t1 + t2 * t2
        f = np.sqrt(max(0.0, 1 - np.pi * r / (24 * z * z)))
        out = np.array([t1 * f, t2 * f, np.sqrt(6 / np.pi) * z - np.sqrt(np.pi) * r / np.sqrt(24) / z])
    res = np.zeros(3)
    for i in range(3): res[perm[i]] = out[i]
    return res
def cu2q(c): return ho2q(cu2ho(c))
TOQ = {"qu": lambda q: np.array(q, float), "om": None, "eu": eu2q, "ax": ax2q, "ro": ro2q, "ho": ho2q, "cu": cu2q}
def tomat(kind, v):
    v = np.asarray(v, float)
    return v.reshape(3, 3) if kind == "om" else q2m(TOQ[kind](v))
def q2eu(q):
    m = q2m(q)
    c = np.clip(m[2, 2], -1, 1)
    if abs(c) > 1 - 1e-14: return np.array([np.arctan2(m[0, 1], m[0, 0]) % (2 * np.pi), 0 if c > 0 else np.pi, 0.0])
    return np.array([np.arctan2(m[2, 0], -m[2, 1]) % (2 * np.pi), np.arctan2(np.hypot(m[2, 0], m[2, 1]), c), np.arctan2(m[0, 2], m[1, 2]) % (2 * np.pi)])
FROMQ = {"qu": lambda q: q, "om": lambda q: q2m(q), "eu": q2eu, "ax": q2ax, "ro": q2ro, "ho": q2ho}
KINDS = ["eu", "om", "ax", "ro", "qu", "ho", "cu"]
def special():
    """named rotations: identity, half turns, thirds, gimbal-lock families"""
    out = [("identity", np.array([1.0, 0, 0, 0]))]
    for i, ax in enumerate([[1, 0, 0], [0, 1, 0], [0, 0, 1], [1, 1, 0], [1, -1, 0], [0, 1, 1], [0, -1, 1], [1, 0, 1], [-1, 0, 1], [1, 1, 1], [1, -2, 3], [-1, 0, 0], [0, -1, 0], [0, 0, -1], [-1, -1, 2]]):
        out.append(("half turn about %s" % ax, ax2q(list(ax) + [np.pi])))
        out.append(("third turn about %s" % ax, ax2q(list(ax) + [2 * np.pi / 3])))
        out.append(("quarter turn about %s" % ax, ax2q(list(ax) + [np.pi / 2])))
        out.append(("small turn about %s" % ax, ax2q(list(ax) + [1e-3])))
        out.append(("near half turn about %s" % ax, ax2q(list(ax) + [np.pi - 1e-3])))
    for a in (0.3, 1.7, 3.0, 4.5, 6.0):
        out.append(("gimbal Phi=0 phi1=%g" % a, eu2q([a, 0, 0]))); out.append(("gimbal Phi=pi phi1=%g" % a, eu2q([a, np.pi, 0])))
    return out
def dist(A, B):
    return float(np.abs(np.asarray(A) - np.asarray(B)).max())
