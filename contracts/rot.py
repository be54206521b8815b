"""Contracts of pyebsdindex.rotlib (orientation conversions and quaternion algebra)."""
from pyvc import core, arrays
from pyvc.core import S, lift, conc, _cmp, band, bor, bnot, ite
from pyvc.spec import *

def setup(E, nmin=1):
    n = E.const("n", "i"); E.assume(n >= nmin)
    return n, E.row(0, n)

def ghost(E, nm="g"):
    """an arbitrary unit quaternion"""
    g = [E.const(nm + str(i)) for i in range(4)]
    E.fact((g[0]*g[0]+g[1]*g[1]+g[2]*g[2]+g[3]*g[3]).t == 1)
    # orient the relation on component 0:  g0^2 -> 1 - ...
    for x in reversed(g): E.pctx.atom(x.t)
    E.pctx.add_relation(g[0].t, 2, (1 - g[1]*g[1] - g[2]*g[2] - g[3]*g[3]).t)
    for x in g: E.fact(z3.And(x.t <= 1, x.t >= -1))
    E.hints += g
    return g

def rows(E, name, n, k, vals, shape):
    """array whose row k holds the given values, every other row arbitrary"""
    f = z3.Function(name, *([z3.IntSort()] * (1 + len(shape)) + [z3.RealSort()]))
    def fn(i):
        if arrays.eq_idx(i[0], k) is True:
            v = vals
            for j in i[1:]:
                if not conc(j): raise Unsupported("symbolic column")
                v = v[j]
            return arrays.cast(v, arrays.F64)
        return S(f(*[lift(q) for q in i]))
    return marr(name, (n,) + tuple(shape), fn)

def unit3(E, nm="u"):
    u = [E.const(nm + str(i)) for i in range(3)]
    E.fact((u[0]*u[0]+u[1]*u[1]+u[2]*u[2]).t == 1)
    for x in reversed(u): E.pctx.atom(x.t)
    E.pctx.add_relation(u[0].t, 2, (1 - u[1]*u[1] - u[2]*u[2]).t)
    E.hints.append(core.wrap(z3.RealVal(1))) if False else None
    return u

# --- input descriptions: return (array, rotation matrix, unit quaternion or None)
def in_qu(E, n, k):
    g = ghost(E)
    return rows(E, "qu_in", n, k, g, (4,)), qmat(g), g
def in_om(E, n, k):
    g = ghost(E)
    return rows(E, "om_in", n, k, qmat(g), (3, 3)), qmat(g), g
def in_eu(E, n, k, phimax_open=False):
    sg, dl, ph = E.const("sigma"), E.const("delta"), E.const("Phi")
    E.full_angle(sg); E.full_angle(dl)
    a = [sg + dl, ph, sg - dl]           # every (phi1, phi2) has this form
    E.assume(band(a[0] >= 0, a[0] <= 2 * E.PI)); E.assume(band(a[1] >= 0, (a[1] < E.PI) if phimax_open else (a[1] <= E.PI))); E.assume(band(a[2] >= 0, a[2] <= 2 * E.PI))
    (cs, ss), (cd, sd), (c, s) = E.cossin(sg), E.cossin(dl), E.cossin(core.truediv(ph, 2))
    g = [c*cs, -s*cd, -s*sd, -c*ss]
    return rows(E, "eu_in", n, k, a, (3,)), qmat(g), g
def in_ax(E, n, k, canonical=True):
    u = unit3(E); w = E.const("omega")
    if canonical: E.assume(band(w >= 0, w <= E.PI))
    c, s = E.cossin(core.truediv(w, 2))
    g = [c, s*u[0], s*u[1], s*u[2]]
    E.axin = (u, w)
    return rows(E, "ax_in", n, k, u + [w], (4,)), qmat(g), g
def in_axany(E, n, k):
    """any nonzero axis, any angle"""
    u = unit3(E); w = E.const("omega"); m = E.const("len"); E.assume(m > 0)
    E.hints.append(m)
    c, s = E.cossin(core.truediv(w, 2))
    g = [c, s*u[0], s*u[1], s*u[2]]
    E.axin = (u, w)
    return rows(E, "ax_in", n, k, [m*x for x in u] + [w], (4,)), qmat(g), g
def in_ro(E, n, k):
    """unit axis, tan(w/2) >= 0 (finite)"""
    u = unit3(E); t = E.const("tanhalf"); E.assume(t >= 0)
    r = E.sqrt(1 + t*t)
    g = [core.truediv(1, r), core.truediv(t*u[0], r), core.truediv(t*u[1], r), core.truediv(t*u[2], r)]
    E.roin = (u, t)
    return rows(E, "ro_in", n, k, u + [t], (4,)), qmat(g), g
def in_roinf(E, n, k):
    u = unit3(E)
    g = [F(0)] + u
    import math
    f = z3.Function("ro_in", z3.IntSort(), z3.IntSort(), z3.RealSort())
    E.roin = (u, math.inf)
    return rows(E, "ro_in", n, k, u + [math.inf], (4,)), qmat(g), g

# --- output obligations
def out_qu(E, r, k, M, g, canon):
    b = [r[k, i] for i in range(4)]
    if canon:
        E.oblige("quaternion has unit length", dotp(b, b) == 1)
        E.oblige("quaternion scalar part is not negative", b[0] >= 0)
        return
    if g is not None:
        for i in range(4):
            for j in range(i): E.oblige("same rotation (q%d,q%d)" % (i, j), b[i]*g[j] == b[j]*g[i])
        E.oblige("same rotation (nonzero)", dotp(b, b) > 0)
def out_om(E, r, k, M, g, canon):
    m = [[r[k, i, j] for j in range(3)] for i in range(3)]
    if canon:
        for i in range(3):
            for j in range(i, 3): E.oblige("orthonormal rows %d,%d" % (i, j), dotp(m[i], m[j]) == (1 if i == j else 0))
        det = m[0][0]*(m[1][1]*m[2][2]-m[1][2]*m[2][1]) - m[0][1]*(m[1][0]*m[2][2]-m[1][2]*m[2][0]) + m[0][2]*(m[1][0]*m[2][1]-m[1][1]*m[2][0])
        E.oblige("determinant +1", det == 1)
        return
    for i in range(3):
        for j in range(3): E.oblige("same rotation (matrix entry %d,%d)" % (i, j), m[i][j] == M[i][j])
def out_eu(E, r, k, M, g, canon):
    a = [r[k, i] for i in range(3)]
    if canon:
        E.oblige("0 <= phi1 < 2pi", band(_cmp(">=", a[0], 0), _cmp("<", a[0], 2 * E.PI)))
        E.oblige("0 <= Phi <= pi", band(_cmp(">=", a[1], 0), _cmp("<=", a[1], E.PI)))
        E.oblige("0 <= phi2 < 2pi", band(_cmp(">=", a[2], 0), _cmp("<", a[2], 2 * E.PI)))
        return
    (c1, s1), (c2, s2), (c3, s3) = [E.cossin(x) for x in a]
    R = [[c1*c3 - s1*s3*c2, s1*c3 + c1*s3*c2, s3*s2], [-c1*s3 - s1*c3*c2, -s1*s3 + c1*c3*c2, c3*s2], [s1*s2, -c1*s2, c2]] if False else None
    m = core.mul; a_ = core.add; s_ = core.sub; ng = core.neg
    R = [[s_(m(c1, c3), m(m(s1, s3), c2)), a_(m(s1, c3), m(m(c1, s3), c2)), m(s3, s2)],
         [s_(ng(m(c1, s3)), m(m(s1, c3), c2)), a_(ng(m(s1, s3)), m(m(c1, c3), c2)), m(c3, s2)],
         [m(s1, s2), ng(m(c1, s2)), c2]]
    for i in range(3):
        for j in range(3): E.oblige("same rotation (matrix entry %d,%d)" % (i, j), _cmp("==", R[i][j], M[i][j]))
def axmat(E, u, w):
    c, s = E.cossin(w)
    m, a, sb = core.mul, core.add, core.sub
    o = sb(1, c)
    R = [[None]*3 for _ in range(3)]
    for i in range(3):
        for j in range(3):
            v = m(o, m(u[i], u[j]))
            if i == j: v = a(v, c)
            R[i][j] = v
    R[1][0] = a(R[1][0], m(s, u[2])); R[0][1] = sb(R[0][1], m(s, u[2]))
    R[2][1] = a(R[2][1], m(s, u[0])); R[1][2] = sb(R[1][2], m(s, u[0]))
    R[0][2] = a(R[0][2], m(s, u[1])); R[2][0] = sb(R[2][0], m(s, u[1]))
    return R
def out_ax(E, r, k, M, g, canon):
    b = [r[k, i] for i in range(4)]
    if canon:
        E.oblige("axis is a unit vector", _cmp("==", dotp(b[:3], b[:3]), 1))
        E.oblige("0 <= angle <= pi", band(_cmp(">=", b[3], 0), _cmp("<=", b[3], E.PI + F("1e-6"))))
        return
    R = axmat(E, b[:3], b[3])
    for i in range(3):
        for j in range(3): E.oblige("same rotation (matrix entry %d,%d)" % (i, j), _cmp("==", R[i][j], M[i][j]))
def out_ro(E, r, k, M, g, canon):
    import math
    b = [r[k, i] for i in range(4)]
    t = b[3]
    if canon:
        E.oblige("axis is a unit vector", _cmp("==", dotp(b[:3], b[:3]), 1))
        E.oblige("length is not negative", _cmp(">=", t, 0))
        return
    if isinstance(t, float):
        E.oblige("length not NaN", not math.isnan(t))
        E.oblige("half-turn (scalar part zero)", _cmp("==", g[0], 0))
        for i in range(3):
            for j in range(i): E.oblige("same axis", _cmp("==", core.mul(b[i], g[j+1]), core.mul(b[j], g[i+1])))
    else:
        for i in range(3): E.oblige("same rotation (component %d)" % i, _cmp("==", g[i+1], core.mul(g[0], core.mul(b[i], t))))
INS = {"qu": in_qu, "om": in_om, "eu": in_eu, "ax": in_ax, "ro": in_ro}
OUTS = {"qu": out_qu, "om": out_om, "eu": out_eu, "ax": out_ax, "ro": out_ro}

def conv(fname, src, dst, canon, insp=None, **kw):
    def th(E, L):
        rl = L.load("pyebsdindex.rotlib")
        n, k = setup(E)
        a, M, g = (insp or INS[src])(E, n, k, **kw)
        r = getattr(rl, fname)(a)
        OUTS[dst](E, r, k, M, g, canon)
        E.oblige("input is not modified", unmodified(a))
        E.row_effects(r, src + "_in", k)
    return th

# --- homochoric
def in_axw(E, n, k):
    """canonical axis-angle, also as quaternion, keeps (u, w) for the homochoric definition"""
    return in_ax(E, n, k)
def in_quw(E, n, k):
    """quaternion given through its axis and angle (either sign of the quaternion)"""
    u = unit3(E); w = E.const("omega"); E.assume(band(w >= 0, w <= E.PI))
    c, s = E.cossin(core.truediv(w, 2))
    g = [c, s*u[0], s*u[1], s*u[2]]
    E.invertible(core.truediv(w, 2))
    E.axin = (u, w)
    return rows(E, "qu_in", n, k, g, (4,)), qmat(g), g
def in_quwneg(E, n, k):
    a, M, g = in_quw(E, n, k)
    E.assume(E.axin[1] < E.PI)      # a half-turn has two axes
    return rows(E, "qu_in", n, k, [core.neg(x) for x in g], (4,)), M, g
def in_row(E, n, k):
    """Rodrigues vector given through its axis and angle < pi"""
    u = unit3(E); w = E.const("omega"); E.assume(band(w >= 0, w < E.PI))
    c, s = E.cossin(core.truediv(w, 2))
    g = [c, s*u[0], s*u[1], s*u[2]]
    E.invertible(core.truediv(w, 2))
    E.axin = (u, w)
    E.assume(c > 0)
    return rows(E, "ro_in", n, k, u + [core.truediv(s, c)], (4,)), qmat(g), g
def in_roinfw(E, n, k):
    a, M, g = in_roinf(E, n, k)
    E.axin = (E.roin[0], E.PI)
    return a, M, g
def out_ho(E, r, k, M, g, canon):
    """homochoric vector of (u, w): direction u, cubed length 3/4 (w - sin w)"""
    u, w = E.axin
    b = [r[k, i] for i in range(3)]
    rad = core.mul(F(3, 4), core.sub(w, E.cossin(w)[1]))
    f = E.cbrt(rad)
    E.fact(lift(_cmp(">=", f, 0)))
    for i in range(3): E.oblige("homochoric component %d" % i, _cmp("==", b[i], core.mul(f, u[i])))
    if canon:
        E.oblige("cubed length at most 3 pi / 4", _cmp("<=", rad, core.mul(F(3, 4), E.PI)))
        E.oblige("cubed length not negative", _cmp(">=", rad, 0))
OUTS["ho"] = out_ho

def axnorm_stub(E, rl):
    """replace axnormL by its contract (proved separately): same rotation, unit axis, angle in [0, pi]"""
    def axnormL(ax):
        u, w = E.axin
        n = ax.shape[0]
        f = z3.Function("axn", z3.IntSort(), z3.IntSort(), z3.RealSort())
        k = E.rowk
        def fn(i):
            if arrays.eq_idx(i[0], k) is True and conc(i[1]): return (list(u) + [w])[i[1]]
            return S(f(*[lift(q) for q in i]))
        return arrays.mk((n, 4), arrays.F64, fn)
    rl.axnormL = axnormL

def convho(fname, src, canon, insp, stub=False, **kw):
    def th(E, L):
        rl = L.load("pyebsdindex.rotlib")
        n, k = setup(E); E.rowk = k
        a, M, g = insp(E, n, k, **kw)
        if stub: axnorm_stub(E, rl)
        r = getattr(rl, fname)(a)
        out_ho(E, r, k, M, g, canon)
        E.oblige("input is not modified", unmodified(a))
    return th

def ho2ax_dir(canon):
    def th(E, L):
        rl = L.load("pyebsdindex.rotlib")
        n, k = setup(E)
        u = unit3(E); m = E.const("len"); E.assume(m > 0); E.hints.append(m)
        h = [m * x for x in u]
        a = rows(E, "ho_in", n, k, h, (3,))
        r = rl.ho2ax(a)
        b = [r[k, i] for i in range(4)]
        if canon:
            E.oblige("axis is a unit vector", dotp(b[:3], b[:3]) == 1)
            E.oblige("angle is not negative", _cmp(">=", b[3], 0))      # upper bound: accuracy of the fit, bounded suite
        else:
            for i in range(3):
                for j in range(i): E.oblige("axis parallel to the homochoric vector", b[i] * u[j] == b[j] * u[i])
            E.oblige("axis points the same way", dotp(b[:3], u) > 0)
        E.oblige("input is not modified", unmodified(a))
        E.row_effects(r, "ho_in", k)
    return th

# --- compositions: every callee is replaced by its contract
class Rot:
    """a value known only through its representation and the rotation it stands for"""
    __vc_loopsafe__ = True
    def __init__(self, kind, ghost): self.kind, self.ghost = kind, ghost
DIRECT = ["eu2om", "eu2ax", "eu2qu", "om2eu", "ax2om", "qu2eu", "ax2ho", "ho2ax", "ro2ax", "ax2ro", "ax2qu", "ro2ho", "qu2om", "om2qu", "qu2ax", "qu2ro", "qu2ho", "ho2cu", "cu2ho"]
COMPOSED = ["eu2ro", "ro2om", "ro2eu", "eu2ho", "om2ax", "om2ro", "om2ho", "ax2eu", "ro2qu", "ho2eu", "ho2om", "ho2ro", "ho2qu", "eu2cu", "om2cu", "ax2cu", "ro2cu", "qu2cu", "cu2eu", "cu2om", "cu2ax", "cu2ro", "cu2qu"]
def composed(fname):
    def th(E, L):
        rl = L.load("pyebsdindex.rotlib")
        real = getattr(rl, fname)
        def stub(nm):
            def f(x, p=1):
                if not isinstance(x, Rot): raise Unsupported("argument of %s" % nm)
                E.oblige("%s: %s is called with its own input representation" % (fname, nm), x.kind == nm[:2])
                E.oblige("%s: %s is called with the same handedness" % (fname, nm), p == E.pp)
                return Rot(nm[3:5], x.ghost)
            return f
        saved = {}
        for nm in DIRECT + COMPOSED:
            if nm != fname and hasattr(rl, nm): saved[nm] = getattr(rl, nm); setattr(rl, nm, stub(nm))
        try:
            for pp in (1, -1):
                E.pp = pp
                r = real(Rot(fname[:2], "g"), p=pp)
                if not isinstance(r, Rot): raise Unsupported("%s does not return the result of a converter" % fname)
                E.oblige("%s: result representation" % fname, r.kind == fname[3:5])
                E.oblige("%s: same rotation" % fname, r.ghost == "g")
        finally:
            for nm, f in saved.items(): setattr(rl, nm, f)
    return th

CONVS = [("eu2om", "eu", "om", None, {}), ("eu2qu", "eu", "qu", None, {}), ("eu2ax", "eu", "ax", None, {"phimax_open": True}), ("om2eu", "om", "eu", None, {}), ("om2qu", "om", "qu", None, {}),
    ("ax2om", "ax", "om", in_axany, {}), ("qu2eu", "qu", "eu", None, {}), ("ro2ax", "ro", "ax", None, {}), ("ro2ax", "ro", "ax", in_roinf, {}), ("ax2ro", "ax", "ro", in_axany, {}), ("ax2qu", "ax", "qu", in_axany, {}),
    ("qu2om", "qu", "om", None, {}), ("qu2ax", "qu", "ax", None, {}), ("qu2ro", "qu", "ro", None, {}), ("axnorm", "ax", "ax", in_axany, {}), ("quatnorm", "qu", "qu", None, {})]
HELP = {"eu2om": "eu2omL", "eu2qu": "eu2quL", "eu2ax": "eu2axL"}
def conv_proofs(canon, extra=""):
    out = []
    for f, s, d, insp, kw in CONVS:
        out.append(Proof("%s%s%s" % (f, "[unbounded length]" if insp is in_roinf else "", extra), ["rotlib." + f, "rotlib." + f + "L", "rotlib.prepIn"], conv(f, s, d, canon, insp, **kw)))
    for f, insp, nm, st in [("ax2ho", in_axw, "", True), ("qu2ho", in_quw, "", False), ("qu2ho", in_quwneg, "[negated]", False), ("ro2ho", in_row, "", False), ("ro2ho", in_roinfw, "[unbounded length]", False)]:
        out.append(Proof("%s%s%s" % (f, nm, extra), ["rotlib." + f, "rotlib." + f + "L"], convho(f, f[:2], canon, insp, stub=st)))
    out.append(Proof("ho2ax direction%s" % extra, ["rotlib.ho2ax", "rotlib.ho2axL"], ho2ax_dir(canon), opaque_arc=True, maxdeg=6))
    return out

# --- quaternion algebra
def qmul(p, n1, n2, fn="quat_multiply"):
    def th(E, L):
        rl = L.load("pyebsdindex.rotlib")
        n, k = setup(E)
        q1 = sarr("q1", (n if n1 else 1, 4)); q2 = sarr("q2", (n if n2 else 1, 4))
        r = rl.quat_multiply(q1, q2, p=p)
        k1, k2 = (k if n1 else 0), (k if n2 else 0)
        a = [q1[k1, i] for i in range(4)]; b = [q2[k2, i] for i in range(4)]
        h = ham(a, b) if p > 0 else ham(b, a)
        rk = [r[k, i] if r.ndim == 2 else r[i] for i in range(4)]
        for i in range(4): E.oblige("component %d of the product" % i, rk[i] == h[i])
        E.oblige("first operand is not modified", unmodified(q1)); E.oblige("second operand is not modified", unmodified(q2))
        E.oblige("element k of the result only reads element k of the operands", not any(foreign_rows(x, "q1", [k1]) or foreign_rows(x, "q2", [k2]) for x in rk if isinstance(x, S)))
    return th
def qvec(p, n1, n2):
    def th(E, L):
        rl = L.load("pyebsdindex.rotlib")
        n, k = setup(E)
        g = ghost(E); v = [E.const("v%d" % i) for i in range(3)]
        k1, k2 = (k if n1 else 0), (k if n2 else 0)
        q = rows(E, "q1", n if n1 else 1, k1, g, (4,)); va = rows(E, "vin", n if n2 else 1, k2, v, (3,))
        r = rl.quat_vector(q, va, p=p)
        gg = g if p > 0 else [g[0], -g[1], -g[2], -g[3]]
        M = qmat(gg)
        rk = [r[k, i] if r.ndim == 2 else r[i] for i in range(3)]
        for i in range(3): E.oblige("rotated component %d equals matrix times vector" % i, rk[i] == dotp(M[i], v))
        E.oblige("length is preserved", dotp(rk, rk) == dotp(v, v))
        E.oblige("quaternions are not modified", unmodified(q)); E.oblige("vectors are not modified", unmodified(va))
        E.oblige("element k of the result only reads element k of the operands", not any(foreign_rows(x, "q1", [k1]) or foreign_rows(x, "vin", [k2]) for x in rk if isinstance(x, S)))
    return th
def qalg(E, L):
    """lemmas over the proved contract of quat_multiply: consequences for arbitrary quaternions"""
    a, b, c = [[E.const("%s%d" % (x, i)) for i in range(4)] for x in "abc"]
    l, r = ham(ham(a, b), c), ham(a, ham(b, c))
    for i in range(4): E.oblige("associativity, component %d" % i, l[i] == r[i])
    ab = ham(a, b)
    E.oblige("norm is multiplicative", dotp(ab, ab) == dotp(a, a) * dotp(b, b))
    cj = [a[0], -a[1], -a[2], -a[3]]
    d = ham(a, cj)
    E.oblige("conjugate is the inverse: scalar part", d[0] == dotp(a, a))
    for i in range(1, 4): E.oblige("conjugate is the inverse: vector part", d[i] == 0)
def qconj(E, L):
    rl = L.load("pyebsdindex.rotlib")
    n, k = setup(E)
    q = sarr("q1", (n, 4))
    a = [q[k, i] for i in range(4)]
    r = rl.quatconj(q)
    b = [r[k, i] if r.ndim == 2 else r[i] for i in range(4)]
    for i in range(4): E.oblige("conjugate component %d" % i, b[i] == (a[0] if i == 0 else -a[i]))
    E.oblige("input is not modified", unmodified(q))
    E.row_effects(r, "q1", k) if r.ndim == 2 else None
def qmul1(p):
    def th(E, L):
        rl = L.load("pyebsdindex.rotlib")
        a = [E.const("a%d" % i) for i in range(4)]; b = [E.const("b%d" % i) for i in range(4)]
        r = rl.quat_multiply1(arrays.asarray(a, arrays.F64), arrays.asarray(b, arrays.F64), p=p)
        h = ham(a, b) if p > 0 else ham(b, a)
        for i in range(4): E.oblige("component %d of the product" % i, r[i] == h[i])
    return th
def qvec1(p):
    def th(E, L):
        rl = L.load("pyebsdindex.rotlib")
        g = ghost(E); v = [E.const("v%d" % i) for i in range(3)]
        r = rl.quat_vector1(arrays.asarray(g, arrays.F64), arrays.asarray(v, arrays.F64), p=p)
        M = qmat(g if p > 0 else [g[0], -g[1], -g[2], -g[3]])
        for i in range(3): E.oblige("rotated component %d equals matrix times vector" % i, r[i] == dotp(M[i], v))
    return th
def qaction(E, L):
    """lemma over the contracts: rotating by a product is rotating in sequence (default handedness matrix = qmat)"""
    g = ghost(E, "g"); h = ghost(E, "h")
    A, B = qmat(g), qmat(h)
    C = qmat(ham(g, h))
    for i in range(3):
        for j in range(3): E.oblige("matrix of the product (%d,%d)" % (i, j), C[i][j] == A[i][0]*B[0][j] + A[i][1]*B[1][j] + A[i][2]*B[2][j])
    for i in range(3):
        for j in range(i, 3): E.oblige("matrix is orthogonal (%d,%d)" % (i, j), dotp(A[i], A[j]) == (1 if i == j else 0))
    T = qmat([g[0], -g[1], -g[2], -g[3]])
    for i in range(3):
        for j in range(3): E.oblige("conjugate gives the inverse rotation (%d,%d)" % (i, j), T[i][j] == A[j][i])
PAIRS = [(1, 1, "N by N"), (0, 1, "1 by N"), (1, 0, "N by 1")]
