from pyvc import core, arrays
from pyvc.core import _cmp, band, bor
from pyvc.spec import *
EXPLANATION = "spacegroup2lauenumber is run on a symbolic space group number (1..230, all paths) against independently stated crystallographic ranges; each operator table is evaluated exactly from the source (algebraic numbers) and unit length, identity, closure, inverse, order, distinctness and the axis action are discharged as ground obligations with tolerance 1e-6 (the tables hold 9-digit decimals); the quatin argument is the Hamilton product with each operator for an arbitrary quaternion."
ASSUMPTIONS = ["operator entries are exact before the float32 store"]
RANGES = [(1, 2, 1), (3, 15, 2), (16, 74, 22), (75, 88, 4), (89, 142, 42), (143, 148, 3), (149, 167, 32), (168, 176, 6), (177, 194, 62), (195, 206, 23), (207, 230, 43)]
ORDER = {1: 1, 2: 2, 22: 4, 4: 4, 42: 8, 3: 3, 32: 6, 6: 6, 62: 12, 23: 12, 43: 24}
# axes (Cartesian) permuted by the class up to sign, and one rotation (axis, cos, sin) the class must contain
H = F("0.86602540378443864676")
CUBE = [(1, 0, 0), (0, 1, 0), (0, 0, 1)]
HEXA = [(1, 0, 0), (F(-1, 2), H, 0), (F(-1, 2), -H, 0)]
AXES = {1: [CUBE], 2: [[(0, 1, 0)]], 22: [[x] for x in CUBE], 4: [[(0, 0, 1)], CUBE[:2]], 42: [[(0, 0, 1)], CUBE[:2]], 3: [[(0, 0, 1)], HEXA], 32: [[(0, 0, 1)], HEXA], 6: [[(0, 0, 1)], HEXA], 62: [[(0, 0, 1)], HEXA], 23: [CUBE], 43: [CUBE]}
# every class contains these rotations (half angle quaternions)
r2 = F("0.70710678118654752440"); r3 = F("0.86602540378443864676"); h = F(1, 2)
GEN = {1: [], 2: [(0, 0, 1, 0)], 22: [(0, 1, 0, 0), (0, 0, 1, 0)], 4: [(r2, 0, 0, r2)], 42: [(r2, 0, 0, r2), (0, 1, 0, 0)], 3: [(h, 0, 0, r3)], 32: [(h, 0, 0, r3), (0, 1, 0, 0)],
       6: [(r3, 0, 0, h)], 62: [(r3, 0, 0, h), (0, 1, 0, 0)], 23: [(0, 1, 0, 0), (h, h, h, h)], 43: [(r2, 0, 0, r2), (h, h, h, h)]}
TOL = F(1, 10**6)
def table(E, L):
    cs = L.load("pyebsdindex.crystal_sym")
    sg = E.const("sg", "i"); E.assume(band(sg >= 1, sg <= 230))
    r = cs.spacegroup2lauenumber(sg)
    for a, b, l in RANGES: E.oblige("space groups %d-%d have Laue class %d" % (a, b, l), bor(_cmp("<", sg, a), bor(_cmp(">", sg, b), _cmp("==", r, l))))
def ops(laue):
    def th(E, L):
        cs = L.load("pyebsdindex.crystal_sym")
        q = cs.laueid2symops(laue)
        group(E, q, laue)
    return th
def viasg(laue):
    def th(E, L):
        cs = L.load("pyebsdindex.crystal_sym")
        a, b = [(a, b) for a, b, l in RANGES if l == laue][0]
        p, q = cs.laueid2symops(laue), cs.spacegroupnum2symops(b)
        E.oblige("same number of operators", _cmp("==", p.shape[0], q.shape[0]))
        for i in range(p.shape[0]):
            for j in range(4): E.oblige_near("operator %d of space group %d is the class's" % (i, b), p[i, j] - q[i, j], 0, TOL)
    return th
def near(a, b): return all(abs(x - y) < F(1, 1000) for x, y in zip(a, b))
def group(E, q, laue):
    n = ORDER[laue]
    E.oblige("order of the group", q.ndim == 2 and q.shape[0] == n and q.shape[1] == 4)
    if not (q.ndim == 2 and q.shape[0] == n): return
    Q = [[q[i, j] for j in range(4)] for i in range(n)]
    N = [[sum(E.ground_interval(x)) / 2 for x in r] for r in Q]
    for i in range(n): E.oblige_near("operator %d is a unit quaternion" % i, dotp(Q[i], Q[i]), 1, TOL)
    def member(v, num, what):
        """v (terms) equals one of the operators up to sign"""
        for i in range(n):
            for s in (1, -1):
                if near([s * x for x in N[i]], num):
                    for j in range(4): E.oblige_near(what, core.sub(v[j], core.mul(s, Q[i][j])), 0, TOL)
                    return
        E.oblige(what, False)
    member([F(1), F(0), F(0), F(0)], [1, 0, 0, 0], "contains the identity")
    for g in GEN[laue]: member([F(x) for x in g], g, "contains its defining rotations")
    for i in range(n):
        for j in range(i): E.oblige("operators %d and %d differ" % (i, j), abs(sum(x * y for x, y in zip(N[i], N[j]))) < F(99, 100))
        c = [N[i][0]] + [-x for x in N[i][1:]]
        member([Q[i][0]] + [core.neg(x) for x in Q[i][1:]], c, "contains the inverse of operator %d" % i)
        for j in range(n): member(ham(Q[i], Q[j]), ham(N[i], N[j]), "product of operators %d and %d is an operator" % (i, j))
        M = qmat(Q[i]); Mn = qmat(N[i])
        for orbit in AXES[laue]:
            for a in orbit:
                v = [dotp(M[r], a) for r in range(3)]; vn = [sum(Mn[r][k] * a[k] for k in range(3)) for r in range(3)]
                hit = [(s, b) for b in orbit for s in (1, -1) if near([s * x for x in b], vn)]
                E.oblige("operator %d maps the crystal axes onto themselves" % i, bool(hit))
                if hit:
                    s, b = hit[0]
                    for k in range(3): E.oblige_near("operator %d maps the crystal axes onto themselves" % i, v[k], s * b[k], 10 * TOL)
NAMES = {"cubicsym_q": (43, 23), "hexsym_q": (62, 6), "trigonal_q": (32, 3), "tetragonal_q": (42, 4), "orthorhombic_q": (22, 22), "monoclinic_q": (2, 2), "triclinic_q": (1, 1)}
def equiv(fn, low):
    def th(E, L):
        cs = L.load("pyebsdindex.crystal_sym")
        f = getattr(cs, fn)
        a = sarr("qin", (4,))
        q, r = f(low=low), f(a, low=low)
        if r.ndim == 1: r = r.reshape(1, 4)
        E.oblige("one equivalent per operator", q.shape[0] == r.shape[0] == ORDER[NAMES[fn][1 if low else 0]])
        E.oblige("input is not modified", unmodified(a))
        for i in range(q.shape[0]):
            w = ham([q[i, j] for j in range(4)], [a[j] for j in range(4)])
            # either sign is the same orientation; the code's default product keeps the Hamilton sign
            for j in range(4): E.oblige("equivalent %d is operator times orientation" % i, _cmp("==", r[i, j], w[j]))
    return th
def proofs(tier):
    out = [Proof("Laue class of every space group", ["crystal_sym.spacegroup2lauenumber"], table)]
    for l in ORDER:
        f = [k for k, v in NAMES.items() if l in v][0]
        out.append(Proof("operators of Laue class %d" % l, ["crystal_sym.laueid2symops", "crystal_sym." + f], ops(l), limit=120))
        out.append(Proof("space group to operators, class %d" % l, ["crystal_sym.spacegroupnum2symops"], viasg(l)))
    out += [Proof("%s(quatin%s)" % (f, ", low" if low else ""), ["crystal_sym." + f], equiv(f, low)) for f in NAMES for low in (False, True)]
    return out
