from pyvc import core, arrays
from pyvc.core import _cmp, band, bor
from pyvc.spec import *
EXPLANATION = "Both converters run on n >= 1 rows of arbitrary indices; for an arbitrary row k the result is stated as a term over row k only, the two compositions are shown to be the identity (four-index input with third entry -(first+second)); uvtw2uvw is shown to be a positive multiple of (2u+v, u+2v, w) for all indices."
ASSUMPTIONS = ["contract assumed on math.gcd: the result is a non-negative common divisor of its arguments, zero only for zero arguments"]
def n_k(E):
    n = E.const("n", "i"); E.assume(n >= 1)
    return n, E.row(0, n)
def row(r, k, m):
    return [r[k, j] for j in range(m)] if r.ndim == 2 else [r[j] for j in range(m)]
def three4(E, L):
    cs = L.load("pyebsdindex.crystal_sym")
    n, k = n_k(E)
    a = sarr("p3", (n, 3))
    r = cs.hex3poles2hex4poles(a)
    E.oblige("one four-index row per row", band(_cmp("==", r.shape[0], n), _cmp("==", r.shape[1], 4)))
    h, kk, l = row(a, k, 3); v = row(r, k, 4)
    E.oblige("first, second and last index kept", band(_cmp("==", v[0], h), band(_cmp("==", v[1], kk), _cmp("==", v[3], l))))
    E.oblige("third index is minus the sum of the first two", _cmp("==", v[2], core.neg(core.add(h, kk))))
    E.row_effects(r, "p3", k)
    b = cs.hex4poles2hex3poles(r)
    E.oblige("one three-index row per row", band(_cmp("==", b.shape[0], n), _cmp("==", b.shape[1], 3)))
    for i, (x, y) in enumerate(zip(row(b, k, 3), (h, kk, l))): E.oblige("three-four-three is the identity (%d)" % i, _cmp("==", x, y))
    E.oblige("input is not modified", unmodified(a))
def four3(E, L):
    cs = L.load("pyebsdindex.crystal_sym")
    n, k = n_k(E)
    f = z3.Function("p4", z3.IntSort(), z3.IntSort(), z3.RealSort())
    g = lambda i, j: core.S(f(lift(i), lift(j)))
    a = marr("p4", (n, 4), lambda i: core.neg(core.add(g(i[0], 0), g(i[0], 1))) if core.conc(i[1]) and i[1] == 2 else g(i[0], i[1]))
    r = cs.hex4poles2hex3poles(a)
    E.oblige("one three-index row per row", band(_cmp("==", r.shape[0], n), _cmp("==", r.shape[1], 3)))
    v = row(r, k, 3)
    for x, y in zip(v, (g(k, 0), g(k, 1), g(k, 3))): E.oblige("keeps first, second, last", _cmp("==", x, y))
    E.row_effects(r, "p4", k)
    b = row(cs.hex3poles2hex4poles(r), k, 4)
    for j in range(4): E.oblige("four-three-four is the identity (%d)" % j, _cmp("==", b[j], a[k, j]))
    E.oblige("input is not modified", unmodified(a))
def single(E, L):
    cs = L.load("pyebsdindex.crystal_sym")
    a = sarr("p3", (3,)); h, k, l = a[0], a[1], a[2]
    v = cs.hex3poles2hex4poles(a).reshape(4)
    for i, w in enumerate((h, k, core.neg(core.add(h, k)), l)): E.oblige("single plane, entry %d" % i, _cmp("==", v[i], w))
    b = cs.hex4poles2hex3poles(v).reshape(3)
    for i, w in enumerate((h, k, l)): E.oblige("single plane round trip %d" % i, _cmp("==", b[i], w))
def direction(E, L):
    cm = L.load("pyebsdindex.crystallometry")
    u, v, w = E.const("u"), E.const("v"), E.const("w")
    a = marr("uvtw", (4,), lambda i: [u, v, core.neg(core.add(u, v)), w][i[0]])
    r = cm.uvtw2uvw(a)
    x = [core.add(core.mul(2, u), v), core.add(u, core.mul(2, v)), w]
    p = [r[i] for i in range(3)]
    if any(isinstance(q, float) for q in p): E.oblige("finite direction", False); return
    for i in range(3):
        for j in range(i): E.oblige("parallel (%d,%d)" % (i, j), _cmp("==", core.mul(p[i], x[j]), core.mul(p[j], x[i])))
        # same direction: p_i and x_i have the same sign
        E.oblige("same sense (%d)" % i, band(bor(_cmp("<=", x[i], 0), _cmp(">", p[i], 0)), bor(_cmp(">=", x[i], 0), _cmp("<", p[i], 0))))
        E.oblige("zero stays zero (%d)" % i, bor(_cmp("!=", x[i], 0), _cmp("==", p[i], 0)))
def proofs(tier):
    return [Proof("hex3poles2hex4poles", ["crystal_sym.hex3poles2hex4poles", "crystal_sym.hex4poles2hex3poles"], three4),
            Proof("hex4poles2hex3poles", ["crystal_sym.hex3poles2hex4poles", "crystal_sym.hex4poles2hex3poles"], four3),
            Proof("single plane", ["crystal_sym.hex3poles2hex4poles", "crystal_sym.hex4poles2hex3poles"], single),
            Proof("uvtw2uvw", ["crystallometry.uvtw2uvw"], direction)]
