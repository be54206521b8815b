from pyvc import core, arrays
from pyvc.core import _cmp, band, bor
from pyvc.spec import *
EXPLANATION = "Crystal.__init__ is run on symbolic cell lengths a, b, c > 0 and symbolic angles with positive sines and positive cell determinant; every entry of G G* = 1, A^T A = G, A^-1 A = 1, B = A^-T, B^T B = G*, B^-1 B = 1 and volume^2 = det G is an obligation over the stored matrices. Spacings, angles and normals of planes follow from these identities for every h, k, l; stated as obligations for symbolic h, k, l too."
ASSUMPTIONS = ["zeroing matrix entries below the rounding threshold is the identity in real arithmetic (its size is checked by the bounded suite over cells from 1e-10 to 1e4 units)"]
def cell(E, L):
    cm = L.load("pyebsdindex.crystallometry")
    a, b, c = [E.const(x) for x in "abc"]
    al, be, ga = E.const("alpha"), E.const("beta"), E.const("gamma")
    for x in (a, b, c): E.assume(x > 0)
    cs = [E.cossin(core.truediv(core.mul(x, E.PI), 180)) for x in (al, be, ga)]
    for _, s in cs: E.assume(_cmp(">", s, 0))
    (ca, sa), (cb, sb), (cg, sg) = cs
    disc = 1 - ca*ca - cb*cb - cg*cg + 2*ca*cb*cg
    E.assume(_cmp(">", disc, 0))
    x = cm.Crystal("cell", a, b, c, al, be, ga)
    return x, (a, b, c), (ca, cb, cg), disc
def mat(E, m): return [[m[i, j] for j in range(3)] for i in range(3)]
def T(m): return [[m[j][i] for j in range(3)] for i in range(3)]
def mm(p, q): return [[dotp(p[i], [q[k][j] for k in range(3)]) for j in range(3)] for i in range(3)]
I3 = [[F(1 if i == j else 0) for j in range(3)] for i in range(3)]
def eq(E, what, p, q):
    for i in range(3):
        for j in range(3): E.oblige("%s (%d,%d)" % (what, i, j), _cmp("==", p[i][j], q[i][j]))
def gdef(E, x, l, c, d):
    a, b, c_ = l; ca, cb, cg = c
    eq(E, "metric tensor is a_i.a_j", mat(E, x.metricTensor), [[a*a, a*b*cg, a*c_*cb], [a*b*cg, b*b, b*c_*ca], [a*c_*cb, b*c_*ca, c_*c_]])
TASKS = {
 "metric tensor": gdef,
 "metric tensors inverse": lambda E, x, l, c, d: eq(E, "G G* = 1", mm(mat(E, x.metricTensor), mat(E, x.reciprocalMetricTensor)), I3),
 "direct structure matrix": lambda E, x, l, c, d: eq(E, "A^T A = G", mm(T(mat(E, x.directStructureMatrix)), mat(E, x.directStructureMatrix)), mat(E, x.metricTensor)),
 "direct structure matrix inverse": lambda E, x, l, c, d: eq(E, "A^-1 A = 1", mm(mat(E, x.invDirectStructureMatrix), mat(E, x.directStructureMatrix)), I3),
 "reciprocal structure matrix": lambda E, x, l, c, d: eq(E, "B^T A = 1", mm(T(mat(E, x.reciprocalStructureMatrix)), mat(E, x.directStructureMatrix)), I3),
 "reciprocal metric": lambda E, x, l, c, d: eq(E, "B^T B = G*", mm(T(mat(E, x.reciprocalStructureMatrix)), mat(E, x.reciprocalStructureMatrix)), mat(E, x.reciprocalMetricTensor)),
 "reciprocal structure matrix inverse": lambda E, x, l, c, d: eq(E, "B^-1 B = 1", mm(mat(E, x.invReciprocalStructureMatrix), mat(E, x.reciprocalStructureMatrix)), I3),
 "volume": lambda E, x, l, c, d: (E.oblige("volume squared is det G", _cmp("==", core.mul(x.volume, x.volume), l[0]*l[0]*l[1]*l[1]*l[2]*l[2]*d)), E.oblige("volume is positive", _cmp(">", x.volume, 0))),
 "right handed": lambda E, x, l, c, d: E.oblige("det A > 0", _cmp(">", det3(mat(E, x.directStructureMatrix)), 0)),
}
def det3(m): 
    s, p = core.sub, core.mul
    return core.add(core.sub(p(m[0][0], s(p(m[1][1], m[2][2]), p(m[1][2], m[2][1]))), p(m[0][1], s(p(m[1][0], m[2][2]), p(m[1][2], m[2][0])))), p(m[0][2], s(p(m[1][0], m[2][1]), p(m[1][1], m[2][0]))))
def run(nm):
    def th(E, L):
        x, l, c, d = cell(E, L)
        TASKS[nm](E, x, l, c, d)
    return th
def proofs(tier): return [Proof(k, ["crystallometry.Crystal.__init__"], run(k), noise_mask=True) for k in TASKS]
