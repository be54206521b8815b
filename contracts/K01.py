"""IPF colours"""
import types
from pyvc import core, arrays, npshim
from pyvc.core import _cmp, band, bor, bnot, add, sub, mul, ite, S
from pyvc.spec import *
from contracts.files import obj
from contracts import bands
LEVEL = "exploration"
EXPLANATION = "PROVED by tasks: makeipf (one to three phases, any number of points, any xsize and ysize, given or taken from the file) puts at row y, column x the colour of point y*xsize+x, from the quaternion of that point in the layer of its phase, black when not indexed or past the end, in [0, 1], without altering the results; qu2ipf_cubic and qu2ipf_hex give in [0, 1] the key's colour of the point's own crystal direction; ipf_color_cubic gives the same colour after reversing one axis or exchanging two (these generate the full cubic point group, opposite directions included), and the colour of a direction depends on that direction only. BOUNDED: the symmetry of the hexagonal key (its folding loops run until no row of the whole map needs another step), and that saturation handed to hsv_to_rgb does not exceed 1; the level of the property stays exploration for these."
ASSUMPTIONS = ["contract of matplotlib's hsv_to_rgb: a function of the triple with values in [0, 1]", "contract of quat_vector: R05", "np.sort of three values: their ascending order", "products, quotients, roots and arctangents are uninterpreted in the cubic key (equal arguments give equal values)"]
Z, R = z3.IntSort(), z3.RealSort()
class Plt:
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        return Plt()
    def __call__(self, *a, **k): raise Unsupported("plotting")
SHIMS = {"matplotlib.colors": Plt(), "matplotlib.pyplot": Plt(), "matplotlib": Plt(), "matplotlib.font_manager": Plt(), "pyebsdindex.EBSDImage": types.SimpleNamespace(micronbar=Plt(), scalarimage=Plt()), "pyebsdindex.EBSDImage.micronbar": Plt(), "pyebsdindex.EBSDImage.scalarimage": Plt()}
IPF = "pyebsdindex.EBSDImage.IPFcolor"
def table(E, codes, n):
    """the result table: one layer per phase and the best solution"""
    nl = len(codes) + 1
    q, ph, ft = z3.Function("QU", Z, Z, Z, R), z3.Function("PH", Z, Z, Z), z3.Function("FIT", Z, Z, R)
    dt = arrays.StructDT([("quat", "float64", (4,)), ("phase", "int32"), ("fit", "float32")])
    d = npshim.StructArr((nl, n), dt)
    def phase(i):
        v = S(ph(*[lift(x) for x in i])); E.fact(z3.And(v.t >= -1, v.t < len(codes))); return v
    def fit(i):
        # a record without a solution has phase -1 and a fit of 180 degrees (T03, I01)
        v = S(ft(*[lift(x) for x in i])); p = phase(i); E.fact(z3.Implies(p.t == -1, v.t == 180)); E.fact(z3.Implies(p.t >= 0, v.t <= 179)); return v
    d.f["quat"] = marr("quat", (nl, n, 4), lambda i: S(q(*[lift(x) for x in i])))
    d.f["phase"] = marr("phase", (nl, n), phase, d.f["phase"].dtype)
    d.f["fit"] = marr("fit", (nl, n), fit)
    return d, nl, q, ph, ft
def makeipf(codes, ys, xs):
    def th(E, L):
        m = L.load(IPF)
        n = E.const("npoints", "i"); E.assume(n >= 1)
        X = E.const("xsize", "i"); E.assume(X >= 1)
        d, nl, q, ph, ft = table(E, codes, n)
        vec = arrays.asarray([E.const("v%d" % i) for i in range(3)])
        col = {43: z3.Function("CUB", Z, Z, Z, R), 62: z3.Function("HEX", Z, Z, Z, R)}
        def key(code):
            def f(quat, vector=None):
                E.oblige("the sample direction asked for is used", vector is vec)
                i, c = E.fresh("at", "i"), None
                E.fact(z3.And(i.t >= 0, lift(_cmp("<", i, quat.shape[0]))))
                E.oblige("all four components are handed over", _cmp("==", quat.shape[1], 4))
                for c in range(4):
                    a = bands.apps(quat[i, c], "QU")
                    if len(a) != 1: raise Unsupported("quaternions handed over are not those of the table")
                    E.oblige("quaternion components in order", _cmp("==", quat[i, c], S(q(a[0].arg(0), a[0].arg(1), z3.IntVal(c)))))
                p, r = a[0].arg(0), a[0].arg(1)
                def v(ix):
                    w = [z3.substitute(t, (i.t, lift(ix[0]))) for t in (p, r)]
                    x = S(col[code](w[0], w[1], lift(ix[1]))); E.fact(z3.And(x.t >= 0, x.t <= 1)); return x
                return marr("col", (quat.shape[0], 3), v)
            return f
        m.qu2ipf_cubic, m.qu2ipf_hex = key(43), key(62)
        ix = types.SimpleNamespace(phaseLib=[types.SimpleNamespace(lauecode=c) for c in codes], fID=types.SimpleNamespace(nCols=X, xStep=1))
        kw = {"xsize": X} if xs else {}
        if ys: Y = E.const("ysize", "i"); E.assume(Y >= 1); kw["ysize"] = Y
        r = m.makeipf(d, ix, vector=vec, **kw)
        H = Y if ys else core.S(r.shape[0].t) if isinstance(r.shape[0], S) else r.shape[0]
        E.oblige("shape of the map", band(band(_cmp("==", r.shape[0], H), _cmp("==", r.shape[1], X)), _cmp("==", r.shape[2], 3)))
        if not ys:
            # as many rows as needed: the last point is on the last row
            qq, rem = E.divmod_idx(sub(n, 1), X)
            E.oblige("every point is on the map and the last row is not empty", _cmp("==", H, add(qq, 1)))
        y, x = E.row(0, H), E.row(0, X)
        pt = add(mul(y, X), x) if False else E.lin_idx(y, X, x)
        inside = _cmp("<", pt, n)
        for c in range(3):
            v = r[y, x, c]
            E.oblige("colour values lie in [0, 1]", band(_cmp(">=", v, 0), _cmp("<=", v, 1)))
            E.scope_push(); E.fact(lift(inside))
            p = d.f["phase"][nl - 1, pt]; d.f["fit"][nl - 1, pt]
            E.oblige("points not indexed are black", bor(_cmp(">=", p, 0), _cmp("==", v, 0)))
            for k, code in enumerate(codes):
                own = S(col[code](z3.IntVal(k), lift(pt), z3.IntVal(c)))
                E.oblige("a point of phase %d has the colour of its own orientation" % k, bor(_cmp("!=", p, k), _cmp("==", v, own)))
            E.scope_pop()
            E.oblige("outside the scan the map is black", bor(inside, _cmp("==", v, 0)))
        for f in d.f: E.oblige("the results are not modified (%s)" % f, unmodified(d.f[f]))
    return th
class Colors(Plt):
    """matplotlib.colors through the contract of hsv_to_rgb: defined for triples in [0, 1], a function of the triple with values in [0, 1]"""
    F = z3.Function("RGB", R, R, R, Z, R)
    def hsv_to_rgb(self, a):
        E = core.E
        if len(a.shape) != 2: raise Unsupported("hsv_to_rgb of something else")
        E.oblige("one hue, saturation and value per point", _cmp("==", a.shape[1], 3))
        i = E.fresh("at", "i"); E.fact(z3.And(i.t >= 0, lift(_cmp("<", i, a.shape[0]))))
        self.last = [a[i, c] for c in range(3)]
        for nm, v in zip(("hue", "saturation", "value"), self.last): self.range(nm, v)
        def g(ix):
            v = S(self.F(*[lift(core.fl(a[ix[0], c])) for c in range(3)] + [lift(ix[1])])); E.fact(z3.And(v.t >= 0, v.t <= 1)); return v
        return marr("rgb", (a.shape[0], 3), g)
    def range(self, nm, v): core.E.oblige("%s handed to hsv_to_rgb lies in [0, 1]" % nm, band(_cmp(">=", v, 0), _cmp("<=", v, 1)))
def directions(E, n, k, vals):
    f = z3.Function("dir", Z, Z, R)
    def fn(i):
        if arrays.eq_idx(i[0], k) is True: v = vals
        else: v = [S(f(lift(i[0]), c)) for c in range(3)]
        E.fact(lift(_cmp(">", dotp(v, v), 0)))
        return v[i[1]]
    return marr("dir", (n, 3), fn)
GENS = {"the first axis reversed": lambda x: [core.neg(x[0]), x[1], x[2]], "the first two axes exchanged": lambda x: [x[1], x[0], x[2]], "the last two axes exchanged": lambda x: [x[0], x[2], x[1]]}
def cubic_key(gen):
    def th(E, L):
        m = L.load(IPF)
        n = E.const("n", "i"); E.assume(n >= 1); k = E.row(0, n)
        x = [E.const("x%d" % i) for i in range(3)]
        m.pltcolors = Colors(); m.pltcolors.range = lambda nm, v: None       # task "range"
        a = m.ipf_color_cubic(directions(E, n, k, x))
        E.oblige("one colour per direction", band(_cmp("==", a.shape[0], n), _cmp("==", a.shape[1], 3)))
        b = m.ipf_color_cubic(directions(E, n, k, GENS[gen](x)))
        for c in range(3):
            E.oblige("the same colour with %s" % gen, _cmp("==", a[k, c], b[k, c]))
            if foreign_rows(a[k, c], "dir", []): E.oblige("the colour of a direction depends on that direction only", False)
    return th
def chain(code, one):
    """qu2ipf_*: the key's colour of the direction that quat_vector gives for the same point"""
    def th(E, L):
        m = L.load(IPF)
        n = 1 if one else E.const("n", "i")
        if not one: E.assume(n >= 1)
        k = E.row(0, n)
        vec = arrays.asarray([E.const("v%d" % i) for i in range(3)]); qu = sarr("QU", (n, 4))
        X, C = z3.Function("XD", Z, Z, R), z3.Function("COL", Z, Z, R)
        class Rot:
            """contract of rotlib.quat_vector (R05): one vector per quaternion, squeezed"""
            def quat_vector(self, q, v, p=None):
                if p is not None: raise Unsupported("handedness argument")
                E.oblige("all quaternions are used as they are", band(_cmp("==", q.shape[0], n), _cmp("==", q.shape[1], 4)))
                i = E.row(0, n)
                for c in range(4): E.oblige("all quaternions are used as they are", _cmp("==", q[i, c], qu[i, c]))
                for c in range(3): E.oblige("the sample direction is used as it is", _cmp("==", v[c], vec[c]))
                return marr("xd", (3,), lambda i: S(X(0, lift(i[0])))) if one else marr("xd", (n, 3), lambda i: S(X(*[lift(t) for t in i])))
        def key(x):
            E.oblige("one direction per point", _cmp("==", x.shape[0], 3 if one else n))
            for c in range(3): E.oblige("the directions are handed over as they are", _cmp("==", x[c] if one else x[k, c], S(X(lift(0 if one else k), c))))
            return marr("key", (n, 3), lambda i: S(C(*[lift(t) for t in i])))
        m.rotlib = Rot()
        for nm in ("cubic", "hex"): setattr(m, "ipf_color_" + nm, key if nm == code else (lambda x: E.oblige("the key of the crystal class is used", False)))
        r = getattr(m, "qu2ipf_" + code)(qu, vector=vec)
        E.oblige("one colour per point", band(_cmp("==", r.shape[0], n), _cmp("==", r.shape[1], 3)))
        for c in range(3):
            v, w = r[k, c], S(C(lift(k), c))
            E.oblige("colour values lie in [0, 1]", band(_cmp(">=", v, 0), _cmp("<=", v, 1)))
            E.oblige("the colour is the key's colour of the point's own direction", bor(bnot(band(_cmp(">=", w, 0), _cmp("<=", w, 1))), _cmp("==", v, w)))
        E.oblige("quaternions are not modified", unmodified(qu))
    return th
def proofs(tier):
    out = [Proof("qu2ipf_%s%s" % (c, ", one point" if o else ""), ["EBSDImage.IPFcolor.qu2ipf_" + c], chain(c, o), shims=SHIMS) for c in ("cubic", "hex") for o in (False, True)] + [Proof("ipf_color_cubic: %s" % g, ["EBSDImage.IPFcolor.ipf_color_cubic"], cubic_key(g), shims=SHIMS, opaque_arith=True, opaque_sqrt=True, opaque_arc=True) for g in GENS]
    for codes in ([43], [62], [62, 43], [43, 62, 43]):
        for ys in (False, True):
            for xs in (False, True):
                if not xs and codes != [62, 43]: continue
                out.append(Proof("makeipf, phases %s%s%s" % (codes, ", xsize" if xs else "", ", ysize" if ys else ""), ["EBSDImage.IPFcolor.makeipf"], makeipf(codes, ys, xs), shims=SHIMS))
    return out
