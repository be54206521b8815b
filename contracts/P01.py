from pyvc import core, arrays
from pyvc.core import _cmp, band, bor, add, sub, mul, S
from pyvc.spec import *
from contracts.files import obj, pick
import math
D = 3
def state(E, pc, **k):
    """a swarm of n >= 1 particles in three dimensions with arbitrary bounds lb <= ub"""
    n = E.const("n", "i"); E.assume(n >= 1)
    lb, ub = sarr("lb", (D,)), sarr("ub", (D,))
    for d in range(D): E.assume(_cmp("<=", lb[d], ub[d]))
    o = obj(pc, "PSOOpt", n_particles=n, dimensions=D, bounds=(lb, ub), boundmethod="bounce", hyperparammethod="auto", c1=E.const("c1"), c2=E.const("c2"), w=E.const("w"), c1i=E.const("c1i"), c2i=E.const("c2i"), wi=E.const("wi"),
            vellimit=E.const("vellimit"), niter=E.const("niter", "i"), early_exit=None, start=None, range=None)
    o.__dict__.update(k); E.assume(_cmp(">=", o.vellimit, 0))
    return o, n, lb, ub
def inside(x, lb, ub): 
    c = True
    for d in range(D): c = band(c, band(_cmp("<=", lb[d], x[d]), _cmp("<=", x[d], ub[d])))
    return c
def bounded(E, name, n, lb, ub):
    """n positions inside the bounds"""
    f = z3.Function(name, z3.IntSort(), z3.IntSort(), z3.RealSort())
    def el(ix):
        v = S(f(lift(ix[0]), lift(ix[1])))
        if core.conc(ix[1]): E.fact(z3.And(lift(_cmp("<=", lb[ix[1]], v)), lift(_cmp("<=", v, ub[ix[1]]))))
        return v
    return marr(name, (n, D), el)
def objective(E):
    F = z3.Function("objective", *([z3.RealSort()] * (D + 1)))
    def f(x): return S(F(*[core.toreal_t(lift(x[d])) for d in range(D)]))
    return f
def bounce(E, L):
    pc = L.load("pyebsdindex.pcopt")
    o, n, lb, ub = state(E, pc)
    o.pos, o.vel = sarr("pos", (n, D)), sarr("vel", (n, D))
    k = E.row(0, n)
    old = [o.pos[k, d] for d in range(D)]
    o.boundarycheck()
    E.nz_at(k)
    for d in range(D):
        p = o.pos[k, d]
        E.oblige("position inside the bounds (%d)" % d, band(_cmp("<=", lb[d], p), _cmp("<=", p, ub[d])))
        E.oblige("a position inside the bounds stays (%d)" % d, bor(bor(_cmp("<", old[d], lb[d]), _cmp(">", old[d], ub[d])), _cmp("==", p, old[d])))
    E.oblige("the bounds are not modified", band(unmodified(lb), unmodified(ub)))
def velpos(E, L):
    pc = L.load("pyebsdindex.pcopt")
    o, n, lb, ub = state(E, pc)
    o.vel = sarr("vel", (n, D)); o.pos = bounded(E, "pos", n, lb, ub)
    o.pbest = sarr("pbest", (n,)); o.pbest_loc = bounded(E, "pbest_loc", n, lb, ub); o.gbest = E.const("gbest"); o.gbest_loc = sarr("gbest_loc", (D,))
    k = E.row(0, n)
    done = []
    def boundary():
        """contract of boundarycheck (task 'bounce'): every position is inside the bounds afterwards"""
        E.oblige("boundary check of one position per particle", band(_cmp("==", o.pos.shape[0], n), o.pos.shape[1] == D))
        o.pos = bounded(E, "pos_b%d" % len(done), n, lb, ub); o.vel = sarr("vel_b%d" % len(done), (n, D)); done.append(1)
    o.boundarycheck = boundary
    mem = o.pbest, o.pbest_loc, o.gbest, o.gbest_loc
    o.updateswarmvelpos()
    E.nz_at(k)
    for d in range(D): E.oblige("position inside the bounds (%d)" % d, band(_cmp("<=", lb[d], o.pos[k, d]), _cmp("<=", o.pos[k, d], ub[d])))
    E.oblige("one position per particle", band(_cmp("==", o.pos.shape[0], n), o.pos.shape[1] == D))
    E.oblige("the best values and positions are untouched", o.pbest is mem[0] and o.pbest_loc is mem[1] and o.gbest is mem[2] and o.gbest_loc is mem[3] and unmodified(o.pbest) and unmodified(o.pbest_loc) and unmodified(o.gbest_loc))
def best(first, view):
    def th(E, L):
        pc = L.load("pyebsdindex.pcopt")
        o, n, lb, ub = state(E, pc); f = objective(E); calls = []
        o.pos = bounded(E, "pos", n, lb, ub); o.vel = sarr("vel", (n, D))
        k = E.row(0, n)
        if first:
            o.pbest = marr("pbest", (n,), lambda i: math.inf); o.pbest_loc = marr("pbest_loc", (n, D), lambda i: o.pos.get(i)); o.gbest = math.inf; o.gbest_loc = sarr("start", (D,))
        else:
            loc = bounded(E, "pbest_loc", n, lb, ub); pl = z3.Function("pbest_loc", z3.IntSort(), z3.IntSort(), z3.RealSort())
            o.pbest_loc = loc
            o.pbest = marr("pbest", (n,), lambda i: f([S(pl(lift(i[0]), z3.IntVal(d))) for d in range(D)]))
            if view:
                w = pick(E, n, "w"); o.gbest_loc = loc[w, :]; o.gbest = o.pbest[w]
            else:
                o.gbest_loc = sarr("gbest_loc", (D,)); o.gbest = f(o.gbest_loc); E.assume(inside(o.gbest_loc, lb, ub))
            E.assume(_cmp("<=", o.gbest, o.pbest[k]))
            if view: E.ext_rule = None
        g0, p0, x0 = o.gbest, o.pbest[k], [o.pos[k, d] for d in range(D)]
        def fun(x, flag=None):
            E.oblige("the objective is evaluated at a position inside the bounds", inside(x, lb, ub))
            E.oblige("keyword arguments are passed on", flag is calls)
            return f(x)
        o.updateswarmbest(fun, None, flag=calls)
        E.nz_at(k); E.ext_at(k)
        if not first and view: E.nz_at(w); E.ext_at(w)
        new = o.gbest
        if isinstance(new, float): E.oblige("a best value is found", False); return
        for t in [a for a in E.args if True]: E.nz_at(t); E.ext_at(t)
        E.oblige("the best value never increases", _cmp("<=", new, g0))
        E.oblige("the best value is not above any value evaluated", _cmp("<=", new, f(x0)))
        E.oblige("personal best is the smaller of the old one and the new value", _cmp("==", o.pbest[k], core.smin(p0, f(x0)) if not first else f(x0)))
        E.oblige("personal best is the objective at its position", _cmp("==", o.pbest[k], f(o.pbest_loc[k, :])))
        E.oblige("personal best position inside the bounds", inside(o.pbest_loc[k, :], lb, ub))
        E.oblige("best value is not above any personal best", _cmp("<=", new, o.pbest[k]))
        E.oblige("the best value was obtained at the best position", _cmp("==", new, f(o.gbest_loc)))
        E.oblige("the best position is inside the bounds", inside(o.gbest_loc, lb, ub))
        E.oblige("positions are not modified", unmodified(o.pos))
    return th
def init(given):
    def th(E, L):
        pc = L.load("pyebsdindex.pcopt")
        o, n, lb, ub = state(E, pc)
        E.strict_sums = True
        start = sarr("start", (D,)) if given else None
        if given: E.assume(inside(start, lb, ub))
        k = E.row(0, n)
        o.initializeswarm(start, (lb, ub))
        E.oblige("positions inside the bounds", inside(o.pos[k, :], lb, ub))
        E.oblige("one position and one velocity per particle", band(band(_cmp("==", o.pos.shape[0], n), _cmp("==", o.vel.shape[0], n)), o.pos.shape[1] == D and o.vel.shape[1] == D))
        for d in range(D):
            if given: E.oblige("the first particle is at the start (%d)" % d, _cmp("==", o.pos[0, d], start[d]))
            E.oblige("personal best position is the position (%d)" % d, _cmp("==", o.pbest_loc[k, d], o.pos[k, d]))
        E.oblige("no value is known yet", o.gbest == math.inf and o.pbest[k] == math.inf)
        E.oblige("the bounds are kept", o.bounds[0] is lb and o.bounds[1] is ub and unmodified(lb) and unmodified(ub) and (start is None or unmodified(start)))
    return th
class SwarmState:
    """class invariant of a running swarm and the contracts of the methods called by optimize (tasks above)"""
    NAMES = {"pos", "vel", "pbest", "pbest_loc", "gbest", "gbest_loc", "c1i", "c2i", "wi"}
    def __init__(self, E, o, n, lb, ub, fun, kw):
        self.E, self.o, self.n, self.lb, self.ub, self.fun, self.kw, self.emin, self.c, self.started = E, o, n, lb, ub, fun, kw, None, 0, False
        o.initializeswarm, o.updateswarmbest, o.updateswarmvelpos = self.init, self.best, self.velpos
        o.__dict__["__vc_loopsafe__"] = True
    def fresh(self):
        self.c += 1
        o, n = self.o, self.n
        o.pos = bounded(self.E, "pos!%d" % self.c, n, self.lb, self.ub); o.vel = sarr("vel!%d" % self.c, (n, D))
        o.pbest_loc = bounded(self.E, "pbl!%d" % self.c, n, self.lb, self.ub)
    def known(self):
        E, o = self.E, self.o
        self.emin = E.fresh("smallest", "r"); o.gbest = self.emin
        o.gbest_loc = sarr("gl!%d" % self.c, (D,)); E.assume(band(inside(o.gbest_loc, self.lb, self.ub), _cmp("==", self.fun(o.gbest_loc), o.gbest)))
        o.pbest = sarr("pb!%d" % self.c, (self.n,))
    def unknown(self, start=None):
        o = self.o
        self.emin = math.inf; o.gbest = math.inf; o.pbest = marr("pb!%d" % self.c, (self.n,), lambda i: math.inf); o.gbest_loc = start if start is not None else sarr("start!%d" % self.c, (D,))
    def init(self, start, bounds):
        self.E.oblige("the bounds given are used", bounds[0] is self.lb and bounds[1] is self.ub); self.E.oblige("the start given is used", start is self.st)
        self.fresh(); self.unknown(start); self.started = True
    def best(self, fun, pool, **kw):
        E = self.E
        E.oblige("the swarm was initialised", self.started)
        q = pick(E, self.n); E.oblige("positions inside the bounds when evaluated", inside(self.o.pos[q, :], self.lb, self.ub))
        E.oblige("the caller's objective and arguments are used", fun is self.fun and kw == self.kw)
        old = self.emin; pos = self.o.pos; vel = self.o.vel
        self.fresh(); self.o.pos, self.o.vel = pos, vel; self.known(); E.assume(_cmp("<=", self.emin, old))
    def velpos(self):
        q = pick(self.E, self.n); self.E.oblige("positions inside the bounds before the move", inside(self.o.pos[q, :], self.lb, self.ub))
        g = {k: self.o.__dict__[k] for k in ("pbest", "pbest_loc", "gbest", "gbest_loc")}
        self.fresh(); self.o.__dict__.update(g)
    # -- loop over the state
    def check(self, where):
        E, o = self.E, self.o
        q = pick(E, self.n); E.oblige("%s: positions inside the bounds" % where, inside(o.pos[q, :], self.lb, self.ub))
        E.oblige("%s: the best value is the smallest evaluated so far" % where, o.gbest is self.emin or not isinstance(o.gbest, float) and not isinstance(self.emin, float) and _cmp("==", o.gbest, self.emin))
        if where == "before the loop": E.oblige("nothing is evaluated yet", self.emin == math.inf and self.started)
        else:
            E.oblige("%s: something was evaluated" % where, not isinstance(self.emin, float))
            if not isinstance(o.gbest, float): E.oblige("%s: the best value is the value at the best position" % where, band(_cmp("==", self.fun(o.gbest_loc), o.gbest), inside(o.gbest_loc, self.lb, self.ub)))
    def havoc(self, where, k):
        self.fresh()
        if k is not None and self.E.decide(_cmp("==", k, 0)): self.unknown()
        else: self.known()
        for nm in ("c1i", "c2i", "wi"): self.o.__dict__[nm] = self.E.fresh(nm)
    def frame(self): return {k: id(v) for k, v in self.o.__dict__.items() if k not in self.NAMES}
    def owns(self, store): return False
def run(early):
    def th(E, L):
        pc = L.load("pyebsdindex.pcopt")
        o, n, lb, ub = state(E, pc); f = objective(E); kw = {"flag": object()}
        niter = E.const("niter", "i"); E.assume(niter >= 1)
        o.early_exit = E.const("early_exit") if early else None
        start = sarr("start", (D,)); o.niter = niter
        st = SwarmState(E, o, n, lb, ub, f, kw); st.st = start
        E.objinv["*"] = st
        v, x = o.optimize(f, start=start, bounds=(lb, ub), niter=niter, verbose=0, **kw)
        if isinstance(v, float): E.oblige("a best value is returned", False); return
        E.oblige("the value returned is the smallest evaluated", _cmp("==", v, st.emin))
        E.oblige("it is the value at the position returned", _cmp("==", v, f(x)))
        E.oblige("the position returned is inside the bounds", inside(x, lb, ub))
    return th
class Bands:
    """detected bands of n patterns (opaque to the optimiser)"""
    def __init__(self, n, nb, sel=None): self.shape, self.n, self.nb, self.sel = (n, nb), n, nb, sel
    def __getitem__(self, k):
        if isinstance(k, tuple):
            if not all(isinstance(x, slice) and x == slice(None) for x in k[1:]): raise Unsupported("selection of bands")
            k = k[0]
        if isinstance(k, slice): raise Unsupported("selection of patterns")
        return Bands(1, self.nb, k)
    def reshape(self, *a): return self
def convert(vendor, fn, batch, given):
    def th(E, L):
        pc = L.load("pyebsdindex.pcopt")
        H, W, n, nb = [E.const(x, "i") for x in ("H", "W", "n", "nb")]
        for d in (H, W, n, nb): E.assume(d >= 1)
        E.decide(_cmp("<=", H, W))
        ems = vendor == "EMSOFT"; m = 4 if ems else 3
        PC, PC0 = sarr("PC", (m,)), sarr("PC0", (m,))
        if ems: E.assume(band(_cmp(">", PC[3], 0), _cmp("==", PC0[3], PC[3])))
        want = PC0 if given else PC
        bands = Bands(n, nb); pats = object()
        def find(p): E.oblige("bands are found in the patterns given", p is pats); return bands
        plan = type("P", (), {})(); plan.patDim = arrays.asarray([H, W]); plan.find_bands = find; plan.nBands = nb
        ix = type("I", (), {})(); ix.vendor, ix.PC, ix.bandDetectPlan = vendor, PC, plan
        XS = z3.Function("optimum", z3.IntSort(), z3.IntSort(), z3.RealSort()); CS = z3.Function("cost", z3.IntSort(), z3.RealSort())
        calls = []
        def same(e, p, what):
            """EDAX centre e and centre p of the vendor are the same physical point"""
            if not ems:
                for d in range(3): E.oblige("%s (%d)" % (what, d), _cmp("==", e[d], p[d]))
                return
            mn = core.smin(H, W)
            E.oblige(what + " (x)", _cmp("==", mul(e[0], W), sub(core.truediv(W, 2), p[0])))
            E.oblige(what + " (y)", _cmp("==", mul(e[1], H), add(core.truediv(H, 2), p[1])))
            E.oblige(what + " (z)", _cmp("==", mul(mul(e[2], mn), p[3] if p is not want else PC[3]), p[2]))
        def best(b, x0):
            E.oblige("internal convention while optimising", ix.vendor == ("EDAX" if ems else vendor))
            E.oblige("the bands of the patterns are used", isinstance(b, Bands) and (b is bands) == (not batch))
            same(x0, want, "the start is the given centre")
            i = b.sel if batch else 0
            calls.append(i)
            return marr("x", (3,), lambda q: S(XS(lift(i), lift(q[0])))), S(CS(lift(i)))
        if fn == "optimize":
            def minimize(f, x0, args=(), **k):
                E.oblige("the cost function of the module is minimised", f is pc._optfunction and args[0] is ix)
                return {"x": best(args[1], x0)[0]}
            pc.opt = type("O", (), {"minimize": staticmethod(minimize)})
            out = pc.optimize(pats, ix, PC0=PC0 if given else None, batch=batch)
        else:
            class PSO:
                """contract of PSOOpt.optimize: some best value and the position it was obtained at"""
                def __init__(self, **k): pass
                def optimize(self, f, start=None, bounds=None, indexer=None, banddat=None, **k):
                    E.oblige("the cost function of the module is minimised", f is pc._optfunction and indexer is ix)
                    for d in range(3): E.oblige("the bounds are centred on the start (%d)" % d, band(_cmp("==", add(bounds[0][d], bounds[1][d]), mul(2, start[d])), _cmp("==", sub(bounds[1][d], start[d]), lim)))
                    x, c = best(banddat, start)
                    return c, x
            pc.PSOOpt = PSO
            lim = E.const("search_limit"); E.assume(_cmp(">", lim, 0))
            out, cost = pc.optimize_pso(pats, ix, PC0=PC0 if given else None, batch=batch, search_limit=lim, return_cost=True, verbose=0)
        E.oblige("optimised", len(calls) == 1)
        k = E.row(0, n) if batch else 0
        o = out[k, :] if batch else out
        E.oblige("shape of the result", (out.ndim == 2 and o.shape[0] == m) if batch else (out.ndim == 1 and out.shape[0] == m))
        if batch:
            E.oblige("one centre per pattern", _cmp("==", out.shape[0], n))
        same([S(XS(lift(k), z3.IntVal(d))) for d in range(3)], o, "the centre returned is the optimum")
        if ems: E.oblige("the pixel size is kept", _cmp("==", o[3], PC[3]))
        if fn == "optimize_pso": E.oblige("the cost returned is the optimum's", _cmp("==", cost[k] if batch else cost, S(CS(lift(k)))))
        E.oblige("settings restored", ix.vendor == vendor and ix.PC is PC and unmodified(PC))
        E.oblige("argument not modified", unmodified(PC0))
    return th
EXPLANATION = "Swarm of n >= 1 particles in three dimensions with arbitrary bounds, hyper-parameters, objective (an uninterpreted function of the position) and number of iterations. initializeswarm establishes, and updateswarmbest, updateswarmvelpos and boundarybounce preserve, the class invariant (positions inside the bounds; the best value is the smallest value evaluated so far and the value at the best position, also when the best position is a view of the personal bests); optimize is checked against those contracts with the invariant at its loop, early exit included. optimize and optimize_pso are run in the EMSOFT convention and another one, single and batch, with an arbitrary optimiser: the start handed over and the centre returned are the same physical points, and the indexer's settings are restored."
ASSUMPTIONS = ["the objective returns finite values", "a normal random number is not exactly zero (the initial speeds are scaled by their mean)", "three dimensions (the only use in the package)", "contract of scipy.optimize.minimize: returns some position", "contract of numpy.random: values in the documented range, uniform within [low, high]"]
def proofs(tier):
    c = "pcopt.PSOOpt."
    r = [Proof("bounce", [c + "boundarycheck", c + "boundarybounce"], bounce), Proof("velocity and position update", [c + "updateswarmvelpos"], velpos),
         Proof("first best update", [c + "updateswarmbest"], best(True, False)), Proof("best update", [c + "updateswarmbest"], best(False, False)), Proof("best update, best position a view", [c + "updateswarmbest"], best(False, True)),
         Proof("initial swarm, start given", [c + "initializeswarm"], init(True), opaque_sqrt=True), Proof("initial swarm", [c + "initializeswarm"], init(False), opaque_sqrt=True),
         Proof("optimisation run", [c + "optimize", c + "updatehyperparam"], run(False)), Proof("optimisation run with early exit", [c + "optimize", c + "updatehyperparam"], run(True))]
    for v in ("EMSOFT", "EDAX"):
        for fn in ("optimize", "optimize_pso"):
            for b in (False, True):
                for g in (False, True): r.append(Proof("%s %s%s%s" % (fn, v, " batch" if b else "", " given start" if g else ""), ["pcopt." + fn], convert(v, fn, b, g)))
    return r
