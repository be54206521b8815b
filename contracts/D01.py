"""distributed indexing: jobs, workers and assembly"""
import types, sys
from pyvc import core, arrays, npshim, loops
from pyvc.core import _cmp, band, bor, bnot, ite, add, sub, mul, S
from pyvc.spec import *
from contracts.files import obj, pick
LEVEL = "exploration"
EXPLANATION = "PROVED by tasks. Jobs: for any number of patterns, first pattern (negative counts from the end), requested number (open or too large: all that are left) and chunk size, the jobs handed out follow each other without gap or overlap from the first requested pattern to the last and none is empty. Workers: GPUWorker.findbands reads exactly the patterns of its job (from a file, or the ones handed over), detects bands with the pattern center of the indexer (or the one given) and returns them with its job; CPUWorker.indexpoles indexes exactly the bands handed over and returns the result with its job; without a job neither does anything. Assembly, whole function with both worker classes, for 1 to 3 jobs of symbolic size and content and 1 or 2 workers per stage: whatever the completion order (each task may be seen at once or late) and with one worker death, every requested pattern has in its own position the result and bands of that pattern. The number of jobs in the assembly is BOUNDED (3), so the property stays at exploration level; the bounded suite covers longer histories."
ASSUMPTIONS = ["ray: a task gets a copy of what was handed over at the time it is submitted, ray.get gives its result or raises, ray.wait splits the tasks into seen and not seen", "contracts of _getpats, _detectbands and _indexbandsphase: row k of the result is a function of row k of what was given (I02)", "no GPU: the branch without OpenCL"]
Z, R = z3.IntSort(), z3.RealSort()
PAR = "pyebsdindex._ebsd_index_parallel"
class Death(Exception): pass
def safe(f):
    """an error in a stand-in is not an error of the code"""
    def g(*a, **k):
        try: return f(*a, **k)
        except (AttributeError, TypeError, ValueError, KeyError, IndexError) as x: raise Unsupported("%s: %s" % (type(x).__name__, x))
    return g
class Ref:
    def __init__(s, actor, val, real, job): s.actor, s.val, s.real, s.job, s.late, s.dies = actor, val, real, job, 0, False
class Ray(types.ModuleType):
    """contract of ray"""
    def __init__(s): types.ModuleType.__init__(s, "ray"); s.E = None; s.deaths = 0; s.delay = 0; s.rounds = 0; s.orders = False
    def remote(s, *a, **k):
        def deco(cls):
            class Actor: inner = cls
            def make(*args, **kw):
                o = cls(*args, **kw); h = types.SimpleNamespace(dead=False)
                for nm in ("findbands", "indexpoles"):
                    if hasattr(cls, nm): setattr(h, nm, types.SimpleNamespace(remote=lambda *aa, _f=getattr(o, nm), **kk: s.submit(h, _f, aa, kk)))
                return h
            Actor.options = staticmethod(lambda **o: Actor); Actor.remote = staticmethod(make); Actor.__name__ = cls.__name__
            return Actor
        return deco(a[0]) if len(a) == 1 and isinstance(a[0], type) else deco
    def submit(s, h, f, aa, kk):
        import copy
        job = aa[0] if aa else kk.get("gpujob", kk.get("cpujob"))
        cp = lambda v: v.copy() if isinstance(v, (arrays.ArrBase, npshim.StructArr, npshim.StructView)) else v
        aa = [copy.copy(v) if v is job and v is not None else cp(v) for v in aa]
        kk = {a: cp(v) for a, v in kk.items()}
        r = Ref(h, f(*aa, **kk), job is not None, job)
        if r.real:
            if s.deaths and s.E.decide(s.E.const("dies%d" % s.rounds, "b")): s.deaths -= 1; r.dies = True
            if s.delay and s.E.decide(s.E.const("late%d" % s.rounds, "b")): s.delay -= 1; r.late = 2
            s.rounds += 1
        return r
    def wait(s, refs, num_returns=1, timeout=None, **k):
        if not refs: raise ValueError("ray.wait: empty list")
        s.waits = getattr(s, "waits", 0) + 1
        if s.waits > 60: raise Unsupported("no end in 60 rounds")
        done, busy = [], []
        for r in refs:
            if r.late: r.late -= 1; busy.append(r)
            else: done.append(r)
        return done[:num_returns], done[num_returns:] + busy
    def get(s, r):
        if r.dies or r.actor.dead: r.actor.dead = True; raise core.VcRaise("RayActorError", "worker died")
        return r.val
    def put(s, v): return v
    def kill(s, h, **k): h.dead = True
    def init(s, *a, **k): return None
    def shutdown(s, *a, **k): return None
FLD = [("theta", "float32"), ("valid", "float32")]
RES = [("fit", "float32"), ("phase", "float32")]
def struct(shape, fields, fn):
    a = npshim.StructArr(shape, arrays.StructDT(fields))
    for f in a.f: a.f[f] = marr("s_" + f, a.f[f].shape, (lambda q: lambda i: fn(q, i))(f), a.f[f].dtype)
    return a
class World:
    def __init__(w, E, L, ray, filemode, N, phases=1):
        w.E, w.ray = E, ray; ray.E = E
        w.m = m = L.load(PAR); w.filemode, w.N = filemode, N
        w.H, w.W, w.nB = E.const("H", "i"), E.const("W", "i"), E.const("nBands", "i")
        for v in (w.H, w.W, w.nB): E.assume(v >= 1)
        w.FILE = z3.Function("FILE", Z, Z, Z, Z)
        w.PC = (E.const("pcx"), E.const("pcy"), E.const("pcz"))
        w.BF = {q: z3.Function("B_" + q, Z, Z, R) for q, _ in FLD}; w.BF2 = {q: z3.Function("B2_" + q, Z, Z, R) for q, _ in FLD}
        w.NF = z3.Function("POLE", Z, Z, Z, R); w.RF = {q: z3.Function("RES_" + q, Z, Z, R) for q, _ in RES}
        w.px = lambda p, y, x: S(w.FILE(lift(p), lift(y), lift(x)))
        w.pats = None if filemode else marr("pats", (N, w.H, w.W), lambda i: w.px(*i), arrays.DTS["uint8"])
        w.base = w.cnt = None
        ix = w.ix = types.SimpleNamespace(PC=w.PC, phaseLib=[None] * phases, dataTemplate=arrays.StructDT(RES), fID=types.SimpleNamespace(nPatterns=N), update_file=lambda *a, **k: None,
            bandDetectPlan=types.SimpleNamespace(useCPU=True, nBands=w.nB, dataType=arrays.StructDT(FLD), patDim=None), _getpats=safe(w.getpats), _detectbands=safe(w.detect), _indexbandsphase=safe(w.index))
        ix.__vc_loopsafe__ = True
        m.index_pats = lambda *a, **k: (None, None, ix)
        m.os = types.SimpleNamespace(environ={}, getenv=lambda *a: None, cpu_count=lambda: 2, path=types.SimpleNamespace(dirname=lambda p: p))
        w.now = 0
        m.timer = w.clock
        m.time = types.SimpleNamespace(sleep=lambda s: None)
        m.band_detect.getopenclparam = lambda *a, **k: None
        m.platform = types.SimpleNamespace(system=lambda: "Linux", machine=lambda: "x86_64")
    def clock(w):
        t = w.E.fresh("clock", "r"); w.E.fact(lift(_cmp(">=", t, w.now))); w.now = t; return t
    def same(w, name, a, fn, shape):
        E = w.E
        E.oblige(name + " (dimensions)", len(a.shape) == len(shape))
        if len(a.shape) != len(shape): raise core.PathEnd()
        for x, y in zip(a.shape, shape): E.oblige(name + " (number)", _cmp("==", x, y))
        i = [pick(E, x) for x in shape]
        E.oblige(name, _cmp("==", a[tuple(i)], fn(i)))
    def job(w, j): w.base, w.cnt = j.pstart, sub(j.pend, j.pstart)
    def getpats(w, patsin=None, patstart=0, npats=-1, xyloc=None):
        E = w.E
        if patsin is None:
            E.oblige("a file is read when no patterns are handed over", w.filemode)
            E.oblige("the patterns of the job are read", band(_cmp("==", patstart, w.base), _cmp("==", npats, w.cnt)))
            return marr("read", (npats, w.H, w.W), lambda i: w.px(add(patstart, i[0]), i[1], i[2]), arrays.DTS["uint8"]), "xy"
        w.same("the patterns of the job are handed over", patsin, lambda i: w.px(add(w.base, i[0]), i[1], i[2]), (w.cnt, w.H, w.W))
        return patsin, xyloc
    def detect(w, pats, PC, xyloc=None, clparams=None, verbose=0, chunksize=528, gpu_id=None):
        E, b, n = w.E, w.base, w.cnt
        w.same("bands are detected in the patterns of the job", pats, lambda i: w.px(add(b, i[0]), i[1], i[2]), (n, w.H, w.W))
        E.oblige("with the pattern center of the indexer", PC is w.PC or PC is getattr(w, "pc2", None))
        return struct((n, w.nB), FLD, lambda q, i: S(w.BF[q](lift(add(b, i[0])), lift(i[1])))), marr("bn", (n, w.nB, 3), lambda i: S(w.NF(lift(add(b, i[0])), lift(i[1]), lift(i[2]))), arrays.F32)
    def index(w, bd, bn, verbose=0):
        E, b, n = w.E, w.base, w.cnt
        w.same("normals of the job are indexed", bn, lambda i: S(w.NF(lift(add(b, i[0])), lift(i[1]), lift(i[2]))), (n, w.nB, 3))
        for q, _ in FLD: w.same("bands of the job are indexed", bd[q], (lambda q: lambda i: S(w.BF[q](lift(add(b, i[0])), lift(i[1]))))(q), (n, w.nB))
        return struct((len(w.ix.phaseLib) + 1, n), RES, lambda q, i: S(w.RF[q](lift(i[0]), lift(add(b, i[1]))))), struct((n, w.nB), FLD, lambda q, i: S(w.BF2[q](lift(add(b, i[0])), lift(i[1]))))
def shims(ray): return {"ray": ray, "h5py": types.SimpleNamespace(Dataset=type("Dataset", (), {}))}
def request(E, N, filemode, start, count):
    """what is asked for, and the first pattern and number meant"""
    ps = E.const("patstart", "i")
    if start == "negative": E.assume(band(ps < 0, _cmp(">=", add(N, ps), 0))); s = add(N, ps)
    else: E.assume(band(ps >= 0, _cmp("<", ps, N))); s = ps
    left = sub(N, s)
    if count == "open":
        np_ = E.const("npats", "i"); E.assume(bor(np_ <= 0, _cmp(">", np_, left))); n = left
    else:
        np_ = E.const("npats", "i"); E.assume(band(np_ >= 1, _cmp("<=", np_, left))); n = np_
    return ps, np_, s, n
def jobs(filemode, start, count):
    ray = Ray()
    def th(E, L):
        N = E.const("N", "i"); E.assume(N >= 1)
        w = World(E, L, ray, filemode, N); m = w.m
        ps, np_, s, n = request(E, N, filemode, start, count)
        c = E.const("chunk", "i"); E.assume(c >= 1)
        def ceil(x):
            k = E.fresh("ceil", "i"); E.fact(z3.And(lift(_cmp(">=", k, x)), lift(_cmp("<", sub(k, 1), x))))
            # the same bounds times the chunk size
            if E.implied(_cmp("==", mul(x, c), n)): E.lemma("ceiling times chunk size", band(_cmp(">=", mul(k, c), n), _cmp("<", mul(sub(k, 1), c), n)))
            return k
        m.np.ceil = ceil
        made = []
        Job = m.CPUGPUJob
        def zeros(shape, dtype=None, **k):
            f = sys._getframe(1)
            ls = [v for v in f.f_locals.values() if isinstance(v, loops.VList) and v.sym is not None]
            ls = [v for v in ls if isinstance(loops.SymList(*v.sym).at(E.const("k0", "i")), Job)]
            if len(ls) != 1: raise Unsupported("jobs are not in one list of symbolic length")
            J = ls[0]; nj = J.sym[0]
            E.oblige("one record per requested pattern", _cmp("==", shape[-1], n))
            E.lemma("there is a job", _cmp(">=", nj, 1))
            k = pick(E, nj, "job"); at = lambda k: loops.SymList(*J.sym).at(k)
            first, last, nxt, a = at(0), at(sub(nj, 1)), at(add(k, 1)), at(k)
            E.oblige("the first job starts with the first requested pattern", _cmp("==", first.pstart, s))
            E.oblige("the last job ends with the last requested pattern", _cmp("==", last.pend, add(s, n)))
            more = _cmp("<", add(k, 1), nj)
            E.scope_push(); E.fact(lift(more))
            E.lemma("chunks before the last are whole", _cmp("<=", mul(add(k, 1), c), mul(sub(nj, 1), c)))
            E.oblige("a job starts where the one before it ends", _cmp("==", nxt.pstart, a.pend))
            E.oblige("no job is empty", _cmp("<", a.pstart, a.pend))
            E.oblige("job: number of patterns", _cmp("==", a.npat, sub(a.pend, a.pstart)))
            E.scope_pop()
            E.oblige("the last job is not empty", _cmp("<", last.pstart, last.pend))
            E.oblige("last job: number of patterns", _cmp("==", last.npat, sub(last.pend, last.pstart)))
            made.append(1); raise core.PathEnd()
        m.np.zeros = zeros
        kw = dict(filename="scan") if filemode else {}
        m.index_pats_distributed(w.pats, ebsd_indexer_obj=w.ix, patstart=ps, npats=np_, chunksize=c, ncpu=2, **kw)
        raise Unsupported("output not allocated")
    return th, ray
def worker_gpu(filemode, pc):
    ray = Ray()
    def th(E, L):
        N = E.const("N", "i"); w = World(E, L, ray, filemode, N); m = w.m
        a, b = E.const("a", "i"), E.const("b", "i"); E.assume(band(a >= 0, band(_cmp("<", a, b), _cmp("<=", b, N))))
        g = m.GPUWorker.inner(actorid=3)
        r = g.findbands(None, pats=None, indexer=w.ix)
        E.oblige("no job, no work", r[0] not in ("Done", "Error") and all(x is None for x in r[1]))
        j = m.CPUGPUJob(7, a, b); w.job(j)
        w.pc2 = object() if pc else None
        r = g.findbands(j, pats=None if filemode else w.pats[a:b, :, :], indexer=w.ix, **({"PC": w.pc2} if pc else {}))
        E.oblige("the job is done", r[0] == "Done")
        if r[0] != "Done": raise core.PathEnd()
        bd, bn, j2 = r[1]
        for q, _ in FLD: w.same("bands of the job are returned", bd[q], (lambda q: lambda i: S(w.BF[q](lift(add(a, i[0])), lift(i[1]))))(q), (sub(b, a), w.nB))
        w.same("normals of the job are returned", bn, lambda i: S(w.NF(lift(add(a, i[0])), lift(i[1]), lift(i[2]))), (sub(b, a), w.nB, 3))
        E.oblige("with the job itself", band(_cmp("==", j2.pstart, a), _cmp("==", j2.pend, b)) if j2 is not None else False)
        E.oblige("identified", _cmp("==", j2.jobid, 7))
        if not filemode: E.oblige("patterns are not modified", unmodified(w.pats))
        w.ix._detectbands = fail
        r = g.findbands(j, pats=None if filemode else w.pats[a:b, :, :], indexer=w.ix)
        E.oblige("a failure is not reported as done", r[0] == "Error")
    return th, ray
def fail(*a, **k): raise core.VcRaise("RuntimeError", "stage failed")
def worker_cpu():
    ray = Ray()
    def th(E, L):
        N = E.const("N", "i"); w = World(E, L, ray, True, N); m = w.m
        a, b = E.const("a", "i"), E.const("b", "i"); E.assume(band(a >= 0, band(_cmp("<", a, b), _cmp("<=", b, N))))
        g = m.CPUWorker.inner(2)
        r = g.indexpoles(None, None, None)
        E.oblige("no job, no work", r[0] not in ("Done", "Error") and all(x is None for x in r[1]))
        j = m.CPUGPUJob(7, a, b); w.job(j); n = sub(b, a)
        bd = struct((n, w.nB), FLD, lambda q, i: S(w.BF[q](lift(add(a, i[0])), lift(i[1])))); bn = marr("bn", (n, w.nB, 3), lambda i: S(w.NF(lift(add(a, i[0])), lift(i[1]), lift(i[2]))), arrays.F32)
        r = g.indexpoles(j, bd, bn, indexer=w.ix)
        E.oblige("the job is done", r[0] == "Done")
        if r[0] != "Done": raise core.PathEnd()
        d, bd, j2 = r[1]
        for q, _ in RES: w.same("results of the job are returned", d[q], (lambda q: lambda i: S(w.RF[q](lift(i[0]), lift(add(a, i[1])))))(q), (2, n))
        for q, _ in FLD: w.same("bands with their matches are returned", bd[q], (lambda q: lambda i: S(w.BF2[q](lift(add(a, i[0])), lift(i[1]))))(q), (n, w.nB))
        E.oblige("with the job itself", band(_cmp("==", j2.pstart, a), _cmp("==", j2.pend, b)) if j2 is not None else False)
        w.ix._indexbandsphase = fail
        E.oblige("a failure is not reported as done", g.indexpoles(j, bd, bn, indexer=w.ix)[0] == "Error")
    return th, ray
def assembly(filemode, K, nw, delay, deaths):
    ray = Ray()
    def th(E, L):
        N = E.const("N", "i"); E.assume(N >= 1)
        ray.delay, ray.deaths, ray.rounds, ray.waits = delay, deaths, 0, 0
        w = World(E, L, ray, filemode, N, phases=2); m = w.m
        ps, np_, s, n = request(E, N, filemode, "given", "given")
        c = E.const("chunk", "i"); E.assume(band(c >= 1, band(_cmp("<", mul(K - 1, c), n), _cmp("<=", n, mul(K, c)))))
        def ceil(x):
            if not E.implied(_cmp("==", mul(x, c), n)): raise Unsupported("number of jobs")
            E.oblige("number of jobs", band(_cmp("<", K - 1, x), _cmp(">=", K, x)))
            return npshim.np.int64(K) if False else arrays.asarray(K)
        m.np.ceil = ceil
        for cls, nm in ((m.GPUWorker.inner, "findbands"), (m.CPUWorker.inner, "indexpoles")):
            def wrap(self, j, *a, _f=getattr(cls, nm), **k):
                if j is not None: w.job(j)
                return _f(self, j, *a, **k)
            setattr(cls, nm, wrap)
        kw = dict(filename="scan") if filemode else {}
        d, bd = m.index_pats_distributed(w.pats, ebsd_indexer_obj=w.ix, patstart=ps, npats=np_, chunksize=c, ncpu=nw, **kw)
        for q, _ in RES: w.same("every pattern has its own result (%s)" % q, d[q], (lambda q: lambda i: S(w.RF[q](lift(i[0]), lift(add(s, i[1])))))(q), (3, n))
        for q, _ in FLD: w.same("every pattern has its own bands (%s)" % q, bd[q], (lambda q: lambda i: S(w.BF2[q](lift(add(s, i[0])), lift(i[1]))))(q), (n, w.nB))
        if not filemode: E.oblige("patterns are not modified", unmodified(w.pats))
    return th, ray
def P(name, fs, tr, **k): return Proof(name, ["_ebsd_index_parallel." + f for f in fs], tr[0], shims=shims(tr[1]), **k)
def proofs(tier):
    D = "index_pats_distributed"
    out = [P("jobs, %s, first pattern %s, number %s" % ("file" if f else "array", st, ct), [D, "CPUGPUJob.__init__"], jobs(f, st, ct)) for f in (False, True) for st in ("given", "negative") for ct in ("given", "open")]
    out += [P("GPUWorker.findbands, %s%s" % ("file" if f else "array", ", pattern center given" if pc else ""), ["GPUWorker.findbands"], worker_gpu(f, pc)) for f in (False, True) for pc in (False, True)]
    out += [P("CPUWorker.indexpoles", ["CPUWorker.indexpoles"], worker_cpu())]
    for f, K, nw, dl, de in ((False, 1, 1, 0, 0), (True, 2, 1, 0, 1), (False, 2, 2, 2, 0), (False, 2, 2, 1, 1), (True, 3, 2, 2, 0), (False, 3, 2, 1, 0), (False, 3, 2, 0, 1)) + (((False, 3, 2, 2, 1), (True, 3, 3, 3, 1)) if tier == 'thorough' else ()):
        out.append(P("assembly (bounded), %s, %d jobs, %d workers%s%s" % ("file" if f else "array", K, nw, ", %d late" % dl if dl else "", ", a death" if de else ""), [D, "GPUWorker.findbands", "CPUWorker.indexpoles", "CPUGPUJob.__init__"], assembly(f, K, nw, dl, de)))
    return out
