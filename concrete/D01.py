"""distributed indexing on a scheduler that replaces ray: workers are plain objects, completion order, timeouts and worker deaths are chosen here"""
import sys, types, importlib.machinery
from lib import *
class _Ref: pass
class _Sched:
    """tasks become ready in an order chosen by the script rng; a task may die (ray.get raises)"""
    def __init__(self): self.reset(np.random.default_rng(0))
    def reset(self, rng, death=0.0, lazy=.5, order="random"): self.errs = 0; self.err = ""; self.rng, self.death, self.lazy, self.order, self.tasks, self.calls, self.kills, self.waits, self.deaths, self.seq, self.fb, self.sk = rng, death, lazy, order, {}, [], 0, 0, 0, 0, 0, int(rng.integers(1, 5))
    def delay(self, nm):
        self.seq += 1; q = self.seq; self.fb += nm == "findbands"
        return {"all": 0, "first": q % 7, "last": max(0, 25 - q), "random": int(self.rng.geometric(.4)) - 1, "stuck": 10 ** 9 if nm == "findbands" and self.fb == self.sk else int(self.rng.geometric(.5)) - 1}[self.order] + self.waits
SCH = _Sched()
class Hang(Exception): pass
def _remote(*a, **k):
    def deco(cls):
        class Actor:
            @staticmethod
            def options(**o): return Actor
            @staticmethod
            def remote(*args, **kw):
                h = types.SimpleNamespace(); obj = cls(*args, **kw); h.dead = False
                for nm in dir(cls):
                    f = getattr(obj, nm)
                    if nm.startswith("__") or not callable(f): continue
                    def call(*aa, _f=f, _n=nm, **kk):
                        t = _Ref(); t.ready = SCH.delay(_n); SCH.tasks[id(t)] = [t, h, _n, _f, aa, {q: (v.v if isinstance(v, _Box) else v) for q, v in kk.items()}, False]; return t
                    setattr(h, nm, types.SimpleNamespace(remote=call))
                return h
        Actor.inner = cls; Actor.__name__ = cls.__name__
        return Actor
    if len(a) == 1 and isinstance(a[0], type): return deco(a[0])
    return deco
class _Box:
    def __init__(s, v): s.v = v
def _wait(refs, num_returns=1, timeout=None, **k):
    if not refs: raise ValueError("empty list")
    SCH.waits += 1
    if SCH.waits > 20000 or SCH.errs > 40: raise Hang("no progress" if SCH.errs <= 40 else "jobs fail again and again: " + SCH.err)
    p = [r for r in refs if r.ready <= SCH.waits]
    p = p[:num_returns]
    if SCH.order == "random": p = [p[i] for i in SCH.rng.permutation(len(p))]
    return p, [r for r in refs if r not in p]
def _get(ref):
    t = SCH.tasks.pop(id(ref)); _, h, nm, f, a, k, _ = t
    if h.dead: raise RuntimeError("actor is dead")
    job = a[0] if a else None
    if job is not None and SCH.rng.uniform() < SCH.death: h.dead = True; SCH.deaths += 1; raise RuntimeError("worker died")
    if job is not None: SCH.calls.append((nm, job.pstart, job.pend))
    import copy
    a = [copy.deepcopy(v) if not isinstance(v, _Box) else v.v for v in a]; k = {q: (copy.deepcopy(v) if isinstance(v, np.ndarray) else v) for q, v in k.items()}
    try: return f(*a, **k)
    except Exception as e: SCH.errs += 1; SCH.err = repr(e)[:300]; raise
def _kill(h, **k): h.dead = True; SCH.kills += 1
ray = types.ModuleType("ray"); ray.__spec__ = importlib.machinery.ModuleSpec("ray", None); ray.__version__ = "0"
ray.remote, ray.wait, ray.get, ray.put, ray.kill = _remote, _wait, _get, (lambda v: _Box(v)), _kill
ray.init = lambda *a, **k: None; ray.shutdown = lambda *a, **k: None
sys.modules["ray"] = ray
from patcommon import *
from pyebsdindex import _ebsd_index_parallel as ep, ebsd_pattern
import time as _time
_time.sleep = lambda s: None
S = Suite("D01", "scans of 1 to 40 patterns of known content, chunk sizes 1 to beyond the scan, 1 to 9 workers, starts and counts (negative, open), array and file input; tasks ending at once, in order, in reverse, at random or never (a stuck worker), with worker deaths; cheap stand-in for band detection and indexing plus real indexing; ray replaced by a deterministic scheduler")
BT = np.dtype([("theta", np.float32), ("max", np.float32), ("valid", np.int8)])
DT = np.dtype([("quat", np.float64, 4), ("fit", np.float32), ("phase", np.int32), ("nmatch", np.int32)])
class Fake:
    """an indexer whose result identifies the pattern"""
    def __init__(s, nph, nb, fID=None):
        s.phaseLib = [None] * nph; s.dataTemplate = DT; s.PC = np.array([.5, .5, .5]); s.fID = fID; s.bandDetectPlan = types.SimpleNamespace(nBands=nb, dataType=BT, useCPU=True, patDim=np.array([3, 4]), nTheta=9, nRho=9, padding=np.array([1, 1]))
    def update_file(s, *a, **k): pass
    def _getpats(s, patsin=None, patstart=0, npats=-1, xyloc=None, **k):
        if patsin is None:
            p = s.fID[patstart:patstart + npats]; return p, None
        return np.atleast_3d(patsin) if np.ndim(patsin) == 3 else patsin[None], None
    def _detectbands(s, pats, PC, xyloc=None, clparams=None, chunksize=-1):
        n = pats.shape[0]; b = np.zeros((n, s.bandDetectPlan.nBands), BT); b["theta"] = pats[:, 0, 0][:, None] * 10 + np.arange(s.bandDetectPlan.nBands); b["max"] = 1
        nr = np.zeros((n, s.bandDetectPlan.nBands, 3), np.float32); nr[..., 0] = b["theta"]; nr[..., 1] = pats[:, 1, 1][:, None]
        return b, nr
    def _indexbandsphase(s, banddata, bandnorm, verbose=0):
        n = banddata.shape[0]; d = np.zeros((len(s.phaseLib) + 1, n), DT); d["fit"] = bandnorm[:, 0, 0]; d["nmatch"] = bandnorm[:, -1, 1]; d["phase"] = np.arange(len(s.phaseLib) + 1)[:, None]; o = banddata.copy(); o["valid"] = 1
        return d, o
def fake_index_pats(pats=None, npats=1, return_indexer_obj=True, ebsd_indexer_obj=None, **k): return None, None, ebsd_indexer_obj
def expected(f, pats): b, nrm = f._detectbands(pats, None); return f._indexbandsphase(b, nrm)
def run(S, f, pats, filemode, **k):
    old = ep.index_pats; ep.index_pats = fake_index_pats
    so, sys.stdout = sys.stdout, open(os.devnull, "w")
    try:
        if filemode: f.fID = FID(pats); return ep.index_pats_distributed(filename="scan", ebsd_indexer_obj=f, **k)
        return ep.index_pats_distributed(pats, ebsd_indexer_obj=f, **k)
    finally: ep.index_pats = old; sys.stdout.close(); sys.stdout = so
class FID:
    def __init__(s, p): s.p, s.nPatterns = p, len(p)
    def __getitem__(s, q): return s.p[q]
def schedules(S):
    hangs = 0
    for r in range(600 * S.scale):
        if S.late(): break
        n = int(S.rng.integers(1, 41)); pats = np.zeros((n, 3, 4), np.float32); pats[:, 0, 0] = np.arange(n) + 1; pats[:, 1, 1] = S.rng.integers(0, 1000, n); f = Fake(1 + r % 3, 2 + r % 4)
        start = 0 if r % 3 == 0 else int(S.rng.integers(-n, n)); cnt = int(S.rng.choice([-1, 0, n + 3, max(1, n // 2), 1])); ch = int(S.rng.choice([1, 2, 3, 5, 7, n, n + 1, 1000, 0])); ncpu = int(S.rng.integers(1, 10)); order = ["all", "first", "last", "random", "stuck"][r % 5]; death = 0.0 if r % 4 else .25; fm = bool((r // 2) % 2)
        s = start if start >= 0 else n + start; e = n if cnt <= 0 or cnt > n - s else s + cnt
        inp = {"patterns": n, "patstart": start, "npats": cnt, "chunksize": ch, "ncpu": ncpu, "order": order, "deaths": death, "from file": fm}; S.cur = inp; SCH.reset(np.random.default_rng(S.rng.integers(1 << 30)), death, .5, order); keep = pats.copy()
        try: d, b = run(S, f, pats, fm, patstart=start, npats=cnt, chunksize=ch, ncpu=ncpu)[:2]
        except Hang as h:
            S.check(False, "ends", inp, str(h)); hangs += 1
            if hangs > 2: break
            continue
        S.check(True, "ends", inp); D, B = expected(f, pats[s:e])
        if not S.check(d.shape == D.shape and b.shape == B.shape, "one result per requested pattern", inp, lambda: {"got": [d.shape, b.shape], "expected": [D.shape, B.shape]}): continue
        S.check(d.tobytes() == D.tobytes(), "result of every pattern in its place", inp, lambda: {"fit": d[0]["fit"], "expected": D[0]["fit"]}); S.check(b.tobytes() == B.tobytes(), "bands of every pattern in their place", inp)
        S.check(np.array_equal(pats, keep), "patterns not modified", inp)
        done = sorted((a, z) for nm, a, z in SCH.calls if nm == "indexpoles"); cover = np.zeros(n, int)
        for a, z in set(done): cover[max(a, 0):z] += 1
        S.check(np.all(cover[s:e] == 1) and np.all(cover[:s] == 0) and np.all(cover[e:] == 0), "jobs partition the request", inp, lambda: {"jobs": done})
        if death == 0: S.check(len(done) == len(set(done)), "no job twice", inp, lambda: {"jobs": done})
def real(S):
    ix = indexer([0, 2], shape=(40, 48), nB=7); st = stack(S.rng, 0, 7, (40, 48)); ref = es.index_pats(st, ebsd_indexer_obj=ix)[:2]
    for r, (ch, nc, order, death) in enumerate([(2, 2, "random", 0), (3, 4, "last", 0), (1, 3, "random", .3), (100, 2, "all", 0), (2, 2, "stuck", 0)]):
        inp = {"real indexing": True, "chunksize": ch, "ncpu": nc, "order": order, "deaths": death}; S.cur = inp; SCH.reset(np.random.default_rng(r + 1), death, .5, order); a, z = [(0, 7), (1, 5), (0, 7), (2, 7), (0, 7)][r]
        so, sys.stdout = sys.stdout, open(os.devnull, "w")
        try: d, b = ep.index_pats_distributed(st, ebsd_indexer_obj=ix, chunksize=ch, ncpu=nc, patstart=a, npats=z - a)[:2]
        except Hang as h: S.check(False, "ends", inp, str(h)); continue
        finally: sys.stdout.close(); sys.stdout = so
        S.check(eq(d, ref[0][:, a:z]) and eq(b, ref[1][a:z]), "equals serial indexing", inp, lambda: {f: [d[f], ref[0][:, a:z][f]] for f in ("fit", "phase", "nmatch")})
if __name__ == "__main__": S.run(schedules, real)
