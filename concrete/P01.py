from patcommon import *
import types
from pyebsdindex import pcopt, radon_fast
S = Suite("P01", "the swarm on smooth, noisy, plateau, non-finite and random objectives with several bounds, swarm sizes, settings and starts; pattern-centre conversions for square and other patterns with a recording optimiser; short real optimisations in all conventions")
def objectives(rng):
    c = rng.uniform(-1, 1, 4); A = rng.normal(size=(4, 4))
    yield "sphere", lambda x: float(np.sum((x - c[:len(x)]) ** 2))
    yield "plateau", lambda x: float(np.floor(3 * np.abs(x).sum()))
    yield "constant", lambda x: 1.0
    yield "edge", lambda x: float(-np.sum(x))
    yield "rough", lambda x: float(np.sin(40 * x).sum() + np.abs(A[:len(x), :len(x)] @ x).sum())
    yield "partly infinite", lambda x: np.inf if x[0] > c[0] else float(x[0] ** 2)
    yield "as array", lambda x: np.array([np.sum(x ** 2)])
def swarm(S):
    for r in range(6 * S.scale):
        for name, fn in objectives(S.rng):
            dim = int(S.rng.integers(1, 5)); npart = int(S.rng.integers(2, 12)); lo = S.rng.uniform(-2, 0, dim); hi = lo + S.rng.uniform(0.01, 3, dim) * S.rng.choice([1, 1, 1, 0], dim); niter = int(S.rng.choice([1, 2, 5, 30]))
            start = [None, .5 * (lo + hi), lo.copy()][r % 3]; hp = ["auto", "static"][r % 2]; ee = [None, .01, 1e-4][int(S.rng.integers(3))]; kw = {"c1": S.rng.uniform(.5, 6), "c2": S.rng.uniform(.5, 6), "w": S.rng.uniform(.3, 1.6)}
            inp = {"objective": name, "dimensions": dim, "particles": npart, "bounds": [lo, hi], "iterations": niter, "start": start, "method": hp, "early_exit": ee, "settings": kw}; S.cur = inp
            ev = []; best = []
            o = pcopt.PSOOpt(dimensions=dim, n_particles=npart, hyperparammethod=hp, early_exit=ee, **kw)
            def rec(x, flag=None):
                v = fn(x); ev.append((np.array(x, float), float(np.asarray(v).ravel()[0]))); best.append(float(o.gbest)); return v
            np.random.seed(int(S.rng.integers(1 << 30))); s0 = None if start is None else start.copy(); lo0, hi0 = lo.copy(), hi.copy()
            for rep in range(2):
                ev.clear(); best.clear(); gb, gl = o.optimize(rec, start=start, bounds=(lo, hi), niter=niter, verbose=0, flag=1)
                X = np.array([e[0] for e in ev]); V = np.array([e[1] for e in ev])
                S.check(X.shape[1] == dim and np.all(X >= lo0) and np.all(X <= hi0), "evaluated inside the bounds", inp, lambda: {"outside": X[np.any((X < lo0) | (X > hi0), axis=1)][:3]})
                S.check(all(b <= a for a, b in zip(best, best[1:])), "best value never increases", inp)
                if np.isfinite(V).any():
                    S.check(float(gb) == V.min(), "best value is the smallest evaluated", inp, {"reported": gb, "evaluated": V.min()})
                    S.check(any(np.array_equal(np.asarray(gl), x) for x, v in zip(X, V) if v == float(gb)), "best position has the best value", inp, {"reported": gl})
                S.check(np.array_equal(lo, lo0) and np.array_equal(hi, hi0) and (start is None or np.array_equal(start, s0)), "arguments not modified", inp)
def fakeindexer(vendor, shape, PC):
    return types.SimpleNamespace(vendor=vendor, PC=PC, bandDetectPlan=types.SimpleNamespace(patDim=np.array(shape), find_bands=lambda p: np.zeros((len(p), 7)), nBands=7))
def source(v, PC, H, W):
    """physical position of the source in pixels"""
    x = np.asarray(PC, float)
    if v == "EMSOFT": return np.array([W / 2 - x[0], H / 2 + x[1], x[2] / x[3]])
    if v == "EDAX": return np.array([x[0] * W, x[1] * H, x[2] * min(H, W)])
    return None
def conversions(S):
    import scipy.optimize as so
    for r in range(24 * S.scale):
        H, W = [(60, 60), (48, 64), (64, 40)][r % 3]; ven = ["EMSOFT", "EMSOFT", "EDAX", "OXFORD"][r % 4]; batch = bool((r // 4) % 2); given = bool((r // 8) % 2); fn = ["optimize", "optimize_pso"][(r // 2) % 2]
        PC = np.array([S.rng.uniform(-9, 9), S.rng.uniform(-9, 9), S.rng.uniform(5000, 20000), S.rng.uniform(20, 90)]) if ven == "EMSOFT" else S.rng.uniform(.4, .7, 3)
        PC0 = PC + ([1.0, -2.0, 500, 0] if ven == "EMSOFT" else .02); form = (r // 3) % 3; arg = [PC0.copy(), list(PC0), PC0.copy()][form] if given else None
        ix = fakeindexer(ven, (H, W), PC.copy()); inp = {"function": fn, "vendor": ven, "shape": [H, W], "PC": PC, "PC0": arg, "batch": batch}; S.cur = inp; got = []; seen = []
        want = PC0 if given else PC; bump = np.array([.01, -.02, .03])
        if fn == "optimize":
            old = pcopt.opt.minimize
            def mini(f, x0, *a, **k): got.append(np.array(x0, float)); seen.append(ix.vendor); return {"x": np.array(x0, float) + bump}
            pcopt.opt.minimize = mini
            try: out = pcopt.optimize(np.zeros((3, H, W)), ix, PC0=arg, batch=batch)
            finally: pcopt.opt.minimize = old
        else:
            old = pcopt.PSOOpt.optimize
            def opti(self, f, start=None, bounds=None, **k): got.append(np.array(start, float)); seen.append(ix.vendor); S.check(np.allclose((bounds[0] + bounds[1]) / 2, start) and np.allclose(bounds[1] - bounds[0], .4), "search bounds around the start", inp); return 1.0, np.array(start, float) + bump
            pcopt.PSOOpt.optimize = opti
            try: out = pcopt.optimize_pso(np.zeros((3, H, W)), ix, PC0=arg, batch=batch, verbose=0)
            finally: pcopt.PSOOpt.optimize = old
        S.check(len(got) == (3 if batch else 1), "one optimisation per pattern or in all", inp)
        iv = "EDAX" if ven == "EMSOFT" else ven
        S.check(all(v == iv for v in seen), "internal convention", inp, seen)
        for g in got: S.check(np.allclose(source("EDAX", g, H, W), source(ven, want, H, W), rtol=1e-6) if ven == "EMSOFT" else np.allclose(g, want), "start is the given centre", inp, lambda: {"internal": g})
        out2 = np.atleast_2d(out); S.check(out2.shape == (len(got), len(PC)) and (np.ndim(out) == 2) == batch, "shape of the result", inp, np.shape(out))
        for g, o in zip(got, out2): S.check(np.allclose(source("EMSOFT", o, H, W), source("EDAX", g + bump, H, W), rtol=1e-6) and o[3] == PC[3] if ven == "EMSOFT" else np.allclose(o, g + bump), "returned centre is the optimum", inp, lambda: {"returned": o})
        S.check(ix.vendor == ven and np.array_equal(ix.PC, PC), "settings restored", inp, lambda: {"vendor": ix.vendor, "PC": ix.PC}); S.check(arg is None or np.array_equal(np.asarray(arg), PC0), "argument not modified", inp, arg)
def real(S):
    """short real optimisations: the returned centre costs what was reported"""
    for r, (ven, shape) in enumerate([("EDAX", (48, 48)), ("EMSOFT", (40, 56)), ("BRUKER", (56, 40))][: 3 if not S.quick else 3]):
        H, W = shape; pe = np.array([.5, .62, .6]); t = source("EDAX", pe, H, W)
        PC = {"EDAX": pe, "EMSOFT": np.array([W / 2 - t[0], t[1] - H / 2, t[2] * 50.0, 50.0]), "BRUKER": np.array([t[0] / W, 1 - t[1] / H, t[2] / H])}[ven]
        ix = es.EBSDIndexer(phaselist=[phase(0)], patDim=np.array(shape), nTheta=60, nRho=30, tSigma=1.0, rSigma=1.2, rhoMaskFrac=.1, nBands=7, vendor=ven, PC=PC.copy()); st = np.array([kik(S.rng, 0, shape, tuple(pe)) for _ in range(2)], np.float32)
        inp = {"vendor": ven, "shape": shape}; S.cur = inp; before = {k: (v.copy() if isinstance(v, np.ndarray) else v) for k, v in vars(ix).items() if isinstance(v, (np.ndarray, str, int, float, bool, type(None)))}
        np.random.seed(3 + r); costs = []; old = pcopt._optfunction
        def rec(x, **k): v = old(x, **k); costs.append((np.array(x, float), float(np.asarray(v).ravel()[0]))); return v
        pcopt._optfunction = rec
        try: pc, cost = pcopt.optimize_pso(st, ix, nswarmparticles=5, niter=3, search_limit=.05, return_cost=True, verbose=0)
        finally: pcopt._optfunction = old
        S.check(float(cost) == min(c for _, c in costs), "reported cost is the smallest evaluated", inp)
        b = [x for x, c in costs if c == float(cost)]
        S.check(any((np.allclose(source("EMSOFT", pc, H, W), source("EDAX", x, H, W)) if ven == "EMSOFT" else np.array_equal(pc, x)) for x in b), "returned centre was evaluated with that cost", inp, lambda: {"returned": pc, "best evaluated": b})
        bd = ix.bandDetectPlan.find_bands(st); c2 = float(np.asarray(old(np.asarray(pc), indexer=ix, banddat=bd)).ravel()[0]); S.check(abs(c2 - float(cost)) < 1e-3 * max(1, abs(c2)), "returned centre costs what was reported in the caller's convention", inp, {"reported": cost, "recomputed": c2})
        S.check(all(np.array_equal(v, getattr(ix, k)) for k, v in before.items()), "settings restored", inp, lambda: {k: getattr(ix, k) for k, v in before.items() if not np.array_equal(v, getattr(ix, k))})
if __name__ == "__main__": S.run(swarm, conversions, real)
