"""Bounded companion suites: run the real code of /repo on sampled inputs against an independent oracle."""
import os, sys, json, time, hashlib, traceback
import numpy as np
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
TIER = os.environ.get("VERIF_TIER", "quick")
class Skip(Exception): pass
def js(x, d=0):
    if isinstance(x, np.ndarray):
        return js(x.tolist(), d) if x.size <= 400 else {"shape": list(x.shape), "dtype": str(x.dtype), "first": x.ravel()[:20].tolist()}
    if isinstance(x, (np.floating, np.integer, np.bool_)): return x.item()
    if isinstance(x, dict): return {str(k): js(v, d + 1) for k, v in x.items()}
    if isinstance(x, (list, tuple)): return [js(v, d + 1) for v in x]
    if isinstance(x, (str, int, float, bool)) or x is None: return x
    return repr(x)[:300]
class Suite:
    def __init__(self, prop, rule):
        self.prop, self.rule = prop, rule
        self.rng = np.random.default_rng(SEED)
        self.t0 = time.time(); self.n = 0; self.seen = set(); self.samples = []; self.failures = []; self.skipped = []; self.groups = {}
        self.quick = TIER != "thorough"
        self.scale = 1 if self.quick else 8
        self.budget = float(os.environ.get("VT_SUITE_S", 60 if self.quick else 500))
    def late(self): return time.time() - self.t0 > self.budget
    def check(self, cond, sig, inp=None, detail=None, trivial=False):
        self.n += 1
        g = sig.split(":")[0]; self.groups[g] = self.groups.get(g, 0) + 1
        if not trivial:
            self.seen.add(hashlib.md5((sig + repr(js(inp() if callable(inp) else inp))).encode()).digest() if inp is not None else (sig, self.n))
        try: ok = bool(np.all(cond))
        except Exception: ok = False
        if len(self.samples) < 6 and self.n % 37 == 1: self.samples.append({"case": sig, "input": js(inp() if callable(inp) else inp)})
        if not ok and sum(1 for f in self.failures if f["sig"] == sig) < 2 and len(self.failures) < 60:
            self.failures.append({"sig": sig, "input": js(inp() if callable(inp) else inp), "detail": js(detail() if callable(detail) else detail)})
        return ok
    def need(self, mod, *names):
        out = []
        for nm in names:
            o = mod
            for p in nm.split("."):
                if not hasattr(o, p): raise Skip("%s.%s is missing" % (getattr(mod, "__name__", mod), nm))
                o = getattr(o, p)
            out.append(o)
        return out[0] if len(out) == 1 else out
    def run(self, *parts):
        """run test parts; an exception of the real code inside a part is a failure of that part"""
        import signal
        self.part = ""
        def alarm(*a):
            tb = "".join(traceback.format_stack(a[1])) if a[1] is not None else ""
            if "/pyebsdindex/" not in tb: self.skipped.append("time limit outside the code under test: " + tb[-500:])
            else: self.failures.append({"sig": self.part + ":does not end", "input": js(self.cur() if callable(self.cur) else self.cur), "detail": tb[-1500:]})
            self.done(); os._exit(0)
        signal.signal(signal.SIGALRM, alarm); signal.alarm(int(self.budget * (4 if self.quick else 1.4)))
        for f in parts:
            self.part = f.__name__
            if self.late(): self.skipped.append(f.__name__ + ": time budget"); continue
            self.cur = None
            try: f(self)
            except Skip as e: self.skipped.append("%s: %s" % (f.__name__, e))
            except Exception as e:
                tb = traceback.format_exc()
                inner = "pyebsdindex" in tb.split("File ")[-1].split(",")[0] or any("/pyebsdindex/" in l for l in tb.splitlines() if l.strip().startswith("File"))
                if isinstance(e, (ImportError,)) or not inner:
                    self.skipped.append("%s: harness %s" % (f.__name__, tb[-700:]))
                else:
                    self.failures.append({"sig": f.__name__ + ":exception:" + type(e).__name__, "input": js(self.cur() if callable(self.cur) else self.cur), "detail": tb[-1500:]})
        signal.alarm(0)
        self.done()
    def done(self):
        out = {"evaluations": self.n, "distinct": len(self.seen), "rule": self.rule, "samples": self.samples, "failures": self.failures, "skipped": self.skipped, "groups": self.groups, "seconds": round(time.time() - self.t0, 2)}
        p = sys.argv[1] if len(sys.argv) > 1 else None
        if p == "/dev/stdout" or p is None: print(json.dumps(out, indent=1))
        else:
            with open(p + ".tmp", "w") as f: json.dump(out, f)
            os.replace(p + ".tmp", p)
