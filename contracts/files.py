"""Stand-ins with contracts for pattern files (used by F01, F02)."""
from pyvc import core, arrays
from pyvc.core import _cmp, band, bor, add, mul, sub
from pyvc.spec import *
def obj(mod, cls, **k):
    o = object.__new__(getattr(mod, cls))
    o.__dict__.update(k)
    return o
def scan(E, ep, cls="EBSDPatternFile", base=None, dt="uint8"):
    """a pattern file of a scan with symbolic columns, rows and pattern shape"""
    C, R, H, W = [E.const(x, "i") for x in ("nCols", "nRows", "H", "W")]
    for d in (C, R, H, W): E.assume(d >= 1)
    N = E.prod_dim(R, C)
    k = dict(version=3, vendor="EDAX", filetype="UP", nCols=C, nRows=R, nPatterns=N, patternW=W, patternH=H, xStep=E.const("xStep", "r"), yStep=E.const("yStep", "r"), hexflag=0, filepath="/scratch/f.up1", filedatatype=arrays.DTS[dt])
    k.update(base or {})
    return obj(ep, cls, **k), C, R, H, W, N
def pick(E, n, name="q"):
    q = E.fresh(name, "i"); E.fact(q.t >= 0); E.fact(lift(_cmp("<", q, n))); return q
class Reader:
    """contract of pat_reader: the patterns and positions of the requested run, which lies inside the scan"""
    def __init__(self, E, N, H, W, dt="uint8"):
        Z, R = z3.IntSort(), z3.RealSort()
        self.E, self.N, self.H, self.W, self.dt = E, N, H, W, dt
        self.f = z3.Function("FILE", Z, Z, Z, Z); self.g = z3.Function("XY", Z, Z, R); self.calls = 0
    def pix(self, p, y, x): return core.S(self.f(lift(p), lift(y), lift(x)))
    def xy(self, p, c): return core.S(self.g(lift(p), lift(c)))
    def __call__(self, start, n):
        E = self.E; self.calls += 1
        E.oblige("the run read starts inside the scan", band(_cmp(">=", start, 0), bor(_cmp("==", n, 0), _cmp("<", start, self.N))))
        E.oblige("the run read ends inside the scan", band(_cmp(">=", n, 0), _cmp("<=", add(start, n), self.N)))
        def px(ix):
            v = self.pix(add(start, ix[0]), ix[1], ix[2])
            d = arrays.DTS[self.dt]
            E.fact(z3.And(v.t >= 0, v.t < 2 ** (8 * d.itemsize)))
            return v
        return marr("pats", (n, self.H, self.W), px, arrays.DTS[self.dt]), marr("xy", (n, 2), lambda ix: self.xy(add(start, ix[0]), ix[1]), arrays.F32)
class BinFile:
    """contract of a binary file: seek / tell / sequential reads and writes at a byte position; reads see the given content.
    Inside a loop over symbolic bounds the position of the arbitrary iteration is known after an absolute seek, or is the
    starting position plus the (constant) number of bytes an iteration advances by."""
    def __init__(self, E, content=None, size=None):
        self.E, self.content, self.size = E, content or {}, size
        self.pos = 0; self.loop = None; self.writes = []; self.reads = []; self.stack = []
        self.closed = False; self.fns = {}
    # -- file protocol
    def __enter__(self): return self
    def __exit__(self, *a): self.close(); return False
    def close(self): self.closed = True; self.sync()
    def tell(self): self.sync(); return self.known()
    def seek(self, off, whence=0):
        self.sync()
        if whence == 0: self.pos = off
        elif whence == 1: self.pos = add(self.known(), off)
        else:
            if self.size is None: raise Unsupported("file size")
            self.pos = add(self.size, off)
        self.E.oblige("file position is not negative", _cmp(">=", self.pos, 0))
        return self.pos
    def known(self):
        if self.pos is None: raise Unsupported("file position in a loop")
        return self.pos
    # -- loops
    def active(self):
        Ls = [l for l in self.E.loops if l.sym and l.active]
        return Ls
    def sync(self):
        Ls = self.active()
        while self.stack and self.stack[-1][0] not in Ls: self.leave()
        for l in Ls:
            if not any(s[0] is l for s in self.stack):
                if l.mode != "map": raise Unsupported("file access in an accumulating loop")
                st = self.E.fresh("advance", "i")
                lo = l.dom[0]
                start = self.pos
                if start is not None:
                    self.pos = add(start, mul(st, l.kv if not (core.conc(l.dom[2]) and l.dom[2] == 1) else sub(l.kv, lo)))
                self.stack.append((l, start, st, self.pos, len(self.E.pc)))
    def leave(self):
        l, start, st, p0, npc = self.stack.pop()
        if start is None or p0 is None or self.pos is None: self.pos = None; return
        d = sub(self.pos, p0)
        cs = core.consts_of(lift(d))
        if str(st.t) in cs or str(l.kv.t) in cs or self.E.pc[npc:]:
            # not a constant advance: the position after the loop is unknown unless absolute
            used = any(str(st.t) in core.consts_of(lift(w[1])) for w in self.writes + self.reads if w[0] is not None)
            if used: raise Unsupported("file position advances by a varying amount")
            self.pos = None; return
        self.E.fact(lift(_cmp("==", st, d)))
        n = sub(l.dom[1], l.dom[0])
        if not (core.conc(l.dom[2]) and l.dom[2] == 1): self.pos = None; return
        self.pos = add(start, mul(n, d))
    # -- content
    def at(self, dt, addr):
        if core.conc(addr) or True:
            for lp, pos, arr, d, cnt in reversed(self.writes):
                if core.conc(addr) and core.conc(pos) and core.conc(cnt):
                    off = addr - pos
                    if 0 <= off < cnt * d.itemsize:
                        if d.name == dt.name and off % d.itemsize == 0: return arr.reshape(-1)[off // d.itemsize] if isinstance(arr, arrays.ArrBase) and arr.ndim else arr.item()
                        return self.E.fresh("mixed", "r" if dt.kind == "f" else "i")
                    if addr + dt.itemsize > pos and off < 0: return self.E.fresh("mixed", "r" if dt.kind == "f" else "i")
        g = self.content.get(dt.name)
        if g is not None: return g(addr)
        return self.raw(dt, addr)
    def raw(self, dt, addr):
        f = self.fns.get(dt.name)
        if f is None: f = self.fns[dt.name] = z3.Function("BYTES_" + dt.name, z3.IntSort(), z3.RealSort() if dt.kind == "f" else z3.IntSort())
        v = core.S(f(lift(addr)))
        if dt.kind in "iu":
            b = 8 * dt.itemsize
            lo, hi = (0, 2 ** b - 1) if dt.kind == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)
            self.E.fact(z3.And(v.t >= lo, v.t <= hi))
        return v
    def vc_fromfile(self, dt, count):
        self.sync()
        E = self.E; pos = self.known()
        E.oblige("count of elements read is not negative", _cmp(">=", count, 0))
        self.reads.append((self.stack[-1][0] if self.stack else None, pos, dt, count))
        if dt.kind == "V":
            fb, size = dt.field_bytes()
            from pyvc import npshim
            r = npshim.StructArr((count,), dt)
            for n, d, sh, off in fb:
                def el(ix, d=d, sh=sh, off=off):
                    m = 0
                    for s_, i in zip(sh, ix[1:]): m = add(mul(m, s_), i)
                    return self.at(d, add(add(pos, mul(ix[0], size)), add(off, mul(m, d.itemsize))))
                r.f[n] = marr(n, (count,) + tuple(sh), el, d)
            self.pos = add(pos, mul(count, size))
            return r
        self.pos = add(pos, mul(count, dt.itemsize))
        return marr("dat", (count,), lambda ix: self.at(dt, add(pos, mul(ix[0], dt.itemsize))), dt)
    def vc_tofile(self, arr):
        self.sync()
        pos = self.known()
        a = arr.copy() if isinstance(arr, arrays.ArrBase) and arr.ndim else arrays.asarray(arr.item() if isinstance(arr, arrays.ArrBase) else arr, arr.dtype)
        n = 1
        for d in a.shape: n = mul(n, d)
        self.writes.append((self.stack[-1][0] if self.stack else None, pos, a, a.dtype, n))
        self.pos = add(pos, mul(n, a.dtype.itemsize))
def pixel_addr(base, H, W, nb, y, x): return add(base, mul(add(mul(y, W), x), nb))
