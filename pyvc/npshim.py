"""The numpy / numba / math surface seen by the interpreted code, over symbolic values."""
from fractions import Fraction
import math as _math, types
import numpy as _np
import z3
from . import core, arrays
from .core import S, Unsupported, VcRaise, conc, lift, wrap, ite, band, bor, bnot, _cmp, add, sub, mul
from .arrays import ArrBase, CArr, SArr, asarray, as_dtype, elementwise, mk, cast, snap, bidx, DTS, F64, F32, I64, BOOL

BIN = {"div": core.truediv, "fdiv": core.floordiv, "mod": core.mod, "pow": core.power}
def binop(k, a, b):
    if isinstance(a, (list, tuple)) and isinstance(b, ArrBase): a = asarray(a)
    if isinstance(b, (list, tuple)) and isinstance(a, ArrBase): b = asarray(b)
    if isinstance(a, ArrBase) or isinstance(b, ArrBase): return elementwise(BIN[k], a, b)
    if isinstance(a, complex) or isinstance(b, complex): raise Unsupported("complex")
    return BIN[k](a, b)

def un(f, dtype=None):
    def g(x, out=None, **k):
        if isinstance(x, (list, tuple, _np.ndarray)): x = asarray(x)
        r = elementwise(f, x, dtype=dtype) if isinstance(x, ArrBase) else f(x)
        if out is not None: out.assign(r); return out
        return r
    return g
def bi(f, dtype=None):
    def g(x, y, out=None, **k):
        if isinstance(x, (list, tuple)): x = asarray(x)
        if isinstance(y, (list, tuple)): y = asarray(y)
        r = elementwise(f, x, y, dtype=dtype) if isinstance(x, ArrBase) or isinstance(y, ArrBase) else f(x, y)
        if out is not None: out.assign(r); return out
        return r
    return g

def _dims(shape):
    if isinstance(shape, ArrBase): shape = shape.tolist()
    if isinstance(shape, (list, tuple)): d = tuple(shape)
    else: d = (shape,)
    out = []
    for x in d:
        if isinstance(x, ArrBase): x = x.item()
        if isinstance(x, Fraction):
            if x.denominator != 1: raise VcRaise("TypeError", "float dimension")
            x = int(x)
        if isinstance(x, bool): x = int(x)
        if isinstance(x, int) and x < 0: raise VcRaise("ValueError", "negative dimensions are not allowed")
        if isinstance(x, S) and not z3.is_int(x.t): raise VcRaise("TypeError", "float dimension")
        if isinstance(x, S) and not core.E.implied(_cmp(">=", x, 0)):
            core.E.oblige("array dimension is not negative", _cmp(">=", x, 0)); core.E.assume(_cmp(">=", x, 0))
        out.append(x)
    return tuple(out)
def full(shape, v, dtype=None, **k):
    d = as_dtype(dtype) if dtype is not None else (arrays.dt_of(v) if not isinstance(v, float) else F64)
    v = cast(v, d) if d.kind != "V" else v
    return mk(_dims(shape), d, lambda i: v)
class StructArr:
    """structured array: one array per field"""
    __vc_loopsafe__ = True          # the fields' stores record the writes
    def __init__(self, shape, dt):
        self.shape, self.dtype = shape, dt
        self.f = {n: mk(shape + sub_, d, lambda i: cast(0, d)) for n, d, sub_ in dt.fields}
    def __getitem__(self, k):
        if isinstance(k, str): return self.f[k]
        return StructView(self, k)
    def __setitem__(self, k, v):
        if isinstance(k, str): self.f[k][...] = v; return
        if isinstance(v, StructView):
            for n in self.f: self.f[n][k] = v[n]
            return
        if isinstance(v, StructArr):
            for n in self.f: self.f[n][k] = v.f[n]
            return
        raise Unsupported("record assignment")
    def vlen(self): return self.shape[0]
    def copy(self):
        r = StructArr.__new__(StructArr); r.shape, r.dtype = self.shape, self.dtype
        r.f = {n: a.copy() for n, a in self.f.items()}
        return r
    @property
    def size(self): return arrays.prod(self.shape)
    @property
    def ndim(self): return len(self.shape)
class StructView:
    __vc_loopsafe__ = True
    def __init__(self, base, key): self.base, self.key = base, key
    @property
    def dtype(self): return self.base.dtype
    @property
    def shape(self):
        n, d, sub_ = self.dtype.fields[0]
        sh = self[n].shape
        return sh[:len(sh) - len(sub_)]
    def __getitem__(self, k):
        if isinstance(k, str): return self.base[k][self.key] if not isinstance(self.base, StructView) else self.base[k][self.key]
        return StructView(self, k)
    def copy(self):
        r = StructArr(self.shape, self.dtype)
        for n in self.dtype.names: r.f[n] = self[n].copy()
        return r
    def __setitem__(self, k, v):
        if isinstance(k, str): 
            t = self.base[k]
            t[self.key] = v
            return
        for n in self.dtype.names:
            t = self[n]; t[k] = v[n]
def zeros(shape, dtype=None, order=None, **k):
    d = as_dtype(dtype)
    if d.kind == "V": return StructArr(_dims(shape), d)
    z = cast(0, d) if d.kind != "O" else None
    return mk(_dims(shape), d, lambda i: z)
def ones(shape, dtype=None, **k):
    d = as_dtype(dtype or F64)
    if d.kind == "V":
        r = StructArr(_dims(shape), d)
        for n in d.names: r.f[n][...] = 1
        return r
    return full(shape, 1, d)
def empty(shape, dtype=None, **k):
    d = as_dtype(dtype)
    if d.kind == "V": return StructArr(_dims(shape), d)
    E = core.E
    E.n += 1
    sh = _dims(shape)
    if all(isinstance(x, int) for x in sh):
        return mk(sh, d, lambda i: E.fresh("empty", {"f": "r", "b": "b"}.get(d.kind, "i")) if d.kind != "O" else None)
    f = z3.Function("empty!%d" % E.n, *([z3.IntSort()] * len(sh) + [{"f": z3.RealSort(), "b": z3.BoolSort()}.get(d.kind, z3.IntSort())]))
    return mk(sh, d, lambda i: S(f(*[lift(q) for q in i])))
def zeros_like(a, dtype=None, **k): return zeros(asarray(a).shape, dtype or asarray(a).dtype)
def ones_like(a, dtype=None, **k): return full(asarray(a).shape, 1, dtype or asarray(a).dtype)
def empty_like(a, dtype=None, **k): return empty(a.shape, dtype or a.dtype)
def full_like(a, v, dtype=None, **k): return full(a.shape, v, dtype or a.dtype)
def array(x, dtype=None, copy=True, **k):
    r = asarray(x, dtype)
    return r.copy() if isinstance(x, ArrBase) and r is x else r
def arange(*a, dtype=None, step=None, **k):
    a = [x.item() if isinstance(x, ArrBase) else core.fl(x) for x in a]
    lo, hi, st = (0, a[0], 1) if len(a) == 1 else (a[0], a[1], 1) if len(a) == 2 else a
    if step is not None: st = step
    if all(conc(x) for x in (lo, hi, st)):
        n = max(0, -((lo - hi) // st)) if True else 0
        n = int(_math.ceil(Fraction(hi - lo) / Fraction(st)))
        vals = [lo + i * st for i in range(max(n, 0))]
        return asarray(vals, dtype or (I64 if all(isinstance(x, int) for x in (lo, hi, st)) else F64))
    if not conc(st) or core.isreal(st) or core.isreal(hi) or core.isreal(lo):
        # integer-valued reals
        if core.isreal(hi):
            h = core.E.int_of_real(lift(hi))
            if h is None: h = core.ceil(hi)
            hi = h; isf = True
        else: isf = False
        if core.isreal(lo) or (not isinstance(st, int)): raise Unsupported("arange with real step")
    else: isf = False
    ln = sub(hi, lo) if st == 1 else core.floordiv(add(sub(hi, lo), st - 1), st)
    if not core.E.implied(_cmp(">=", ln, 0)): ln = core.smax(ln, 0)
    d = as_dtype(dtype) if dtype is not None else (F64 if isf else I64)
    return mk((ln,), d, lambda i: cast(add(lo, mul(i[0], st)), d))
def linspace(a, b, num=50, endpoint=True, **k):
    if not conc(num): raise Unsupported("linspace")
    den = num - 1 if endpoint else num
    return mk((num,), F64, lambda i: add(a, mul(Fraction(i[0], den), sub(b, a))))

# ---- reductions
def _axes(a, axis):
    if axis is None: return tuple(range(a.ndim))
    if isinstance(axis, int): axis = (axis,)
    return tuple(x % a.ndim for x in axis)
def reduce_(a, axis, f, init, keepdims=False, sym=None, dtype=None):
    a = asarray(a)
    ax = _axes(a, axis)
    if all(isinstance(a.shape[x], int) for x in ax):
        rest = [i for i in range(a.ndim) if i not in ax]
        s = snap(a)
        def fn(idx):
            r = init
            for j in _np.ndindex(*[a.shape[x] for x in ax]):
                full_ = [None] * a.ndim
                for q, i in enumerate(rest): full_[i] = idx[q]
                for q, i in enumerate(ax): full_[i] = j[q]
                v = s.get(tuple(full_))
                r = v if r is None else f(r, v)
            if r is None: raise VcRaise("ValueError", "zero-size array to reduction operation")
            return r
        sh = tuple(a.shape[i] for i in rest)
    else:
        if sym is None: raise Unsupported("reduction over a symbolic dimension")
        rest = [i for i in range(a.ndim) if i not in ax]
        s = snap(a)
        def fn(idx):
            full_ = [None] * a.ndim
            for q, i in enumerate(rest): full_[i] = idx[q]
            return sym(s, full_, [(i, a.shape[i]) for i in ax])
        sh = tuple(a.shape[i] for i in rest)
    d = dtype or a.dtype
    if sh == (): r = fn(())
    else: r = mk(sh, d, fn)
    if keepdims:
        r = asarray(r).reshape(tuple(1 if i in ax else a.shape[i] for i in range(a.ndim)))
    return r
def _symsum(s, full_, axs):
    def rec(i):
        if i == len(axs): return s.get(tuple(full_))
        ax, n = axs[i]
        if isinstance(n, int):
            r = 0
            for v in range(n):
                full_[ax] = v; r = add(r, rec(i + 1))
            return r
        def body(k):
            full_[ax] = k
            return rec(i + 1)
        return core.E.sum_of(0, n, body)
    return rec(0)
def sum_(a, axis=None, keepdims=False, dtype=None, **k):
    if isinstance(a, (list, tuple)) and axis is None: a = asarray(a)
    a = asarray(a)
    if a.dtype.kind == "b": a = a.astype(I64)
    z = Fraction(0) if a.dtype.kind == "f" else 0
    return reduce_(a, axis, add, z, keepdims, _symsum)
def _count(a, axis):
    r = 1
    for x in _axes(a, axis): r = core.E.prod_dim(r, a.shape[x]) if not (conc(r) and conc(a.shape[x])) else r * a.shape[x]
    return r
def mean(a, axis=None, keepdims=False, **k):
    a = asarray(a)
    return binop("div", sum_(a, axis, keepdims), _count(a, axis))
def std(*a, **k): raise Unsupported("std")
def _symext(op):
    def go(s, full_, axs): 
        return core.E.extremum(op, s, list(full_), axs)
    return go
def max_(a, axis=None, keepdims=False, **k): return reduce_(a, axis, core.smax, None, keepdims, _symext("max"))
def min_(a, axis=None, keepdims=False, **k): return reduce_(a, axis, core.smin, None, keepdims, _symext("min"))
def prod_(a, axis=None, dtype=None, **k): return reduce_(asarray(a), axis, mul, 1)
def all_(a, axis=None, **k): return reduce_(asarray(a), axis, band, True, dtype=BOOL)
def any_(a, axis=None, **k): return reduce_(asarray(a), axis, bor, False, dtype=BOOL)
def bincount(a, weights=None, minlength=0):
    a = asarray(a); v = [x for x in a] if a.ndim == 1 and a.concrete() else [None]
    if weights is not None or not all(conc(x) and x >= 0 for x in v): raise Unsupported("bincount")
    out = [0] * max([int(x) + 1 for x in v] + [int(minlength)])
    for x in v: out[int(x)] += 1
    return asarray(out, I64)
def _diag(a):
    a = asarray(a)
    if a.ndim == 1: return mk((a.shape[0],) * 2, a.dtype, lambda q: a.get((q[0],)) if q[0] == q[1] else 0)
    if all(conc(x) for x in a.shape): return asarray([a[i, i] for i in range(min(a.shape))])
    n = a.shape[0]
    if not core.E.implied(_cmp("==", n, a.shape[1])): raise Unsupported("diagonal")
    v = snap(a)
    return mk((n,), a.dtype, lambda q: v.get((q[0], q[0])))
def cumsum(a, axis=None, **k):
    a = asarray(a)
    if a.ndim != 1 or not a.concrete(): raise Unsupported("cumsum")
    r, out = 0, []
    for x in a: r = add(r, x); out.append(r)
    return asarray(out, a.dtype)
def _argext(a, op, axis):
    a = asarray(a)
    if axis is None: a = a.reshape(-1)
    elif a.ndim != 1:
        if not isinstance(a.shape[axis], int): raise Unsupported("argmax over symbolic axis")
        ax = axis % a.ndim; s = snap(a)
        def fn(idx):
            return _argvals([s.get(idx[:ax] + (j,) + idx[ax:]) for j in range(a.shape[ax])], op)
        return mk(a.shape[:ax] + a.shape[ax + 1:], I64, fn)
    if not a.concrete(): return core.E.argext("max" if op == ">" else "min", snap(a), a.shape[0])
    return _argvals([x for x in a], op)
def _argvals(vals, op):
    bi_, bv = 0, vals[0]
    for i, v in enumerate(vals[1:], 1):
        c = _cmp(op, v, bv)
        bi_ = ite(c, i, bi_); bv = ite(c, v, bv)
    return bi_
def argmax(a, axis=None, **k): return _argext(a, ">", axis)
def argmin(a, axis=None, **k): return _argext(a, "<", axis)
def argsort(a, axis=-1, **k):
    a = asarray(a)
    if a.ndim == 1 and not a.concrete() and not conc(a.shape[0]): return arrays.SortPerm(a).array()
    if a.ndim != 1 or not a.concrete():
        raise Unsupported("argsort")
    idx = list(range(a.shape[0]))
    vals = [x for x in a]
    # insertion sort with decided comparisons (stable)
    out = []
    for i in idx:
        j = len(out)
        while j > 0 and core.E.decide(_cmp("<", vals[i], vals[out[j - 1]])): j -= 1
        out.insert(j, i)
    return asarray(out, I64)
def sort(a, axis=-1, **k):
    a = asarray(a)
    if a.ndim == 2 and conc(axis) and axis in (-1, 1) and conc(a.shape[1]) and 1 <= a.shape[1] <= 3:
        s, m, memo_ = arrays.snap(a), a.shape[1], {}
        def row(i): return core.E.sorted_vals([s.get((i, j)) for j in range(m)])
        def fn(i):
            v = row(i[0]); j = i[1]
            if conc(j): return v[j]
            r = v[m - 1]
            for q in reversed(range(m - 1)): r = ite(_cmp("==", j, q), v[q], r)
            return r
        return mk(a.shape, a.dtype, fn, "sort")
    return a[argsort(a)]

# ---- elementary functions
def cos(x): return core.E.cossin(core.fl(x))[0]
def sin(x): return core.E.cossin(core.fl(x))[1]
def tan(x):
    c, s = core.E.cossin(core.fl(x))
    return core.truediv(s, c)
def sign(x): return ite(_cmp(">", x, 0), _one(x), ite(_cmp("<", x, 0), core.neg(_one(x)), core.mul(0, _one(x))))
def _one(x): return Fraction(1) if core.isreal(x) else 1
def _isclose(a, b, rtol=Fraction(1, 10**5), atol=Fraction(1, 10**8)):
    core.E.assumptions.add("isclose is idealised as equality")
    return _cmp("==", a, b)
def clip(a, lo=None, hi=None, out=None, **k):
    lo = k.get("a_min", k.get("min", lo)); hi = k.get("a_max", k.get("max", hi))
    if lo is None and hi is None: raise Unsupported("clip without bounds")
    def f(x, l, h):
        if l is not None: x = core.smax(x, l)
        if h is not None: x = core.smin(x, h)
        return x
    if isinstance(a, (list, tuple)): a = asarray(a)
    arrs = [y for y in (a, lo, hi) if isinstance(y, ArrBase)]
    if not arrs: return f(a, lo, hi)
    args = [y for y in (a, lo, hi) if y is not None]
    if lo is None: g = lambda x, h: f(x, None, h)
    elif hi is None: g = lambda x, l: f(x, l, None)
    else: g = f
    r = elementwise(g, *args, dtype=a.dtype if isinstance(a, ArrBase) and a.dtype.kind == "f" else None)
    if out is not None: out.assign(r); return out
    return r
def around(x, decimals=0, out=None):
    if decimals != 0: raise Unsupported("rounding to decimals")
    return un(core.rint)(x)
def where(c, a=None, b=None):
    if a is None: return nonzero(c)
    if isinstance(c, ArrBase) or isinstance(a, ArrBase) or isinstance(b, ArrBase):
        return elementwise(lambda p, x, y: ite(p, x, y), c, a, b)
    return ite(c, a, b)
def nonzero(c):
    c = asarray(c)
    if not c.concrete():
        big = [i for i, d in enumerate(c.shape) if not (conc(d) and d == 1)]
        if len(big) == 2 and c.ndim == 2:
            sn = arrays.snap(c)
            nz = arrays.NZ2(c.shape[0], c.shape[1], lambda i: core.tobool(sn.get(tuple(i))))
            return arrays.SArr.new((nz.n,), I64, lambda i: nz.at(i[0])[0]), arrays.SArr.new((nz.n,), I64, lambda i: nz.at(i[0])[1])
        if len(big) != 1: raise Unsupported("nonzero of an array of several symbolic dimensions")
        m = c[tuple(slice(None) if i == big[0] else 0 for i in range(c.ndim))]
        if m.dtype.kind != "b": m = elementwise(core.tobool, m, dtype=BOOL)
        nz = arrays.nz_from_mask(m)
        return tuple(arrays.nz_array(nz) if i == big[0] else zeros((nz.n,), I64) for i in range(c.ndim))
    hits = [i for i in _np.ndindex(*c.shape) if bool(core.tobool(c.get(i)))]
    return tuple(asarray([h[d] for h in hits], I64) for d in range(c.ndim))
def dot(a, b):
    a, b = asarray(a), asarray(b)
    if b.ndim == 1:
        if a.ndim == 1: return sum_(a * b)
        return sum_(a * b, axis=-1)
    if a.ndim == 1:
        return sum_(a.reshape(a.shape + (1,)) * b, axis=0)
    if a.ndim == 2 and b.ndim == 2:
        return sum_(a.reshape(a.shape + (1,)) * b.reshape((1,) + tuple(b.shape)), axis=1)
    if a.ndim > 2 and a.ndim == b.ndim:
        return sum_(a.reshape(tuple(a.shape) + (1,)) * b.reshape(tuple(b.shape[:-2]) + (1,) + tuple(b.shape[-2:])), axis=-2)
    raise Unsupported("dot %s %s" % (a.shape, b.shape))
def cross(a, b, axis=-1, **k):
    a, b = asarray(a), asarray(b)
    if a.shape[-1] != 3 or b.shape[-1] != 3: raise Unsupported("cross")
    a0, a1, a2 = a[..., 0], a[..., 1], a[..., 2]
    b0, b1, b2 = b[..., 0], b[..., 1], b[..., 2]
    return stack([a1 * b2 - a2 * b1, a2 * b0 - a0 * b2, a0 * b1 - a1 * b0], axis=-1)
def stack(xs, axis=0):
    xs = [asarray(x) for x in xs]
    r = asarray(xs)
    if axis == 0: return r
    axis = axis % r.ndim
    p = list(range(1, r.ndim)); p.insert(axis, 0)
    return r.transpose(p)
def concatenate(xs, axis=0, **k):
    xs = [asarray(x) for x in xs]
    if all(x.concrete() for x in xs):
        return CArr(_np.concatenate([_objarr(x) for x in xs], axis=axis), arrays.promote(*[x.dtype for x in xs]))
    axis = (axis or 0) % xs[0].ndim
    off = [0]
    for x in xs: off.append(add(off[-1], x.shape[axis]))
    ss = [snap(x) for x in xs]
    def fn(idx):
        r = None
        for q in range(len(xs) - 1, -1, -1):
            if conc(xs[q].shape[axis]) and xs[q].shape[axis] == 0: continue
            c = _cmp(">=", idx[axis], off[q])
            if r is not None and isinstance(c, S):
                if core.E.implied(c): c = True
                elif core.E.implied(bnot(c)): c = False
            if r is not None and c is False: continue
            v = ss[q].get(idx[:axis] + (sub(idx[axis], off[q]),) + idx[axis + 1:])
            r = v if (r is None or c is True) else ite(c, v, r)
            if False: pass
        return r
    # later pieces take precedence: evaluate from the first piece upward
    def fn2(idx):
        r = None
        for q in range(len(xs)):
            if conc(xs[q].shape[axis]) and xs[q].shape[axis] == 0: continue
            c = _cmp(">=", idx[axis], off[q])
            if isinstance(c, S):
                if core.E.implied(c): c = True
                elif core.E.implied(bnot(c)): c = False
            if c is False: continue
            v = ss[q].get(idx[:axis] + (sub(idx[axis], off[q]),) + idx[axis + 1:])
            r = v if (c is True or r is None) else ite(c, v, r)
        return r
    sh = list(xs[0].shape); sh[axis] = off[-1]
    return mk(sh, arrays.promote(*[x.dtype for x in xs]), fn2)
def _objarr(x):
    if isinstance(x, CArr): return x.a
    o = _np.empty(x.shape, dtype=object)
    for i in _np.ndindex(*x.shape): o[i] = x.get(i)
    return o
def atleast_1d(x):
    x = asarray(x)
    return x.reshape(1) if x.ndim == 0 else x
def atleast_2d(x):
    x = asarray(x)
    if x.ndim == 0: return x.reshape(1, 1)
    return x[None, :] if x.ndim == 1 else x
def expand_dims(a, axis):
    a = asarray(a)
    axis = axis % (a.ndim + 1)
    return a[(slice(None),) * axis + (None,)]
def squeeze(a, axis=None):
    if isinstance(a, ArrBase):
        r = a.squeeze(axis)
        return r if isinstance(r, ArrBase) else asarray(r)
    return asarray(a)
def broadcast_to(a, sh):
    a = asarray(a); sh = _dims(sh)
    arrays.broadcast_shapes(a.shape, sh)
    if not a.concrete() or not all(isinstance(x, int) for x in sh):
        s = snap(a)
        return mk(sh, a.dtype, lambda i: s.get(bidx(a.shape, i)))
    return CArr(_np.broadcast_to(_objarr(a), sh), a.dtype)
def tile(a, reps):
    a = asarray(a)
    if not isinstance(reps, (tuple, list)): reps = (reps,)
    reps = tuple(x.item() if isinstance(x, ArrBase) else x for x in reps)
    if a.concrete() and all(isinstance(x, int) for x in reps): return CArr(_np.tile(_objarr(a), reps), a.dtype)
    d = max(a.ndim, len(reps))
    a = a.reshape((1,) * (d - a.ndim) + tuple(a.shape)) if d > a.ndim else a
    reps = (1,) * (d - len(reps)) + reps
    s = snap(a); ash = a.shape
    def fn(idx):
        out = []
        for i, n, r in zip(idx, ash, reps):
            if conc(r) and r == 1: out.append(i)
            elif conc(n) and n == 1: out.append(0)
            else: out.append(core.E.divmod_idx(i, n)[1])
        return s.get(tuple(out))
    return mk(tuple(core.E.prod_dim(r, n) if not (conc(r) and conc(n)) else r * n for r, n in zip(reps, ash)), a.dtype, fn)
def interp(x, xp, fp, **k):
    """linear interpolation: a function of the abscissa for a given table (contract: see E.interp_rule)"""
    rule = core.E.interp_rule
    if rule is None: raise Unsupported("np.interp")
    core.E.assumptions.add("contract of np.interp")
    f = lambda v: rule(v, xp, fp)
    return elementwise(f, x) if isinstance(x, ArrBase) else f(x)
def choose(a, choices, out=None, mode="raise"):
    """element of the chosen array at the same position"""
    if mode != "raise" or out is not None: raise Unsupported("choose options")
    a = asarray(a)
    ch = [choices[j] for j in range(choices.shape[0])] if isinstance(choices, ArrBase) else [asarray(c) for c in choices]
    n = len(ch)
    def f(i, *c):
        core.E.oblige("choose: index within the choices", band(_cmp(">=", i, 0), _cmp("<", i, n)))
        r = c[n - 1]
        for j in reversed(range(n - 1)): r = ite(_cmp("==", i, j), c[j], r)
        return r
    return elementwise(f, a, *ch, dtype=ch[0].dtype)
def identity(n, dtype=None): return mk((n, n), as_dtype(dtype), lambda i: Fraction(1 if i[0] == i[1] else 0))
def flip(a, axis=None):
    a = asarray(a)
    if axis is None: key = (slice(None, None, -1),) * a.ndim
    else:
        axis = axis % a.ndim
        key = (slice(None),) * axis + (slice(None, None, -1),)
    return a[key]
def unravel_index(i, sh):
    sh = _dims(sh)
    if not conc(i) or not all(conc(x) for x in sh):
        def go(v, which):
            out = []
            for n in reversed(sh[1:]):
                v, b = core.E.divmod_idx(v, n); out.append(b)
            out.append(v)
            c = band(_cmp(">=", v, 0), _cmp("<", v, sh[0]))
            if which == 0 and not core.E.implied(c): core.E.oblige("index inside the shape it is unravelled in", c)
            return out[::-1][which]
        if isinstance(i, ArrBase): return tuple(elementwise(lambda v, q=q: go(v, q), i, dtype=I64) for q in range(len(sh)))
        return tuple(go(i, q) for q in range(len(sh)))
    return tuple(int(x) for x in _np.unravel_index(int(i), sh))
def unique(a, **k):
    a = asarray(a)
    if not a.concrete() or any(isinstance(x, S) for x in _objarr(a).flat) or a.ndim != 1 or k: raise Unsupported("unique")
    return asarray(sorted(set(_objarr(a).flat)), a.dtype)
def issubdtype(d, k):
    d = as_dtype(d)
    return d.kind in {"floating": "f", "integer": "iu", "number": "fiu"}.get(getattr(k, "name_", k), "")
def pad(*a, **k): raise Unsupported("pad")

class ndarray_t:
    def __instancecheck__(self, x): return isinstance(x, ArrBase)
class _NdMeta(type):
    def __instancecheck__(cls, x): return isinstance(x, ArrBase)
class ndarray(metaclass=_NdMeta): pass

class _Linalg:
    @staticmethod
    def norm(a, axis=None, keepdims=False, **k):
        a = asarray(a)
        s = sum_(a * a, axis=axis, keepdims=keepdims)
        return np.sqrt(s)
    @staticmethod
    def det(a):
        a = asarray(a)
        if a.shape[-2:] == (3, 3) and a.ndim == 2:
            g = lambda i, j: a.get((i, j))
            r = 0
            for (i, j, k, sg) in [(0, 1, 2, 1), (1, 2, 0, 1), (2, 0, 1, 1), (0, 2, 1, -1), (1, 0, 2, -1), (2, 1, 0, -1)]:
                r = add(r, mul(sg, mul(g(0, i), mul(g(1, j), g(2, k)))))
            return r
        raise Unsupported("det")
    @staticmethod
    def inv(a):
        a = asarray(a)
        if a.shape != (3, 3): raise Unsupported("inv")
        d = _Linalg.det(a)
        g = lambda i, j: a.get((i, j))
        def co(i, j):
            i1, i2 = (i + 1) % 3, (i + 2) % 3; j1, j2 = (j + 1) % 3, (j + 2) % 3
            return sub(mul(g(i1, j1), g(i2, j2)), mul(g(i1, j2), g(i2, j1)))
        return mk((3, 3), F64, lambda q: core.truediv(co(q[1], q[0]), d))
    def __getattr__(self, n):
        def f(*a, **k): raise Unsupported("np.linalg." + n)
        return f
class _Errstate:
    def __init__(self, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False
class _Rnd:
    """generators: arbitrary values in the documented range"""
    @staticmethod
    def _arr(size, fact):
        E = core.E
        E.assumptions.add("contract of the random generators of numpy: values in the documented range")
        if size is None:
            v = E.fresh("rnd", "r"); fact((), v); return v
        sh = _dims(size); E.n += 1
        f = z3.Function("rnd!%d" % E.n, *([z3.IntSort()] * len(sh) + [z3.RealSort()]))
        def fn(idx):
            v = S(f(*[lift(q) for q in idx])); fact(idx, v); return v
        return mk(sh, F64, fn)
    def uniform(self, low=0, high=1, size=None):
        lo, hi = asarray(low), asarray(high)
        lo, hi = (lo, snap(lo)), (hi, snap(hi))
        g = lambda a, idx: a[1].get(bidx(a[0].shape, idx))
        return self._arr(size, lambda idx, v: core.E.fact(z3.And(lift(_cmp("<=", g(lo, idx), v)), lift(_cmp("<=", v, g(hi, idx))))))
    def normal(self, loc=0, scale=1, size=None): return self._arr(size, lambda idx, v: core.E.fact(v.t != 0) if core.E.strict_sums else None)
    def random(self, size=None): return self._arr(size, lambda idx, v: core.E.fact(z3.And(v.t >= 0, v.t < 1)))
    def rand(self, *d): return self.random(d or None)
    def __getattr__(self, n):
        def f(*a, **k): raise Unsupported("np.random." + n)
        return f
class _IInfo:
    def __init__(self, d):
        d = as_dtype(d)
        b = 8 * d.itemsize
        self.min, self.max = (0, 2 ** b - 1) if d.kind == "u" else (-2 ** (b - 1), 2 ** (b - 1) - 1)

class NP(types.ModuleType):
    """numpy"""
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if n == "pi": return core.E.PI
        def f(*a, **k): raise Unsupported("np." + n)
        f.__name__ = n
        return f
np = NP("numpy")
_d = np.__dict__
_d.update(DTS); _d["bool_"] = DTS["bool"]; del _d["bool"], _d["object"]
_d.update(double=F64, single=F32, ubyte=DTS["uint8"], longlong=I64, long=I64, int_=I64, uint=DTS["uint64"], intp=I64, byte=DTS["int8"], ushort=DTS["uint16"])
_d.update(inf=_math.inf, Inf=_math.inf, nan=_math.nan, newaxis=None, ndarray=ndarray, linalg=_Linalg(), random=_Rnd(), iinfo=_IInfo, errstate=_Errstate,
  zeros=zeros, ones=ones, empty=empty, full=full, zeros_like=zeros_like, ones_like=ones_like, empty_like=empty_like, full_like=full_like,
  array=array, asarray=lambda x, dtype=None, **k: asarray(x, dtype), asanyarray=lambda x, dtype=None, **k: asarray(x, dtype), ascontiguousarray=lambda x, dtype=None, **k: asarray(x, dtype), asfarray=lambda x: asarray(x, F64),
  require=lambda x, dtype=None, requirements=None: asarray(x, dtype), arange=arange, linspace=linspace, sum=sum_, mean=mean, max=max_, min=min_, amax=max_, amin=min_, nanmax=max_,
  all=all_, any=any_, prod=prod_, cumsum=cumsum, argmax=argmax, argmin=argmin, argsort=argsort, sort=sort,
  cos=un(cos, F64), sin=un(sin, F64), tan=un(tan, F64), sqrt=un(core.sqrt, F64), abs=un(core.sabs), absolute=un(core.sabs), fabs=un(core.sabs), sign=un(sign),
  arccos=un(lambda x: core.E.arccos(core.fl(x)), F64), arctan=un(lambda x: core.E.arctan(core.fl(x)), F64), arctan2=bi(lambda y, x: core.E.arctan2(core.fl(y), core.fl(x)), F64),
  fmod=bi(lambda x, y: core.E.fmod(core.fl(x), core.fl(y))), mod=bi(core.mod), remainder=bi(core.mod),
  floor=un(lambda x: core.floor(x, False)), ceil=un(lambda x: core.ceil(x, False)), trunc=un(lambda x: cast(core.trunc(x), F64)), rint=un(core.rint), round=around, around=around,
  maximum=bi(core.smax), minimum=bi(core.smin), fmax=bi(core.smax), fmin=bi(core.smin), power=bi(core.power), exp=un(lambda x: core.E.exp(x), F64),
  add=bi(add), subtract=bi(sub), multiply=bi(mul), divide=bi(core.truediv), true_divide=bi(core.truediv), square=un(lambda x: mul(x, x)), negative=un(core.neg),
  deg2rad=un(lambda x: core.truediv(mul(x, core.E.PI), 180)), radians=un(lambda x: core.truediv(mul(x, core.E.PI), 180)), degrees=un(lambda x: core.truediv(mul(x, 180), core.E.PI)), rad2deg=un(lambda x: core.truediv(mul(x, 180), core.E.PI)),
  logical_and=bi(band, BOOL), logical_or=bi(bor, BOOL), logical_not=un(bnot, BOOL), isfinite=un(lambda x: not isinstance(x, float), BOOL), isnan=un(core.isnan, BOOL), isinf=un(core.isinf, BOOL),
  isclose=lambda a, b, **k: bi(_isclose, BOOL)(a, b), allclose=lambda a, b, **k: all_(bi(_isclose, BOOL)(a, b)),
  clip=clip, choose=choose, interp=interp, where=where, nonzero=nonzero, flatnonzero=lambda a: nonzero(asarray(a).reshape(-1))[0], dot=dot, matmul=dot, cross=cross, stack=stack, concatenate=concatenate,
  column_stack=lambda xs: concatenate([a.reshape((a.shape[0], 1)) if a.ndim == 1 else a for a in map(asarray, xs)], 1), vstack=lambda xs: concatenate([atleast_2d(x) for x in xs], 0), hstack=lambda xs: concatenate(xs, 0 if asarray(xs[0]).ndim == 1 else 1),
  atleast_1d=atleast_1d, atleast_2d=atleast_2d, expand_dims=expand_dims, squeeze=squeeze, broadcast_to=broadcast_to, tile=tile, identity=identity, eye=identity,
  flip=flip, fliplr=lambda a: flip(a, 1), flipud=lambda a: flip(a, 0), transpose=lambda a, axes=None: asarray(a).transpose(axes) if axes is not None else asarray(a).transpose(), swapaxes=lambda a, i, j: a.swapaxes(i, j), reshape=lambda a, sh, order="C", **k: asarray(a).reshape(sh, order=order), ravel=lambda a: asarray(a).ravel(),
  shape=lambda a: asarray(a).shape, size=lambda a: asarray(a).size, ndim=lambda a: asarray(a).ndim, copy=lambda a: asarray(a).copy(), unravel_index=unravel_index, unique=unique,
  fromfile=lambda f, dtype=None, count=-1, **k: f.vc_fromfile(as_dtype(dtype), count),
  issubdtype=issubdtype, floating=types.SimpleNamespace(name_="floating"), integer=types.SimpleNamespace(name_="integer"), number=types.SimpleNamespace(name_="number"), dtype=lambda d: as_dtype(d), real=lambda x: x, isscalar=lambda x: not isinstance(x, (ArrBase, list, tuple)), pad=pad,
  trace=lambda a: sum_(asarray([a[i, i] for i in range(a.shape[0])])), diag=_diag, bincount=bincount)

def pymin(f, *a, **k):
    if len(a) == 1:
        a = list(a[0])
    r = a[0]
    for x in a[1:]: r = f(r, x)
    return r

# ---- numba
class _NB(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if n in DTS: return DTS[n]
        def f(*a, **k): raise Unsupported("numba." + n)
        return f
numba = _NB("numba")
def _jit(*a, **k):
    if len(a) == 1 and callable(a[0]) and not k and isinstance(a[0], types.FunctionType): return a[0]
    return lambda f: f
from . import loops as _loops
numba.__dict__.update(jit=_jit, njit=_jit, prange=_loops.vrange, boolean=BOOL, set_num_threads=lambda n: None, get_num_threads=lambda: 1)

class _M(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"): raise AttributeError(n)
        if n == "pi": return core.E.PI
        def f(*a, **k): raise Unsupported("math." + n)
        return f
math = _M("math")
def _gcd(*a):
    if all(conc(x) for x in a): return _math.gcd(*a)
    E = core.E
    r = a[0]
    if len(a) == 1: return core.sabs(r)
    for b in a[1:]:
        if conc(r) and conc(b): r = _math.gcd(r, b); continue
        g = E.fresh("gcd", "i"); p, q = E.fresh("gcdq", "i"), E.fresh("gcdq", "i")
        E.assumptions.add("contract of math.gcd")
        E.fact(z3.And(g.t >= 0, lift(r) == g.t * p.t, lift(b) == g.t * q.t, (g.t == 0) == z3.And(lift(r) == 0, lift(b) == 0)))
        r = g
    return r
math.__dict__.update(sqrt=np.sqrt, cos=np.cos, sin=np.sin, floor=lambda x: core.floor(x), ceil=lambda x: core.ceil(x), atan2=np.arctan2, gcd=_gcd, factorial=lambda n: _math.factorial(n), fabs=np.abs, inf=_math.inf, isinf=core.isinf, isnan=core.isnan)
