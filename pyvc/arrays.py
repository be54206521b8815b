"""Symbolic arrays.  CArr: every dimension concrete (eager).  SArr: some dimension
symbolic (persistent content, views through an axis map, lazy element-wise results)."""
from fractions import Fraction
import itertools, math
import numpy as _np
import z3
from . import core
from .core import S, Unsupported, VcRaise, lift, wrap, conc, band, bor, bnot, ite, _cmp, add, sub, mul

# ---------------------------------------------------------------- dtypes
class DT:
    def __init__(self, name, kind, size):
        self.name, self.kind, self.itemsize = name, kind, size
        self.type = self
    def __repr__(self): return self.name
    def __str__(self): return self.name
    def __eq__(self, o):
        o = as_dtype(o, strict=False)
        return o is not None and o.name == self.name
    def __ne__(self, o): return not self == o
    def __hash__(self): return hash(self.name)
    def __call__(self, x=0, *a, **k):
        if isinstance(x, ARR): return x.astype(self)
        if isinstance(x, (list, tuple)): return asarray(x, self)
        return cast(x, self, explicit=True)
    @property
    def newbyteorder(self): raise Unsupported("byte order")
    @property
    def itemsize_(self): return self.itemsize
DTS = {}
for _n, _k, _s in [("float64", "f", 8), ("float32", "f", 4), ("float16", "f", 2), ("int64", "i", 8), ("int32", "i", 4), ("int16", "i", 2), ("int8", "i", 1),
                   ("uint64", "u", 8), ("uint32", "u", 4), ("uint16", "u", 2), ("uint8", "u", 1), ("bool", "b", 1), ("complex128", "c", 16), ("object", "O", 8)]:
    DTS[_n] = DT(_n, _k, _s)
F64, F32, I64, BOOL = DTS["float64"], DTS["float32"], DTS["int64"], DTS["bool"]
_CH = {"f4": "float32", "f8": "float64", "i4": "int32", "i8": "int64", "u1": "uint8", "u2": "uint16", "u4": "uint32", "i2": "int16", "i1": "int8", "u8": "uint64", "b1": "bool", "f": "float32", "d": "float64"}
def as_dtype(d, strict=True):
    if isinstance(d, DT): return d
    if d is None: return F64
    if isinstance(d, str):
        s = d.lstrip("<=|>")
        if s in DTS: return DTS[s]
        if s in _CH: return DTS[_CH[s]]
    if isinstance(d, StructDT): return d
    if d is float or getattr(d, "__vc_name__", "") == "float": return F64
    if d is int or getattr(d, "__vc_name__", "") == "int": return I64
    if d is bool or getattr(d, "__vc_name__", "") == "bool": return BOOL
    if d is object: return DTS["object"]
    if isinstance(d, list): return StructDT(d)
    if strict: raise Unsupported("dtype %r" % (d,))
    return None
class StructDT:
    kind = "V"; name = "void"
    def __init__(self, fields):
        self.fields = []
        for f in fields:
            self.fields.append((f[0], as_dtype(f[1]), tuple(f[2]) if len(f) > 2 and isinstance(f[2], (tuple, list)) else ((f[2],) if len(f) > 2 else ())))
        self.names = tuple(f[0] for f in self.fields)
    def field_bytes(self):
        """(name, dtype, sub-shape, byte offset) of the packed record, and its size"""
        o, out = 0, []
        for n, d, sub_ in self.fields:
            out.append((n, d, sub_, o))
            k = d.itemsize
            for x in sub_: k = core.mul(k, x)
            o = core.add(o, k)
        return out, o
    @property
    def itemsize(self): return self.field_bytes()[1]
def kind_of(x):
    if core.isboolv(x): return "b"
    if core.isreal(x): return "f"
    return "i"
def dt_of(x):
    return {"b": BOOL, "f": F64, "i": I64}[kind_of(x)]
_RANK = ["bool", "uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64", "float16", "float32", "float64", "complex128", "object"]
def promote(*ds):
    best = None
    for d in ds:
        if best is None or _RANK.index(d.name) > _RANK.index(best.name): best = d
    return best
def cast(v, dt, explicit=False):
    """value stored into an array / converted to a scalar type"""
    if dt.kind == "f":
        if isinstance(v, float): return v
        if isinstance(v, (bool, int)): return Fraction(int(v))
        if isinstance(v, Fraction): return v
        if isinstance(v, S): return wrap(core.toreal_t(v.t)) if not z3.is_real(v.t) else v
        if isinstance(v, _np.generic): return cast(v.item(), dt)
        if isinstance(v, str): return Fraction(v)
        raise Unsupported("store %r into float" % type(v))
    if dt.kind in "iu":
        if isinstance(v, float):
            if math.isnan(v) or math.isinf(v): raise Unsupported("inf/nan to int")
            return int(v)
        r = core.trunc(v) if core.isreal(v) else (int(v) if isinstance(v, bool) else wrap(core.toint_t(v.t)) if isinstance(v, S) else v)
        if dt.kind == "u" or dt.itemsize <= 2: r = _range_check(r, dt)
        return r
    if dt.kind == "b":
        return core.tobool(v)
    if dt.kind == "O": return v
    if dt.kind == "c": return cast(v, F64)
    raise Unsupported("cast to %s" % dt)
def _range_check(r, dt):
    lo, hi = (0, 2 ** (8 * dt.itemsize) - 1) if dt.kind == "u" else (-2 ** (8 * dt.itemsize - 1), 2 ** (8 * dt.itemsize - 1) - 1)
    if conc(r):
        if lo <= r <= hi: return r
        if core.E is not None and core.E.wrap_obligations:
            core.E.oblige("value fits %s (no wrap-around)" % dt.name, False)
        m = 2 ** (8 * dt.itemsize)
        r = r % m
        return r if r <= hi else r - m
    c = band(_cmp(">=", r, lo), _cmp("<=", r, hi))
    if c is True: return r
    if dt.itemsize >= 4 and not core.E.wrap_obligations:
        core.E.assumptions.add("integers of 32 bits or more are treated as unbounded")
        return r
    if not core.E.implied(c):
        core.E.oblige("value fits %s (no wrap-around)" % dt.name, c)
        core.E.assume(c)
    return r

# ---------------------------------------------------------------- index helpers
def eq_idx(i, j):
    if conc(i) and conc(j): return i == j
    c = _cmp("==", i, j)
    if isinstance(c, bool): return c
    s = z3.simplify(lift(sub(i, j)))
    if z3.is_int_value(s): return s.as_long() == 0
    r = core.E.lookup(c.t)
    if r is not None: return r
    if core.E.implied(c, light=True):
        core.E.known[c.t.get_id()] = True; core.E.keep(c.t); return True
    nc = bnot(c)
    if core.E.implied(nc, light=True): return False
    return c
def same_dim(a, b):
    if conc(a) and conc(b): return a == b
    r = eq_idx(a, b)
    return r is True
def prod(dims):
    r = 1
    for d in dims: r = core.E.prod_dim(r, d) if not (conc(r) and conc(d)) else r * d
    return r
def in_range(i, n):
    return band(_cmp(">=", i, 0), _cmp("<", i, n))
def check_index(i, n, what="index"):
    if conc(i) and conc(n):
        if i < -n or i >= n: raise VcRaise("IndexError", "index %s out of bounds for size %s" % (i, n))
        return i + n if i < 0 else i
    if conc(i) and i < 0:
        i = add(n, i)
    c = in_range(i, n)
    if c is not True and not core.E.implied(c):
        if core.E.implied(_cmp("<", i, 0)) if core.E.numba_index else core.E.decide(_cmp("<", i, 0)):
            i = add(i, n); c = in_range(i, n)
            if core.E.implied(c): return i
        core.E.oblige("array index within bounds", c)
        core.E.assume(c)
    return i

def norm_slice(sl, n):
    """-> (start, step, length)"""
    st = sl.step if sl.step is not None else 1
    if not isinstance(st, int): raise Unsupported("symbolic slice step")
    def fixed(x):
        if x is None or isinstance(x, int): return x
        if isinstance(x, Fraction) and x.denominator == 1: return int(x)
        return x
    a, b = fixed(sl.start), fixed(sl.stop)
    if all(x is None or isinstance(x, int) for x in (a, b)) and isinstance(n, int):
        r = range(*slice(a, b, st).indices(n))
        return r.start, st, len(r)
    if st == 1:
        def clip(x, dflt):
            if x is None: return dflt
            if conc(x) and x < 0: x = core.smax(add(n, x), 0); return x
            if not conc(x):
                if core.E.implied(_cmp("<", x, 0)): x = core.smax(add(n, x), 0)
                elif not core.E.implied(_cmp(">=", x, 0)):
                    x = ite(_cmp("<", x, 0), core.smax(add(n, x), 0), x)
            c = _cmp("<=", x, n)
            if c is True or core.E.implied(c): return x
            return core.smin(x, n)
        lo, hi = clip(a, 0), clip(b, n)
        if conc(lo) and lo == 0: ln = hi
        else:
            ln = sub(hi, lo)
            if not conc(ln):
                s = z3.simplify(ln.t)
                if z3.is_int_value(s): ln = s.as_long()
                else:
                    if not core.E.implied(_cmp(">=", ln, 0)): ln = core.smax(ln, 0)
        return lo, 1, ln
    if st == -1 and a is None and b is None:
        return sub(n, 1), -1, n
    raise Unsupported("slice with step")

# ---------------------------------------------------------------- arrays
class ArrBase:
    __array_priority__ = 2000
    __hash__ = None
    is_structured = False
    @property
    def ndim(self): return len(self.shape)
    @property
    def size(self): return prod(self.shape)
    @property
    def nbytes(self): return mul(self.size, self.dtype.itemsize)
    @property
    def itemsize(self): return self.dtype.itemsize
    @property
    def T(self): return self.transpose()
    def concrete(self): return all(isinstance(d, int) for d in self.shape)
    def __len__(self):
        if not isinstance(self.shape[0], int): raise Unsupported("len() of symbolic dimension through CPython")
        return self.shape[0]
    def vlen(self):
        if not self.shape: raise VcRaise("TypeError", "len() of unsized object")
        return self.shape[0]
    def __iter__(self):
        if not isinstance(self.shape[0], int): raise Unsupported("iteration over symbolic dimension")
        for i in range(self.shape[0]): yield self[i]
    def __bool__(self):
        if self.concrete() and all(d == 1 for d in self.shape):
            return bool(self.get((0,) * len(self.shape)))
        raise VcRaise("ValueError", "truth value of an array is ambiguous")
    def item(self, *a):
        if a:
            return self.get(tuple(a)) if len(a) == self.ndim else self.ravel().get(a)
        return self.get((0,) * self.ndim)
    def __float__(self): raise Unsupported("float(array)")
    def __contains__(self, x):
        from . import npshim
        return bool(npshim.any_(elementwise(lambda a, b: _cmp("==", a, b), self, x)))
    def tolist(self):
        if self.ndim == 0: return self.get(())
        return [x.tolist() if isinstance(x, ArrBase) else x for x in self]
    # operators
    def __add__(s, o): return elementwise(core.add, s, o)
    def __radd__(s, o): return elementwise(core.add, o, s)
    def __sub__(s, o): return elementwise(core.sub, s, o)
    def __rsub__(s, o): return elementwise(core.sub, o, s)
    def __mul__(s, o): return elementwise(core.mul, s, o)
    def __rmul__(s, o): return elementwise(core.mul, o, s)
    def __truediv__(s, o): return elementwise(core.truediv, s, o)
    def __rtruediv__(s, o): return elementwise(core.truediv, o, s)
    def __floordiv__(s, o): return elementwise(core.floordiv, s, o)
    def __rfloordiv__(s, o): return elementwise(core.floordiv, o, s)
    def __mod__(s, o): return elementwise(core.mod, s, o)
    def __rmod__(s, o): return elementwise(core.mod, o, s)
    def __pow__(s, o): return elementwise(core.power, s, o)
    def __rpow__(s, o): return elementwise(core.power, o, s)
    def __neg__(s): return elementwise(core.neg, s)
    def __pos__(s): return s
    def __abs__(s): return elementwise(core.sabs, s)
    def __lt__(s, o): return elementwise(lambda a, b: _cmp("<", a, b), s, o, dtype=BOOL)
    def __le__(s, o): return elementwise(lambda a, b: _cmp("<=", a, b), s, o, dtype=BOOL)
    def __gt__(s, o): return elementwise(lambda a, b: _cmp(">", a, b), s, o, dtype=BOOL)
    def __ge__(s, o): return elementwise(lambda a, b: _cmp(">=", a, b), s, o, dtype=BOOL)
    def __eq__(s, o):
        if o is None or isinstance(o, str): return False
        return elementwise(lambda a, b: _cmp("==", a, b), s, o, dtype=BOOL)
    def __ne__(s, o):
        if o is None or isinstance(o, str): return True
        return elementwise(lambda a, b: _cmp("!=", a, b), s, o, dtype=BOOL)
    def __and__(s, o): return elementwise(core._and, s, o)
    def __rand__(s, o): return elementwise(core._and, o, s)
    def __or__(s, o): return elementwise(core._or, s, o)
    def __ror__(s, o): return elementwise(core._or, o, s)
    def __invert__(s): return elementwise(lambda a: core.bnot(a), s)
    def __matmul__(s, o):
        from . import npshim
        return npshim.dot(s, o)
    def _inplace(s, f, o):
        r = elementwise(f, s, o)
        s.assign(r)
        return s
    def __iadd__(s, o): return s._inplace(core.add, o)
    def __isub__(s, o): return s._inplace(core.sub, o)
    def __imul__(s, o): return s._inplace(core.mul, o)
    def __itruediv__(s, o): return s._inplace(core.truediv, o)
    def __ifloordiv__(s, o): return s._inplace(core.floordiv, o)
    def __ipow__(s, o): return s._inplace(core.power, o)
    def __imod__(s, o): return s._inplace(core.mod, o)
    # numpy methods
    def astype(self, dtype, copy=True, **k):
        dt = dtype
        dt = as_dtype(dt)
        if dt.kind == "i" and dt.itemsize >= 4 and self.dtype.kind in "iu": 
            return elementwise(lambda a: a, self, dtype=dt)
        return elementwise(lambda a: cast(a, dt), self, dtype=dt)
    def copy(self, order=None): return elementwise(lambda a: a, self, dtype=self.dtype)
    def fill(self, v): self.assign(v)
    def view(self, *a):
        if not a: return self
        raise Unsupported("view")
    def squeeze(self, axis=None):
        ax = [i for i, d in enumerate(self.shape) if isinstance(d, int) and d == 1] if axis is None else [axis % self.ndim] if isinstance(axis, int) else [a % self.ndim for a in axis]
        if axis is None:
            for d in self.shape:
                if not isinstance(d, int) and not core.E.implied(_cmp("!=", d, 1)):
                    if not core.E.squeeze_generic: 
                        if core.E.decide(_cmp("==", d, 1)): raise Unsupported("squeeze of symbolic dimension equal to 1")
        key = tuple(0 if i in ax else slice(None) for i in range(self.ndim))
        return self[key] if key else self
    def ravel(self, order="C"): return self.reshape(-1, order=order)
    def nonzero(self):
        from . import npshim
        return npshim.nonzero(self)
    def flatten(self, order="C"): return self.reshape(-1, order=order).copy()
    @property
    def flat(self): return self.reshape(-1)
    def choose(self, choices, *more, **k):
        from . import npshim
        return npshim.choose(self, [choices] + list(more) if more else choices, **k)
    def sum(self, axis=None, dtype=None, keepdims=False, **k):
        from . import npshim
        return npshim.sum_(self, axis=axis, keepdims=keepdims)
    def mean(self, axis=None, keepdims=False, **k):
        from . import npshim
        return npshim.mean(self, axis=axis, keepdims=keepdims)
    def max(self, axis=None, keepdims=False, **k):
        from . import npshim
        return npshim.max_(self, axis=axis, keepdims=keepdims)
    def min(self, axis=None, keepdims=False, **k):
        from . import npshim
        return npshim.min_(self, axis=axis, keepdims=keepdims)
    def all(self, axis=None, **k):
        from . import npshim
        return npshim.all_(self, axis=axis)
    def any(self, axis=None, **k):
        from . import npshim
        return npshim.any_(self, axis=axis)
    def argmax(self, axis=None, **k):
        from . import npshim
        return npshim.argmax(self, axis=axis)
    def argmin(self, axis=None, **k):
        from . import npshim
        return npshim.argmin(self, axis=axis)
    def clip(self, a=None, b=None, out=None, min=None, max=None):
        from . import npshim
        return npshim.clip(self, a if min is None else min, b if max is None else max, out=out)
    def dot(self, o):
        from . import npshim
        return npshim.dot(self, o)
    def round(self, d=0):
        from . import npshim
        return npshim.around(self, d)
    def tobytes(self): raise Unsupported("tobytes")
    def byteswap(self, *a): raise Unsupported("byteswap")
    def tofile(self, f, *a):
        return f.vc_tofile(self)

class Root:
    __slots__ = ("stamp",)
    def __init__(self): self.stamp = core.E.cstamp if core.E is not None else -1
class CArr(ArrBase):
    def __init__(self, a, dtype, root=None):
        self.a, self.dtype = a, dtype
        self.root = root or Root()
    def _touch(self):
        if core.E is not None:
            for L in core.E.loops: L.on_cwrite(self.root)
    @property
    def shape(self): return self.a.shape
    @shape.setter
    def shape(self, sh): self.a = self.a.reshape(sh)
    @property
    def strides(self): raise Unsupported("strides")
    def get(self, idx):
        idx = tuple(idx)
        if all(isinstance(i, int) for i in idx): return self.a[idx]
        # symbolic index: selection chain
        for ax, i in enumerate(idx):
            if not isinstance(i, int):
                n = self.a.shape[ax]
                core.E.decide_bounds(i, n)
                r = None
                for v in range(n - 1, -1, -1):
                    x = self.get(idx[:ax] + (v,) + idx[ax + 1:])
                    r = x if r is None else ite(_cmp("==", i, v), x, r)
                return r
    def set(self, idx, v):
        v = cast(v, self.dtype)
        self._touch()
        if all(isinstance(i, int) for i in idx):
            self.a[idx] = v; return
        for ax, i in enumerate(idx):
            if not isinstance(i, int):
                for w in range(self.a.shape[ax]):
                    c = eq_idx(i, w)
                    if c is False: continue
                    j = idx[:ax] + (w,) + idx[ax + 1:]
                    if c is True: self.set(j, v)
                    else: self.set(j, ite(c, v, self.get(j)))
                return
    def _key(self, key):
        if not isinstance(key, tuple): key = (key,)
        out, sym = [], False
        ax = 0
        n_idx = sum(1 for k in key if k is not None and k is not Ellipsis and not (isinstance(k, ArrBase) and k.dtype.kind == "b"))
        n_idx += sum(k.ndim for k in key if isinstance(k, ArrBase) and k.dtype.kind == "b")
        for k in key:
            if k is None: out.append(None); continue
            if k is Ellipsis:
                out.append(k); ax += self.ndim - n_idx; continue
            if isinstance(k, slice):
                def f(x):
                    if isinstance(x, Fraction) and x.denominator == 1: return int(x)
                    return x
                a, b, c = f(k.start), f(k.stop), f(k.step)
                if any(isinstance(x, S) for x in (a, b, c)):
                    lo, st, ln = norm_slice(slice(a, b, c), self.a.shape[ax])
                    if isinstance(lo, int) and isinstance(ln, int): out.append(slice(lo, lo + ln, 1)); 
                    else: raise Unsupported("symbolic slice of a concrete array")
                else: out.append(slice(a, b, c))
                ax += 1; continue
            if isinstance(k, S):
                if z3.is_bool(k.t): raise Unsupported("boolean scalar index")
                sym = True; out.append(k); ax += 1; continue
            if isinstance(k, Fraction):
                if k.denominator != 1: raise VcRaise("IndexError", "non-integer index")
                k = int(k)
            if isinstance(k, bool): raise Unsupported("bool index")
            if isinstance(k, int):
                if core.E is not None and core.E.numba_index and k < 0 and False: pass
                n = self.a.shape[ax]
                if k < -n or k >= n:
                    if core.E is not None: core.E.oob("index %d out of bounds for size %d" % (k, n))
                    raise VcRaise("IndexError", "index %d out of bounds for size %d" % (k, n))
                out.append(k); ax += 1; continue
            if isinstance(k, list): k = asarray(k)
            if isinstance(k, ArrBase):
                if k.dtype.kind == "b":
                    m = asarray(k)
                    vals = [m.get(i) for i in _np.ndindex(*m.shape)]
                    if any(not isinstance(v, bool) for v in vals):
                        # decide each
                        vals = [bool(v) for v in vals]
                    out.append(_np.array(vals, dtype=bool).reshape(m.shape)); ax += m.ndim
                else:
                    if not isinstance(k, CArr) and not k.concrete(): raise Unsupported("symbolic index array")
                    vals = [k.get(i) for i in _np.ndindex(*k.shape)]
                    if any(isinstance(v, S) for v in vals):
                        vals = [core.E.concretize(v, self.a.shape[ax]) for v in vals]
                    out.append(_np.array([int(v) for v in vals], dtype=int).reshape(k.shape)); ax += 1
                continue
            if isinstance(k, _np.ndarray): out.append(k); ax += 1; continue
            raise Unsupported("index %r" % type(k))
        return tuple(out), sym
    def __getitem__(self, key):
        if isinstance(key, (list, tuple)) and key and isinstance(key, tuple) and all(isinstance(k, ArrBase) for k in key) and False: pass
        k, sym = self._key(key)
        if sym:
            return self._symget(k)
        r = self.a[k]
        if isinstance(r, _np.ndarray): return CArr(r, self.dtype, self.root if r.base is not None else None)
        return r
    def _expand(self, k):
        # full-length key
        if Ellipsis in [x for x in k if not isinstance(x, (_np.ndarray, S))]:
            i = [j for j, x in enumerate(k) if x is Ellipsis][0]
            k = k[:i] + (slice(None),) * (self.ndim - len(k) + 1) + k[i + 1:]
        return k + (slice(None),) * (self.ndim - len(k))
    def _symget(self, k):
        k = self._expand(k)
        for ax, i in enumerate(k):
            if isinstance(i, S):
                n = self.a.shape[ax]
                i = check_index(i, n)
                r = None
                for v in range(n):
                    sub_ = self[k[:ax] + (v,) + k[ax + 1:]]
                    if r is None: r = sub_.copy() if isinstance(sub_, ArrBase) else sub_
                    else: r = elementwise(lambda x, y: ite(_cmp("==", i, v), y, x), r, sub_) if isinstance(sub_, ArrBase) else ite(_cmp("==", i, v), sub_, r)
                return r
    def __setitem__(self, key, v):
        self._touch()
        if isinstance(key, ArrBase) and key.dtype.kind == "b" and key.shape == self.shape and conc_or_scalar(v):
            if core.E.noise_mask and conc(v) and v == 0:
                core.E.assumptions.add("zeroing entries below the rounding threshold is treated as leaving them unchanged")
                return
            for i in _np.ndindex(*self.shape):
                self.a[i] = ite(key.get(i), cast(v, self.dtype), self.a[i])
            return
        k, sym = self._key(key)
        if sym:
            k = self._expand(k)
            for ax, i in enumerate(k):
                if isinstance(i, S):
                    i = check_index(i, self.a.shape[ax])
                    for w in range(self.a.shape[ax]):
                        c = eq_idx(i, w)
                        if c is False: continue
                        kk = k[:ax] + (w,) + k[ax + 1:]
                        if c is True: self[kk] = v
                        else:
                            old = self[kk]
                            self[kk] = elementwise(lambda x, y: ite(c, x, y), v, old) if isinstance(old, ArrBase) or isinstance(v, ArrBase) else ite(c, v, old)
                    return
        tgt = self.a[k]
        if isinstance(tgt, _np.ndarray):
            basic = not any(isinstance(x, _np.ndarray) for x in k)
            src = asarray(v) if not isinstance(v, ArrBase) else v
            if not src.concrete(): raise Unsupported("assign symbolic-shape array into concrete array")
            sa = _np.empty(src.shape, dtype=object)
            for i in _np.ndindex(*src.shape): sa[i] = cast(src.get(i), self.dtype)
            try:
                self.a[k] = sa if sa.shape != () else sa.item()
            except ValueError as e:
                raise VcRaise("ValueError", str(e))
        else:
            if isinstance(v, ArrBase): v = v.item()
            self.a[k] = cast(v, self.dtype)
    def assign(self, v): self[...] = v
    def reshape(self, *sh, order="C"):
        if order != "C": raise Unsupported("memory order %r" % (order,))
        if len(sh) == 1 and isinstance(sh[0], (tuple, list, ArrBase)): sh = tuple(sh[0])
        sh = tuple(int(s) if conc(s) else s for s in sh)
        if any(isinstance(s, S) for s in sh):
            return to_sarr(self).reshape(*sh)
        try: return CArr(self.a.reshape(sh), self.dtype, self.root)
        except ValueError as e: raise VcRaise("ValueError", str(e))
    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)): ax = tuple(ax[0])
        return CArr(self.a.transpose(*ax), self.dtype, self.root)
    def swapaxes(self, i, j): return CArr(self.a.swapaxes(i, j), self.dtype, self.root)
    def __repr__(self): return "CArr%s%s" % (self.dtype, self.a.tolist())

def conc_or_scalar(v): return not isinstance(v, (ArrBase, list, tuple))

# ---------------------------------------------------------------- symbolic-shape arrays
class Fn:
    __slots__ = ("fn",)
    def __init__(self, fn): self.fn = fn
class Cell:
    __slots__ = ("prev", "idx", "val")
    def __init__(self, prev, idx, val): self.prev, self.idx, self.val = prev, idx, val
class Region:
    __slots__ = ("prev", "cond", "fn")
    def __init__(self, prev, cond, fn): self.prev, self.cond, self.fn = prev, cond, fn

def resolve(node, idx):
    conds = []
    while True:
        if isinstance(node, Fn):
            r = node.fn(idx); break
        if isinstance(node, Cell):
            c = True
            for i, j in zip(node.idx, idx):
                c = band(c, eq_idx(i, j))
                if c is False: break
            if c is True: r = node.val; break
            if c is not False: conds.append((c, node.val))
            node = node.prev; continue
        c = node.cond(idx)
        if isinstance(c, S):
            q = core.E.lookup(c.t)
            if q is None:
                if core.E.implied(c): q = True
                elif core.E.implied(bnot(c)): q = False
            if q is not None: c = q
        if c is True: r = node.fn(idx); break
        if c is not False: conds.append((c, node.fn(idx)))
        node = node.prev
    for c, v in reversed(conds): r = ite(c, v, r)
    return r

class Blk:
    """a slice [start, start+ln) of one axis"""
    __slots__ = ("start", "ln")
    def __init__(self, start, ln): self.start, self.ln = start, ln
class Store:
    _n = 0
    def __init__(self, dims, dtype, fn, name=""):
        Store._n += 1
        self.dims, self.dtype, self.head, self.name = tuple(dims), dtype, Fn(fn), name or "arr%d" % Store._n
        self.ro = False
        self.stale = False; self.kids = []; self.base = None      # re-shaped copies standing for views
        if core.E is not None:
            core.E.stores.append(self)
    def _alias(self):
        """a write through one of several names for the same memory makes the others unusable (sound: reads of them are refused)"""
        if self.ro: raise Unsupported("write to read-only symbolic array")
        if self.stale: raise Unsupported("use of an array after a write through its reshaped view")
        for kid in self.kids:
            kid.stale = True
        b = self.base
        while b is not None:
            b.stale = True
            for kid in b.kids:
                if kid is not self: kid.stale = True
            b = b.base
    def read(self, idx):
        if self.stale: raise Unsupported("use of an array after a write through its reshaped view")
        for L in core.E.loops: L.on_read(self, idx)
        return resolve(self.head, idx)
    def write(self, idx, v):
        if self.ro or self.kids or self.base is not None or self.stale: self._alias()
        for L in core.E.loops: L.on_write(self, idx)
        self.head = Cell(self.head, idx, v)
    def write_region(self, cond, fn, lead):
        if self.ro or self.kids or self.base is not None or self.stale: self._alias()
        for L in core.E.loops: L.on_region(self, lead)
        self.head = Region(self.head, memo(cond, True), memo(fn, True))

class SArr(ArrBase):
    """view on a store; axes[b] for each base dim b: ('f', e) or ('v', view axis, start, step)"""
    def __init__(self, store, axes, shape, dtype):
        self.store, self.axes, self._shape, self.dtype = store, axes, tuple(shape), dtype
    @staticmethod
    def new(dims, dtype, fn, name=""):
        st = Store(dims, dtype, fn, name)
        return SArr(st, [("v", i, 0, 1) for i in range(len(dims))], dims, dtype)
    @property
    def shape(self): return self._shape
    def base_idx(self, idx):
        out = []
        for a in self.axes:
            if a[0] == "f": out.append(a[1])
            else:
                i = idx[a[1]]
                if a[3] != 1: i = mul(i, a[3])
                out.append(add(a[2], i) if not (conc(a[2]) and a[2] == 0) else i)
        return tuple(out)
    def get(self, idx):
        return self.store.read(self.base_idx(idx))
    def set(self, idx, v):
        self.store.write(self.base_idx(idx), cast(v, self.dtype))
    def _norm(self, key):
        if not isinstance(key, tuple): key = (key,)
        if any(k is Ellipsis for k in key):
            i = [j for j, k in enumerate(key) if k is Ellipsis][0]
            n = sum(1 for k in key if k is not None and k is not Ellipsis)
            key = key[:i] + (slice(None),) * (self.ndim - n) + key[i + 1:]
        n = sum((k.ndim if isinstance(k, ArrBase) and k.dtype.kind == "b" else 1) for k in key if k is not None)
        if n > self.ndim: raise VcRaise("IndexError", "too many indices")
        return key + (slice(None),) * (self.ndim - n)
    def _view(self, key):
        newshape, vmap, va = [], {}, 0
        for k in key:
            if k is None:
                newshape.append(1); continue
            n = self._shape[va]
            if isinstance(k, slice):
                lo, st, ln = norm_slice(k, n)
                vmap[va] = ("v", len(newshape), lo, st); newshape.append(ln)
            else:
                if isinstance(k, Fraction) and k.denominator == 1: k = int(k)
                if isinstance(k, ArrBase) and k.ndim == 0: k = k.item()
                if not (isinstance(k, int) or (isinstance(k, S) and z3.is_int(k.t))):
                    if type(k).__name__ == "Poison": k._bad()
                    raise Unsupported("index of kind %s" % type(k))
                vmap[va] = ("f", check_index(k, n))
            va += 1
        axes = []
        for a in self.axes:
            if a[0] == "f": axes.append(a); continue
            m = vmap[a[1]]
            if m[0] == "f":
                i = mul(m[1], a[3]) if a[3] != 1 else m[1]
                axes.append(("f", add(a[2], i)))
            else:
                lo = mul(m[2], a[3]) if a[3] != 1 else m[2]
                axes.append(("v", m[1], add(a[2], lo), a[3] * m[3]))
        return SArr(self.store, axes, newshape, self.dtype)
    def __getitem__(self, key):
        if isinstance(key, str):
            raise Unsupported("field access")
        key = self._norm(key)
        adv = [(i, k) for i, k in enumerate(key) if isinstance(k, (ArrBase, list, tuple)) and not (isinstance(k, ArrBase) and k.ndim == 0)]
        if adv:
            return self._adv(key)
        v = self._view(key)
        if v.ndim == 0:
            return v.get(())
        return v
    def _adv(self, key):
        """integer-array indexing (values captured)"""
        key, lead1 = self._idxarrays(key)
        arrs = [(i, asarray(k)) for i, k in enumerate(key) if isinstance(k, (ArrBase, list))]
        if any(k is None for k in key): raise Unsupported("newaxis with index array")
        bsh = broadcast_shapes(*[a.shape for _, a in arrs])
        pos = [i for i, _ in arrs]
        contiguous = pos == list(range(pos[0], pos[0] + len(pos)))
        rest = self._view(tuple(slice(None) if i in pos else k for i, k in enumerate(key)))
        snap = rest.snapshot()
        # rest keeps the slice axes and the advanced axes
        kept = [i for i, k in enumerate(key) if isinstance(k, slice) or i in pos]
        slc = [i for i in kept if i not in pos]
        ints = [i for i, k in enumerate(key) if not isinstance(k, slice)]
        contiguous = ints == list(range(ints[0], ints[0] + len(ints)))
        before = [i for i in slc if i < ints[0]] if contiguous else []
        after = [i for i in slc if i not in before]
        shape = tuple(rest.shape[kept.index(i)] for i in before) + tuple(bsh) + tuple(rest.shape[kept.index(i)] for i in after)
        snaps = [(i, a.snapshot() if isinstance(a, SArr) else a.copy(), a) for i, a in arrs]
        for i, a in arrs:
            n = rest.shape[kept.index(i)]
            if a.concrete():
                for j in _np.ndindex(*a.shape): check_index(a.get(j), n)
            else:
                nz = nz_of(a)
                if nz is not None:
                    if not same_dim(nz.N, n): core.E.oblige("index array stays inside the axis", _cmp("<=", nz.N, n))
                else:
                    q = [core.E.fresh("q", "i") for _ in a.shape]
                    core.E.scope_push()
                    for x, dim in zip(q, a.shape): core.E.fact(lift(in_range(x, dim)))
                    try: ok = core.E.implied(in_range(a.get(tuple(q)), n))
                    except core.PathEnd: ok = False
                    finally: core.E.scope_pop()
                    if not ok: raise Unsupported("index array not shown to stay inside the axis")
        nb, nd = len(before), len(bsh)
        def fn(idx):
            full = [None] * len(kept)
            for q, i in enumerate(before): full[kept.index(i)] = idx[q]
            for q, i in enumerate(after): full[kept.index(i)] = idx[nb + nd + q]
            for (i, s, a) in snaps:
                v = s.get(bidx(a.shape, idx[nb:nb + nd]))
                if conc(v) and v < 0: v = add(rest.shape[kept.index(i)], v)
                full[kept.index(i)] = v
            return snap.get(tuple(full))
        r = mk(shape, self.dtype, memo(fn))
        if len(arrs) == 1 and self.ndim == 1 and isinstance(r, SArr):
            mine, nz = nz_of(self), nz_of(arrs[0][1])
            if mine is not None and nz is not None: r.store.nz = (mine.of(nz), r.store.head)
        if lead1:
            if not (contiguous and not before): raise Unsupported("nested index array")
            r = r[(None,)]
        return r
    def _idxarrays(self, key):
        """boolean masks become enumerations of their true positions; a one-element tuple of an index array is that array with a unit axis in front"""
        out, lead1 = [], False
        for q, k in enumerate(key):
            if isinstance(k, (tuple, list)) and len(k) == 1 and isinstance(k[0], SArr): k = k[0]; lead1 = True
            if isinstance(k, list): k = asarray(k)
            if isinstance(k, ArrBase) and k.dtype.kind == "b":
                if k.ndim != 1: raise Unsupported("boolean mask of several dimensions with other indices")
                n = self.shape[len(out)]
                if not same_dim(k.shape[0], n): core.E.oblige("mask as long as the axis", _cmp("==", k.shape[0], n))
                from . import npshim
                k = npshim.nonzero(k)[0]
            out.append(k)
        return tuple(out), lead1
    def _write_adv(self, key, v):
        key, lead1 = self._idxarrays(key)
        if any(k is None for k in key): raise Unsupported("newaxis with index array")
        pos = [i for i, k in enumerate(key) if isinstance(k, ArrBase) and k.ndim]
        if len(pos) != 1: raise Unsupported("write through several index arrays")
        p = pos[0]; ia = key[p]
        ints = [i for i, k in enumerate(key) if not isinstance(k, slice)]
        front = ints != list(range(ints[0], ints[0] + len(ints)))
        slc = [i for i, k in enumerate(key) if isinstance(k, slice)]
        t = self._view(tuple(slice(None) if i == p else k for i, k in enumerate(key)))
        kept = [i for i, k in enumerate(key) if isinstance(k, slice) or i == p]
        ax = kept.index(p)
        if front and any(i < p for i in slc): raise Unsupported("index array and integer separated by a slice")
        if isinstance(v, (list, tuple)): v = asarray(v)
        if isinstance(v, ArrBase):
            while v.ndim > t.ndim and (lead1 or True) and conc(v.shape[0]) and v.shape[0] == 1: v = v[0]
        if ia.concrete():
            if ia.ndim != 1: raise Unsupported("index array of several dimensions")
            for j in range(ia.shape[0]):
                tv = v
                if isinstance(v, ArrBase) and v.ndim == t.ndim: tv = v[(slice(None),) * ax + (j if not (conc(v.shape[ax]) and v.shape[ax] == 1) else 0,)]
                elif isinstance(v, ArrBase) and v.ndim == t.ndim - ax and v.ndim: tv = v[j]
                t[(slice(None),) * ax + (ia.get((j,)),)] = tv
            return
        nz = nz_of(ia)
        if nz is None: raise Unsupported("write through a symbolic index array")
        if not same_dim(nz.N, t.shape[ax]): raise Unsupported("index array of another axis")
        if isinstance(v, ArrBase):
            want = tuple(nz.n if q == ax else d for q, d in enumerate(t.shape))
            bs = broadcast_shapes(want, v.shape)
            if len(bs) != len(want): raise Unsupported("broadcast assignment")
            s = snap(v); sh = v.shape
            def fn(idx):
                j = tuple(nz.rank(idx[q]) if q == ax else idx[q] for q in range(len(want)))
                return core.E.guarded(nz.member(idx[ax]), lambda: cast(s.get(bidx(sh, j)), self.dtype))
        else:
            c = cast(v, self.dtype)
            fn = lambda idx: c
        def member(idx):
            nz.rank(idx[ax])
            return nz.member(idx[ax])
        t._wregion(t, member, fn)
    def snapshot(self):
        """immutable copy of the current content (same axes)"""
        head = self.store.head
        st = self.store
        if st.stale: raise Unsupported("use of an array after a write through its reshaped view")
        class R: pass
        r = R()
        def get(idx):
            b = self.base_idx(idx)
            for L in core.E.loops: L.on_read(st, b)
            return resolve(head, b)
        r.get = get; r.shape = self.shape
        return r
    def __setitem__(self, key, v):
        if isinstance(key, ArrBase) and key.dtype.kind == "b":
            if conc_or_scalar(v) and len(key.shape) == self.ndim:
                ks = snap(key)
                vv = cast(v, self.dtype)
                self._wregion(self, lambda i: ks.get(i), lambda i: vv); return
        key = self._norm(key)
        if any(isinstance(k, (ArrBase, list, tuple)) and not (isinstance(k, ArrBase) and k.ndim == 0) for k in key):
            self._write_adv(key, v); return
        t = self._view(key)
        t.assign(v)
    def assign(self, v):
        if self.ndim == 0 or self.concrete() and _np.prod(self.shape) <= 64:
            if isinstance(v, (list, tuple)): v = asarray(v)
            if isinstance(v, ArrBase):
                vals = {}
                if v.ndim > self.ndim:
                    v = v.squeeze()
                broadcast_shapes(self.shape, v.shape)
                for i in _np.ndindex(*self.shape): vals[i] = v.get(bidx(v.shape, i))
                for i, x in vals.items(): self.set(i, x)
            else:
                for i in _np.ndindex(*self.shape): self.set(i, v)
            return
        if isinstance(v, (list, tuple)): v = asarray(v)
        if isinstance(v, ArrBase):
            for k in range(1, v.ndim + 1):
                d1 = v.shape[-k]
                if k > self.ndim:
                    if conc(d1) and d1 == 1: continue
                    raise Unsupported("broadcast assignment")
                d0 = self.shape[-k]
                if conc(d1) and d1 == 1: continue
                if not same_dim(d0, d1):
                    core.E.oblige("shapes agree in assignment", _cmp("==", d0, d1))
            s = snap(v); sh = v.shape
            if v.ndim > self.ndim:
                extra = v.ndim - self.ndim
                self._wregion(self, None, lambda i: cast(s.get((0,) * extra + bidx(sh[extra:], i)), self.dtype))
            else:
                self._wregion(self, None, lambda i: cast(s.get(bidx(sh, i)), self.dtype))
        else:
            c = cast(v, self.dtype)
            self._wregion(self, None, lambda i: c)
    def _wregion(self, view, cond, fn):
        axes, shape = self.axes, self._shape
        def inv(bidx_):
            c, v = True, [0] * len(shape)
            for a, b in zip(axes, bidx_):
                if a[0] == "f": c = band(c, eq_idx(a[1], b))
                else:
                    i = sub(b, a[2])
                    if a[3] == -1: i = core.neg(i)
                    elif a[3] != 1: raise Unsupported("strided region write")
                    v[a[1]] = i
                    if not (conc(a[2]) and a[2] == 0 and same_dim(shape[a[1]], self.store.dims[axes.index(a)])):
                        c = band(c, in_range(i, shape[a[1]]))
                if c is False: break
            return c, tuple(v)
        def cnd(b):
            c, v = inv(b)
            if c is False or cond is None: return c
            return band(c, cond(v))
        def lead(q, a):
            if a[0] == "f": return a[1]
            n = shape[a[1]]
            if a[3] != 1 or conc(a[2]) and a[2] == 0 and same_dim(n, self.store.dims[q]): return None
            return Blk(a[2], n)
        self.store.write_region(cnd, lambda b: fn(inv(b)[1]), [lead(q, a) for q, a in enumerate(axes)])
    def transpose(self, *ax):
        if len(ax) == 1 and isinstance(ax[0], (tuple, list)): ax = tuple(ax[0])
        if not ax: ax = tuple(range(self.ndim))[::-1]
        inv = {a % self.ndim: i for i, a in enumerate(ax)}
        axes = [a if a[0] == "f" else ("v", inv[a[1]], a[2], a[3]) for a in self.axes]
        return SArr(self.store, axes, [self._shape[a] for a in ax], self.dtype)
    def swapaxes(self, i, j):
        p = list(range(self.ndim)); p[i], p[j] = p[j], p[i]
        return self.transpose(p)
    def reshape(self, *sh, order="C"):
        if order != "C": raise Unsupported("memory order %r" % (order,))
        if len(sh) == 1 and isinstance(sh[0], (tuple, list)): sh = tuple(sh[0])
        elif len(sh) == 1 and isinstance(sh[0], ArrBase): sh = tuple(sh[0].tolist())
        sh = tuple(int(s) if isinstance(s, Fraction) else s for s in sh)
        return reshape(self, sh)
    def __repr__(self): return "SArr%s%s" % (self.dtype, self.shape)

class NZ:
    """increasing enumeration of the positions of an axis of length N that satisfy a condition: count n, at(k) the k-th position, rank its inverse.
    at(rank(i)) = i for every i (positions outside the set are given ranks outside [0, n)), rank(at(k)) = k, rank(i) in [0, n) iff member(i)"""
    def __init__(self, N, member, n=None, at=None, rank=None):
        E = core.E
        self.N, self.member = N, member
        if n is not None: self.n, self.at, self.rank = n, at, rank; return
        E.n += 1
        self.f = z3.Function("pos!%d" % E.n, z3.IntSort(), z3.IntSort()); self.r = z3.Function("rank!%d" % E.n, z3.IntSort(), z3.IntSort())
        self.n = E.fresh("count", "i")
        E.fact(self.n.t >= 0); E.fact(lift(_cmp("<=", self.n, N)))
        self.seen = {}
        self.at, self.rank = self._at, self._rank
        E.nzs.append(self)
    def _at(self, k):
        E = core.E; t = lift(k)
        if z3.is_app(t) and t.decl().eq(self.r): return wrap(t.arg(0))
        v = S(self.f(t))
        key = ("a", t.get_id())
        if self.seen.get(key) not in E.active:
            self.seen[key] = E.active[-1]; E.keep(t)
            E.fact(z3.Implies(lift(in_range(k, self.n)), z3.And(lift(in_range(v, self.N)), self.r(v.t) == t)))
            m = E.guarded(in_range(k, self.n), lambda: self.member(v))
            E.fact(z3.Implies(lift(in_range(k, self.n)), lift(core.tobool(m))))
        return v
    def _rank(self, i):
        E = core.E; t = lift(i)
        if z3.is_app(t) and t.decl().eq(self.f):
            self._at(wrap(t.arg(0)))
        v = S(self.r(t))
        key = ("r", t.get_id())
        if self.seen.get(key) not in E.active:
            self.seen[key] = E.active[-1]; E.keep(t)
            m = E.guarded(in_range(i, self.N), lambda: self.member(i))
            E.fact(self.f(v.t) == t)
            E.fact(z3.Implies(lift(in_range(i, self.N)), lift(in_range(v, self.n)) == lift(core.tobool(m))))
        return v
    def of(self, other):
        """self restricted to the positions other enumerates (indices into self)"""
        def member(i):
            m = core.tobool(self.member(i))
            return band(m, core.E.guarded(m, lambda: other.member(self.rank(i))))
        r = NZ(self.N, member, other.n, lambda k: self.at(other.at(k)), lambda i: other.rank(self.rank(i)))
        return r
class NZ2:
    """enumeration (in row-major order, not used) of the positions of a 2-D array that satisfy a condition: count n, (r(k), c(k)) the k-th position, rank its inverse"""
    def __init__(self, H, W, member):
        E = core.E; self.H, self.W, self.member = H, W, member; E.n += 1
        Z = z3.IntSort()
        self.fr, self.fc, self.fk = z3.Function("posr!%d" % E.n, Z, Z), z3.Function("posc!%d" % E.n, Z, Z), z3.Function("rank!%d" % E.n, Z, Z, Z)
        self.n = E.fresh("count", "i"); E.fact(self.n.t >= 0); self.seen = {}
        E.nz2s.append(self)
    def _once(self, *k):
        E = core.E
        if self.seen.get(k) in E.active: return False
        self.seen[k] = E.active[-1]; return True
    def at(self, k):
        E = core.E; t = lift(k); r, c = S(self.fr(t)), S(self.fc(t))
        if self._once("a", t.get_id()):
            E.keep(t); ok = in_range(k, self.n)
            rr = band(in_range(r, self.H), in_range(c, self.W))
            E.fact(z3.Implies(lift(ok), z3.And(lift(rr), self.fk(r.t, c.t) == t)))
            # r < H and c < W, so r*W + c < H*W
            E.fact(z3.Implies(lift(ok), z3.And(r.t * lift(self.W) + c.t >= 0, r.t * lift(self.W) + c.t < lift(E.prod_dim(self.H, self.W)))))
            m = E.guarded(ok, lambda: E.guarded(rr, lambda: self.member((r, c))))
            E.fact(z3.Implies(lift(ok), lift(core.tobool(m))))
        return r, c
    def rank(self, r, c):
        E = core.E; v = S(self.fk(lift(r), lift(c)))
        if self._once("r", lift(r).get_id(), lift(c).get_id()):
            E.keep(lift(r)); E.keep(lift(c))
            rr = band(in_range(r, self.H), in_range(c, self.W))
            m = E.guarded(rr, lambda: self.member((r, c)))
            E.fact(z3.Implies(lift(rr), lift(in_range(v, self.n)) == lift(core.tobool(m))))
            E.fact(z3.Implies(z3.And(lift(rr), lift(in_range(v, self.n))), z3.And(self.fr(v.t) == lift(r), self.fc(v.t) == lift(c))))
        return v
class SortPerm:
    """contract of argsort on a 1-D array: p permutes its positions and the values at p(0), p(1), ... do not decrease"""
    def __init__(self, a):
        E = core.E; self.N = a.shape[0]; self.snap = snap(a); E.n += 1
        Z = z3.IntSort(); self.p, self.q = z3.Function("sorted!%d" % E.n, Z, Z), z3.Function("place!%d" % E.n, Z, Z)
        self.seen = {}; E.sorts.append(self)
    _once = NZ2._once
    def at(self, k):
        E = core.E; t = lift(k); v = S(self.p(t))
        if self._once("a", t.get_id()):
            E.keep(t); E.fact(z3.Implies(lift(in_range(k, self.N)), z3.And(lift(in_range(v, self.N)), self.q(v.t) == t)))
        return v
    def place(self, i):
        E = core.E; t = lift(i); v = S(self.q(t))
        if self._once("p", t.get_id()):
            E.keep(t); E.fact(z3.Implies(lift(in_range(i, self.N)), z3.And(lift(in_range(v, self.N)), self.p(v.t) == t)))
        return v
    def ordered(self, i, j):
        """values at places i <= j of the order"""
        E = core.E; ok = band(band(in_range(i, self.N), in_range(j, self.N)), _cmp("<=", i, j))
        a, b = self.at(i), self.at(j)
        le = E.guarded(ok, lambda: _cmp("<=", self.snap.get((a,)), self.snap.get((b,))))
        E.fact(lift(le) if E.implied(ok) else z3.Implies(lift(ok), lift(le)))
    def array(self): return SArr.new((self.N,), I64, lambda i: self.at(i[0]))
def nz_array(nz):
    r = SArr.new((nz.n,), I64, lambda i: nz.at(i[0]))
    r.store.nz = (nz, r.store.head)
    return r
def nz_of(a):
    """the enumeration an unchanged index array stands for"""
    if not isinstance(a, SArr) or a.ndim != 1: return None
    m = getattr(a.store, "nz", None)
    if m is None or a.store.head is not m[1] or a.store.stale or a.axes != [("v", 0, 0, 1)] or not same_dim(a.shape[0], m[0].n): return None
    return m[0]
def nz_from_mask(m):
    s = snap(m)
    return NZ(m.shape[0], lambda i: s.get((i,)))

ARR = (CArr, SArr)

def snap(v):
    if isinstance(v, SArr): return v.snapshot()
    if isinstance(v, CArr): return CArr(v.a.copy(), v.dtype)
    raise Unsupported("snapshot")

def broadcast_shapes(*shs):
    n = max(len(s) for s in shs)
    out = []
    for k in range(1, n + 1):
        d = None
        for s in shs:
            if k <= len(s):
                x = s[-k]
                if conc(x) and x == 1:
                    if d is None: d = 1
                    continue
                if d is None or (conc(d) and d == 1): d = x
                elif not same_dim(d, x):
                    if conc(d) and conc(x): raise VcRaise("ValueError", "operands could not be broadcast together")
                    core.E.oblige("array shapes agree", _cmp("==", d, x)); core.E.assume(_cmp("==", d, x))
        out.append(d)
    return tuple(reversed(out))
def bidx(sh, idx):
    """index into an operand of shape sh for broadcast index idx"""
    o = len(idx) - len(sh)
    return tuple(0 if (isinstance(d, int) and d == 1) else idx[o + q] for q, d in enumerate(sh))

def mk(shape, dtype, fn, name=""):
    shape = tuple(shape)
    if all(isinstance(d, int) for d in shape):
        a = _np.empty(shape, dtype=object)
        for i in _np.ndindex(*shape): a[i] = fn(i)
        return CArr(a, dtype)
    return SArr.new(shape, dtype, fn, name)

def memo(fn, pc=False):
    """remember the value of an immutable lazy array at an index (while the scope it was computed in is open)"""
    cache = {}
    def g(idx):
        E = core.E
        if E is None or E.probing or pc and E.loops: return fn(idx)
        key = (len(E.pc) if pc else 0,) + tuple(i if isinstance(i, int) else ("t", i.t.get_id()) if isinstance(i, S) else ("o", repr(i)) for i in idx)
        h = cache.get(key)
        if h is not None and h[0] in E.active and h[3] is E: return h[1]
        v = fn(idx)
        cache[key] = (E.active[-1], v, idx, E)
        return v
    return g
def elementwise(f, *args, dtype=None):
    args = [asarray(a) if isinstance(a, (list, tuple, _np.ndarray)) else a for a in args]
    arrs = [a for a in args if isinstance(a, ArrBase)]
    for a in args:
        if not isinstance(a, ArrBase) and (a is None or isinstance(a, str)): raise Unsupported("array operation with %r" % type(a))
    shape = broadcast_shapes(*[a.shape for a in arrs])
    if all(isinstance(d, int) for d in shape):
        out = _np.empty(shape, dtype=object)
        for i in _np.ndindex(*shape):
            out[i] = f(*[a.get(bidx(a.shape, i)) if isinstance(a, ArrBase) else a for a in args])
        if dtype is None: dtype = result_dtype(arrs, args, out)
        r = CArr(out, dtype)
        if shape == (): return out.item()
        return r
    ss = [(snap(a), a.shape) if isinstance(a, ArrBase) else (a, None) for a in args]
    if dtype is None:
        # probe the kind with a throw-away element
        dtype = result_dtype(arrs, args, None)
    def fn(idx):
        return f(*[s.get(bidx(sh, idx)) if sh is not None else s for s, sh in ss])
    r = SArr.new(shape, dtype, memo(fn))
    r.probe = True
    if dtype is F64 and all(a.dtype.kind != "f" for a in arrs) and not any(core.isreal(a) for a in args if not isinstance(a, ArrBase)):
        r.dtype = r.store.dtype = kind_probe(r)
    return r
def kind_probe(r):
    try:
        old = core.E.probing; core.E.probing = True
        idx = tuple(core.E.fresh("probe", "i") for _ in r.shape)
        core.E.scope_push()
        for i, n in zip(idx, r.shape): core.E.fact(lift(in_range(i, n)))
        try: return dt_of(r.get(idx))
        except core.PathEnd: return F64
        finally: core.E.scope_pop()
    finally:
        core.E.probing = old
def result_dtype(arrs, args, out):
    d = promote(*[a.dtype for a in arrs])
    sc = [a for a in args if not isinstance(a, ArrBase)]
    if out is not None and out.size:
        k = set(kind_of(x) if not isinstance(x, float) else "f" for x in out.flat)
        if "f" in k: return d if d.kind == "f" else F64
        if k == {"b"}: return BOOL
        return d if d.kind in "iu" else I64
    if any(core.isreal(s) for s in sc) and d.kind != "f": return F64
    if d.kind == "f": return d
    return F64 if d.kind != "f" else d

def asarray(x, dtype=None):
    if isinstance(x, ArrBase):
        if dtype is not None and as_dtype(dtype).name != x.dtype.name: return x.astype(dtype)
        return x
    if isinstance(x, _np.ndarray):
        a = _np.empty(x.shape, dtype=object)
        for i in _np.ndindex(*x.shape):
            v = x[i]
            v = v.item() if hasattr(v, "item") else v
            if isinstance(v, float) and math.isfinite(v): v = Fraction(repr(v))
            a[i] = v
        r = CArr(a, as_dtype(str(x.dtype)))
        return r if dtype is None else r.astype(dtype)
    if hasattr(x, "vc_list"): x = x.vc_list()
    if hasattr(x, "vc_array") and x.sym is not None: return x.vc_array(dtype)
    if isinstance(x, (list, tuple, range)):
        x = list(x)
        if not x:
            return CArr(_np.empty((0,), dtype=object), as_dtype(dtype) if dtype is not None else F64)
        parts = [asarray(e) if isinstance(e, (list, tuple, range, ArrBase, _np.ndarray)) else e for e in x]
        if any(isinstance(p, ArrBase) for p in parts):
            sh = parts[0].shape if isinstance(parts[0], ArrBase) else None
            for p in parts:
                if not isinstance(p, ArrBase) or len(p.shape) != len(sh) or not all(same_dim(a, b) for a, b in zip(p.shape, sh)):
                    raise VcRaise("ValueError", "inhomogeneous shape")
            d = as_dtype(dtype) if dtype is not None else promote(*[p.dtype for p in parts])
            if all(isinstance(q, int) for q in sh):
                a = _np.empty((len(parts),) + tuple(sh), dtype=object)
                for i, p in enumerate(parts):
                    for j in _np.ndindex(*sh): a[(i,) + j] = cast(p.get(j), d)
                return CArr(a, d)
            sn = [snap(p) for p in parts]
            def fn(idx):
                i = idx[0]
                if isinstance(i, int): return cast(sn[i].get(idx[1:]), d)
                r = sn[-1].get(idx[1:])
                for q in range(len(sn) - 2, -1, -1): r = ite(_cmp("==", i, q), sn[q].get(idx[1:]), r)
                return r
            return SArr.new((len(parts),) + tuple(sh), d, fn)
        parts = [p.item() if isinstance(p, _np.generic) else p for p in parts]
        if dtype is None:
            ks = {("f" if isinstance(p, float) else "O" if (p is None or isinstance(p, (str, bytes)) or not (conc(p) or isinstance(p, S))) else kind_of(p)) for p in parts}
            d = DTS["object"] if "O" in ks else F64 if "f" in ks else I64 if "i" in ks else BOOL
        else: d = as_dtype(dtype)
        a = _np.empty((len(parts),), dtype=object)
        for i, p in enumerate(parts): a[i] = cast(p, d)
        return CArr(a, d)
    if isinstance(x, float) or conc(x) or isinstance(x, S):
        a = _np.empty((), dtype=object)
        d = as_dtype(dtype) if dtype is not None else (F64 if isinstance(x, float) else dt_of(x))
        a[()] = cast(x, d)
        return CArr(a, d)
    if x is None:
        a = _np.empty((), dtype=object); a[()] = None
        return CArr(a, DTS["object"])
    raise Unsupported("asarray of %r" % type(x))

def to_sarr(c):
    cp = CArr(c.a.copy(), c.dtype)
    r = SArr.new(cp.shape, c.dtype, lambda i: cp.get(i))
    r.store.ro = True
    return r

def reshape(a, sh):
    """reshape with symbolic dimensions: only grouping (merge/split) of adjacent axes"""
    E = core.E
    old = list(a.shape)
    tot_old = a.size
    if any(conc(s) and s == -1 for s in sh):
        j = [i for i, s in enumerate(sh) if conc(s) and s == -1][0]
        rest = [s for i, s in enumerate(sh) if i != j]
        q = E.div_dims(old, rest)
        sh = tuple(q if i == j else s for i, s in enumerate(sh))
    # greedy grouping
    groups, i, j = [], 0, 0
    A, B = list(old), list(sh)
    while i < len(A) or j < len(B):
        gi, gj = [], []
        pa = pb = None
        if i < len(A): gi.append(i); pa = A[i]; i += 1
        else: pa = 1
        if j < len(B): gj.append(j); pb = B[j]; j += 1
        else: pb = 1
        if gi and gj and not same_dim(pa, pb) and not conc(pb) and same_dim(pb, 1):
            groups.append(([], gj)); i -= 1; continue       # a symbolic dimension known to be 1
        if gi and gj and not same_dim(pa, pb) and not conc(pa) and same_dim(pa, 1):
            groups.append((gi, [])); j -= 1; continue
        while not same_dim(pa, pb):
            fa, fb = E.dim_factors(pa), E.dim_factors(pb)
            if E.divides_dims(fa, fb) and i < len(A):
                gi.append(i); pa = E.prod_dim(pa, A[i]); i += 1
            elif E.divides_dims(fb, fa) and j < len(B):
                gj.append(j); pb = E.prod_dim(pb, B[j]); j += 1
            elif i >= len(A) and j >= len(B):
                E.oblige("reshape keeps the number of elements", _cmp("==", pa, pb)); E.assume(_cmp("==", pa, pb)); break
            else: raise Unsupported("reshape %s -> %s" % (old, sh))
        groups.append((gi, gj))
    if all(len(gi) <= 1 and len(gj) <= 1 for gi, gj in groups):
        # only unit axes inserted/removed: a true view
        newshape, vm = [None] * len(B), {}
        for gi, gj in groups:
            if gi and gj: vm[gi[0]] = ("v", gj[0], 0, 1)
            elif gi: vm[gi[0]] = ("f", 0)
        if isinstance(a, SArr):
            axes = []
            for ax in a.axes:
                if ax[0] == "f": axes.append(ax); continue
                m = vm[ax[1]]
                axes.append(("f", ax[2]) if m[0] == "f" else ("v", m[1], ax[2], ax[3]))
            return SArr(a.store, axes, B, a.dtype)
    s = snap(a)
    def fn(idx):
        full = [0] * len(A)
        for gi, gj in groups:
            if len(gi) == 1 and len(gj) == 1: full[gi[0]] = idx[gj[0]]; continue
            if not gj:
                for q in gi: full[q] = 0
                continue
            m = idx[gj[0]]
            for q in gj[1:]: m = E.lin_idx(m, B[q], idx[q])
            for q in reversed(gi[1:]):
                m, full[q] = E.divmod_idx(m, A[q])
            if gi: full[gi[0]] = m
        return s.get(tuple(full))
    r = SArr.new(sh, a.dtype, fn)
    if isinstance(a, SArr):
        r.store.base = a.store; a.store.kids.append(r.store)
    else: r.store.ro = True
    return r
