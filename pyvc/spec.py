"""Helpers used by contracts."""
import z3
from fractions import Fraction
from . import core, arrays, loader
from .core import S, lift, wrap, conc, band, bor, bnot, ite, _cmp, Unsupported
F = Fraction
def sarr(name, shape, dt=None, sort=None):
    """array of arbitrary content: an uninterpreted function of its indices"""
    dt = dt or arrays.F64
    rng = {"f": z3.RealSort(), "b": z3.BoolSort()}.get(dt.kind, z3.IntSort())
    f = z3.Function(name, *([z3.IntSort()] * len(shape) + [rng]))
    a = arrays.mk(shape, dt, lambda i: S(f(*[lift(q) for q in i])), name)
    if isinstance(a, arrays.SArr): a.head0 = a.store.head
    else: a.copy0 = a.a.copy()
    return a
def marr(name, shape, fn, dt=None):
    """array given element-wise by fn(index)"""
    a = arrays.mk(shape, dt or arrays.F64, fn, name)
    if isinstance(a, arrays.SArr): a.head0 = a.store.head
    else: a.copy0 = a.a.copy()
    return a
def unmodified(a):
    if isinstance(a, arrays.SArr): return a.store.head is a.head0
    return all(x is y or (conc(x) and conc(y) and x == y) for x, y in zip(a.a.flat, a.copy0.flat))
def ham(a, b):
    return [a[0]*b[0]-a[1]*b[1]-a[2]*b[2]-a[3]*b[3], a[0]*b[1]+a[1]*b[0]+a[2]*b[3]-a[3]*b[2],
            a[0]*b[2]-a[1]*b[3]+a[2]*b[0]+a[3]*b[1], a[0]*b[3]+a[1]*b[2]-a[2]*b[1]+a[3]*b[0]]
def qmat(q):
    w, x, y, z = q
    return [[w*w+x*x-y*y-z*z, 2*(x*y-w*z), 2*(x*z+w*y)], [2*(x*y+w*z), w*w-x*x+y*y-z*z, 2*(y*z-w*x)], [2*(x*z-w*y), 2*(y*z+w*x), w*w-x*x-y*y+z*z]]
def dotp(a, b):
    r = 0
    for x, y in zip(a, b): r = core.add(r, core.mul(x, y))
    return r
def foreign_rows(t, fname, rows, axis=0):
    """applications of input function fname in term t at a row other than the given ones"""
    out, st, seen = [], [lift(t)] if not isinstance(t, float) else [], set()
    while st:
        x = st.pop()
        if x.get_id() in seen: continue
        seen.add(x.get_id())
        if z3.is_app(x) and x.decl().name() == fname:
            if not any(x.arg(axis).eq(lift(r)) for r in rows): out.append(x)
        st.extend(x.children())
    return out
class Proof:
    """one deductive task: thunk explored on all paths by the verifier"""
    def __init__(self, name, functions, thunk, **opts):
        self.name, self.functions, self.thunk, self.opts = name, functions, thunk, opts
