"""Loop rules.  concrete: unrolled.  map: one arbitrary iteration, writes confined to the iteration's
own row.  merge: body explored path by path from a havocked state, effects merged, carried
variables closed by sums or by invariants."""
import sys, z3
from fractions import Fraction
from . import core, arrays
from .core import S, Unsupported, PathEnd, VcRaise, Restart, conc, lift, wrap, ite, band, bnot, _cmp, add, sub, mul

class Poison:
    """value of a variable at the start of an arbitrary iteration (before it is assigned)"""
    def __init__(self, loop, name): self.__dict__["_l"] = loop; self.__dict__["_n"] = name
    def _bad(self, *a, **k):
        if a and isinstance(a[0], Opaque): return a[0]
        L = self.__dict__["_l"]
        L.carried(self.__dict__["_n"])
    def __getattr__(self, a): self._bad()
class Opaque:
    """a clock reading: absorbs arithmetic, good for nothing else"""
    def __init__(self, *a): pass
    def _op(self, *a): return self
    __add__ = __radd__ = __sub__ = __rsub__ = __mul__ = __rmul__ = __truediv__ = __rtruediv__ = __iadd__ = __isub__ = __neg__ = _op
    def __bool__(self): raise Unsupported("decision on a clock reading")
    def __format__(self, s): return "?"
    __lt__ = __le__ = __gt__ = __ge__ = __eq__ = __bool__
    __hash__ = None
class SymList:
    """a list of symbolic length given element-wise; elements are rebuilt on each access, single overwritten ones are remembered"""
    def __init__(self, n, fn): self.n, self.fn, self.over = n, fn, []
    def vlen(self): return self.n
    def at(self, k):
        v = self.fn(k)
        for c, i, w in self.over:
            e = arrays.eq_idx(k, c)
            if i is None:
                if e is False: continue
                if e is not True: raise Unsupported("overwritten list element")
                v = w
            elif e is not False:
                if not isinstance(v, list): raise Unsupported("overwritten list element")
                v = list(v); v[i] = w if e is True else ite(e, w, v[i])
        return v
    def __getitem__(self, k):
        if isinstance(k, slice): raise Unsupported("slice of a list of symbolic length")
        if conc(k) and k < 0: k = add(self.n, k)
        if not core.E.implied(arrays.in_range(k, self.n)):
            core.E.oblige("list index within bounds", arrays.in_range(k, self.n)); core.E.assume(arrays.in_range(k, self.n))
        v = self.at(k)
        if isinstance(v, list): return _Elem(self, k, v)
        return v
    def __setitem__(self, k, v):
        if conc(k) and k < 0: k = add(self.n, k)
        self.over.append((k, None, v))
    def __iter__(self): raise Unsupported("iteration over a list of symbolic length")
    def __len__(self): raise Unsupported("length of a list of symbolic length")
class _Elem(list):
    def __init__(self, base, k, v): list.__init__(self, v); self.base, self.k = base, k
    def __setitem__(self, i, v):
        
        if not isinstance(i, int): raise Unsupported("overwritten list element")
        list.__setitem__(self, i, v); self.base.over.append((self.k, i % len(self), v))
class VList(list):
    """a list built by the code; appending once in every iteration of a loop with symbolic bounds makes it a list of symbolic length"""
    __hash__ = object.__hash__
    def __init__(self): list.__init__(self); self.stamp = core.E.cstamp if core.E is not None else -1; self.sym = None
    def _loops(self):
        return [l for l in core.E.loops if l.sym and l.active and self.stamp <= l.cstamp] if core.E is not None else []
    def append(self, x):
        ls = self._loops()
        if not ls and self.sym is None: return list.append(self, x)
        if len(ls) != 1 or self.sym is not None or list.__len__(self): raise Unsupported("list filled in a loop with symbolic bounds")
        ls[0].appends.setdefault(id(self), (self, []))[1].append(x)
    def _mut(name):
        def f(self, *a, **k):
            if self.sym is not None or self._loops(): raise Unsupported("list changed in a loop with symbolic bounds")
            return getattr(list, name)(self, *a, **k)
        return f
    for _n in ("extend", "insert", "pop", "remove", "clear", "sort", "reverse", "__iadd__", "__setitem__", "__delitem__", "__imul__"): locals()[_n] = _mut(_n)
    def _get(name):
        def f(self, *a, **k):
            if self.sym is not None: raise Unsupported("list of symbolic length")
            if any(id(self) in l.appends for l in self._loops()): raise Unsupported("list used while it is filled in a loop with symbolic bounds")
            return getattr(list, name)(self, *a, **k)
        return f
    for _n in ("__len__", "__iter__", "__contains__", "__add__", "__eq__", "__ne__", "index", "count", "copy", "__reversed__", "__bool__", "__mul__", "__rmul__"):
        if hasattr(list, _n): locals()[_n] = _get(_n)
    def __bool__(self): return (self.sym is not None and core.E.decide(_cmp(">", self.sym[0], 0))) if self.sym is not None else list.__len__(self) > 0
    def __getitem__(self, k):
        if self.sym is None:
            if self._loops() and any(id(self) in l.appends for l in self._loops()): raise Unsupported("list used while it is filled in a loop with symbolic bounds")
            return list.__getitem__(self, k)
        return SymList(*self.sym)[k]
    def vlen(self): return self.sym[0] if self.sym is not None else len(self)
    def vc_array(self, dtype):
        """as an array; the elements are numbers or lists of numbers of one length"""
        n, fn = self.sym
        k = core.E.fresh("el", "i"); v = fn(k)
        dt = lambda xs: dtype if dtype is not None else arrays.F64 if any(core.isreal(x) for x in xs) else arrays.I64
        if not isinstance(v, (list, tuple)):
            d = arrays.as_dtype(dt([v])); return arrays.mk((n,), d, lambda i: arrays.cast(fn(i[0]), d))
        if any(isinstance(x, (list, tuple, arrays.ArrBase)) for x in v): raise Unsupported("array of a list of symbolic length")
        d = arrays.as_dtype(dt(v))
        def at(i):
            w = fn(i[0])
            if conc(i[1]): return arrays.cast(w[i[1]], d)
            r = arrays.cast(w[-1], d)
            for q in range(len(w) - 1): r = ite(arrays.eq_idx(i[1], q), arrays.cast(w[q], d), r)
            return r
        return arrays.mk((n, len(v)), d, at)
for _m in ("add radd sub rsub mul rmul truediv rtruediv floordiv rfloordiv mod rmod pow rpow neg pos abs lt le gt ge eq ne bool index int float "
           "getitem setitem iter len call contains iadd isub imul itruediv and rand or ror invert iand ior").split():
    setattr(Poison, "__%s__" % _m, Poison._bad)
Poison.__hash__ = lambda self: 0

class VRange:
    def __init__(self, lo, hi, step=1): self.lo, self.hi, self.step = lo, hi, step
    def concrete(self): return conc(self.lo) and conc(self.hi) and conc(self.step)
    def py(self): return range(int(self.lo), int(self.hi), int(self.step))
    def vc_list(self):
        if not self.concrete(): raise Unsupported("symbolic range as a list")
        return list(self.py())
    def __iter__(self):
        if self.concrete(): return iter(self.py())
        raise Unsupported("iteration over a symbolic range")
    def vlen(self):
        if self.concrete(): return len(self.py())
        if self.step == 1:
            n = sub(self.hi, self.lo)
            return n if core.E.implied(_cmp(">=", n, 0)) else core.smax(0, n)
        raise Unsupported("len of a strided symbolic range")
    def __getitem__(self, i):
        return add(self.lo, mul(i, self.step))
    def __len__(self): return len(self.py())
def vrange(*a):
    a = [core.trunc(x) if (core.isreal(x)) else (x.item() if isinstance(x, arrays.ArrBase) else x) for x in a]
    a = [int(x) if isinstance(x, bool) else x for x in a]
    if len(a) == 1: r = VRange(0, a[0])
    elif len(a) == 2: r = VRange(a[0], a[1])
    else: r = VRange(*a)
    return r.py() if r.concrete() else r

class VEnumerate:
    def __init__(self, it, start): self.it, self.start = it, start
    def __iter__(self): return enumerate(iter(self.it), self.start)
class VZip:
    def __init__(self, its): self.its = its
    def __iter__(self): return zip(*self.its)

LOCAL_SKIP = ("__vl",)

class Loop:
    """for-loop driver; used as  for x in Loop(iterable, ...)"""
    def __init__(self, it, ident, names, targets, subs=()):
        self.ident, self.names, self.targets, self.subs = ident, names, targets, subs
        self.it = it
        self.sym = False
        E = core.E
        self.dom = None
        if isinstance(it, VList) and it.sym is not None: it = SymList(*it.sym)
        self.appends = {}
        if isinstance(it, VRange):
            if it.concrete(): self.it = it.py()
            else:
                self.sym = True; self.dom = (it.lo, it.hi, it.step); self.elem = lambda k: k
        elif isinstance(it, arrays.ArrBase):
            if not isinstance(it.shape[0], int):
                self.sym = True; self.dom = (0, it.shape[0], 1); self.elem = lambda k: it[k]
        elif isinstance(it, SymList):
            self.sym = True; self.dom = (0, it.n, 1); self.elem = it.at
        elif isinstance(it, VEnumerate) and isinstance(it.it, (arrays.ArrBase, VRange)):
            a = it.it
            if isinstance(a, VRange) and not a.concrete() and a.step == 1:
                self.sym = True; self.dom = (0, sub(a.hi, a.lo), 1); self.elem = lambda k: (add(k, it.start), a[k])
            elif isinstance(a, arrays.ArrBase) and not isinstance(a.shape[0], int):
                self.sym = True; self.dom = (0, a.shape[0], 1); self.elem = lambda k: (add(k, it.start), a[k])
        elif isinstance(it, VZip):
            n = None
            for a in it.its:
                if isinstance(a, arrays.ArrBase) and not isinstance(a.shape[0], int): n = a.shape[0]
            if n is not None:
                self.sym = True; self.dom = (0, n, 1); its = it.its
                self.elem = lambda k: tuple(a[k] for a in its)
        if self.sym:
            self.mode = E.loopmode.get(self.key(), "map")
            self.info = E.loopinfo.setdefault(self.key(), {"carry": set(), "cells": False, "stores": set()})
            if E.hav and self.ident in E.invariants: self.mode = "merge"
            self.contents = E.find_contents(self) if E.find_contents else None
            if self.contents: self.mode = "merge"
        self._completed = False
        self.outvals = {}
    def key(self): return self.ident
    # -- local variable protocol
    def inn(self, name):
        if self.mode == "merge" and name in self.havoc: return self.havoc[name]
        return Poison(self, name)
    def out(self, name, get):
        if name in self.outvals: return self.outvals[name]
        if name in self.targets or self.entered:
            return Poison(self, name) if self.mode != "skip" else self._val(get)
        return self._val(get)
    def _val(self, get):
        try: return get()
        except NameError: return Poison(self, "?")
    def completed(self): self._completed = True
    broke = False; contents = None
    def brk(self, els):
        """a break statement of this loop; with symbolic bounds the loop ends at a first index satisfying the break condition"""
        if not self.sym: return True
        if els: raise Unsupported("for-else with break and symbolic bounds")
        E = core.E
        if self.mode == "skip": return True
        if self.mode != "merge":
            E.loopmode[self.key()] = "merge"; raise Restart()
        if not (E.subexp and E.subexp[-1] is self): raise Unsupported("break out of nested symbolic loops")
        self.broke = True
        raise core.PathEnd()
    def noret(self):
        if self.sym: raise Unsupported("return from inside a loop with symbolic bounds")
    def carried(self, name):
        if name == "?" : raise Unsupported("use of an unassigned variable")
        if self.entered == "done" or self.mode == "merge" and isinstance(name, tuple) and name in self.info["carry"]:
            raise Unsupported("value of '%s' after a symbolic loop" % name)
        self.info["carry"].add(name)
        core.E.loopmode[self.key()] = "merge"
        raise Restart()
    # -- array effects
    def new_effects(self):
        self.reads, self.writes, self.regions = {}, {}, {}
        self.stamp = len(core.E.stores)
        self.storeset = set(id(s) for s in core.E.stores)
    def outer(self, store): return id(store) in self.storeset
    def on_read(self, store, idx):
        if self.sym and self.active and self.outer(store) and not core.E.probing: self.reads.setdefault(id(store), (store, []))[1].append(idx)
    def on_write(self, store, idx):
        if self.sym and self.active and self.outer(store): self.writes.setdefault(id(store), (store, []))[1].append(idx)
    def on_region(self, store, lead):
        if self.sym and self.active and self.outer(store): self.writes.setdefault(id(store), (store, []))[1].append(tuple(lead))
    def on_cwrite(self, root):
        if self.sym and self.active and root.stamp <= self.cstamp:
            nm = None
            for v, x in self.loc0.items():
                if isinstance(x, arrays.CArr) and x.root is root: nm = v
            if nm is None: raise Unsupported("concrete array updated in a symbolic loop is not a local")
            if nm not in self.info.setdefault("priv", set()):
                self.info["priv"].add(nm); raise Restart()
    def _fill(self, loc, H=None):
        for v in self.info.get("priv", ()):
            x = loc.get(v)
            if not isinstance(x, arrays.CArr): continue
            import numpy as _np
            for i in _np.ndindex(*x.a.shape):
                x.a[i] = H[(v, i)] if H is not None and (v, i) in H else Poison(self, (v, i))
    # -- iteration
    entered = False
    active = False
    kv = None
    def __iter__(self):
        if not self.sym:
            for x in self.it: yield x
            return
        E = core.E
        lo, hi, st = self.dom
        if not conc(st):
            E.oblige("step of the range is not zero", _cmp("!=", st, 0)); E.assume(_cmp("!=", st, 0))
            if not E.implied(_cmp(">", st, 0)): raise Unsupported("symbolic step of unknown sign")
        elif st < 0: raise Unsupported("descending symbolic loop")
        if not E.decide(_cmp("<", lo, hi)):
            self.mode = "skip"
            return
        self.frame = sys._getframe(1)
        oi = E.objinv.get("*") if not any(L is not self and getattr(L, "sym", False) and L.active and L.entered for L in E.loops) else None     # the outermost loop over the object
        if oi is not None:
            self.mode = "merge"
            for x in self._object(E, lo, hi, st, oi): yield x
        elif self.mode == "map":
            for x in self._map(E, lo, hi, st): yield x
        else:
            for x in self._merge(E, lo, hi, st): yield x
    def _index(self, E, lo, hi, st):
        if conc(st) and st == 1:
            k = E.row(lo, hi)
            if any(L.sym and L.active and L.entered and L.kv is not None and L.kv.t.eq(k.t) for L in E.loops):
                k = E.fresh("it", "i"); E.fact(lift(_cmp(">=", k, lo))); E.fact(lift(_cmp("<", k, hi)))     # an enclosing loop over the same range
            self.kv = k
            E.ghost.setdefault("iters", {})[self.ident] = (k, k); E.ghost.setdefault("loops", {})[self.ident] = self
            return k
        self.kv = k = E.fresh("it", "i")
        E.fact(k.t >= 0)
        i = add(lo, mul(k, st))
        E.fact(lift(_cmp("<", i, hi)))
        E.ghost.setdefault("iters", {})[self.ident] = (k, i); E.ghost.setdefault("loops", {})[self.ident] = self
        return i
    def _block(self, ws, rs):
        """axis along which every write is a slice [c + k*m, c + k*m + len) with len <= m; reads stay inside it"""
        E = core.E
        kt = self.kv.t
        n0 = int(str(kt).rsplit("!", 1)[1]) if "!" in str(kt) else 0
        for ax in range(len(ws[0])):
            if not all(isinstance(w[ax], arrays.Blk) for w in ws): continue
            s0 = lift(ws[0][ax].start)
            m = z3.simplify(z3.substitute(s0, (kt, kt + 1)) - s0, som=True)
            c = z3.simplify(z3.substitute(s0, (kt, z3.IntVal(0))), som=True)
            if str(kt) in core.consts_of(m) or any("!" in q and q.rsplit("!", 1)[1].isdigit() and int(q.rsplit("!", 1)[1]) > n0 for q in core.consts_of(s0)): continue
            if not z3.is_true(z3.simplify(s0 - c - kt * m == 0, som=True)) and not E.implied(wrap(s0 == c + kt * m)): continue
            m, c = wrap(m), wrap(c)
            ok = all(E.implied(_cmp("<=", w[ax].ln, m)) and (w[ax].start is ws[0][ax].start or E.implied(_cmp("==", w[ax].start, ws[0][ax].start))) for w in ws)
            ok = ok and all(not isinstance(r[ax], arrays.Blk) and r[ax] is not None and E.implied(band(_cmp(">=", r[ax], ws[0][ax].start), _cmp("<", r[ax], add(ws[0][ax].start, m)))) for r in rs)
            if ok: return ax, c, m
        return None
    def _close_block(self, store, prehead, blk, lo, hi, st):
        E = core.E
        E.n += 1
        ax, c, m = blk
        rs = {"f": z3.RealSort(), "b": z3.BoolSort()}.get(store.dtype.kind, z3.IntSort())
        f = z3.Function("loop_%s!%d" % (store.name, E.n), *([z3.IntSort()] * len(store.dims) + [rs]))
        kv = self.kv
        unit = conc(st) and st == 1
        first = add(c, mul(lo, m)) if unit else c
        last = add(c, mul(hi, m)) if unit else None
        mine = add(c, mul(kv, m))
        def other(idx):
            i = idx[ax]
            a = _cmp(">=", i, first)
            if last is not None: a = band(a, _cmp("<", i, last))
            return band(a, bnot_(band(_cmp(">=", i, mine), _cmp("<", i, add(mine, m)))))
        store.head = arrays.Region(store.head, other, lambda idx: S(f(*[lift(i) for i in idx])))
    def _linear(self, store, idxs, k):
        """axis of length A*B on which every access is at p*B + b, with p or b the index of this loop"""
        E = core.E
        for ax in range(len(store.dims)):
            fs = E.dim_factors(store.dims[ax])
            if len(fs) != 2 or any(len(i) <= ax or i[ax] is None or isinstance(i[ax], arrays.Blk) for i in idxs): continue
            for M in fs[::-1]:
                ds = [E.divmod_idx(i[ax], M) for i in idxs]
                for c in (0, 1):
                    if all(arrays.eq_idx(d[c], k) is True for d in ds): return ax, M, c
        return None
    def _close_linear(self, store, lin, k, lo, hi):
        E = core.E
        ax, M, c = lin
        E.n += 1
        rs = {"f": z3.RealSort(), "b": z3.BoolSort()}.get(store.dtype.kind, z3.IntSort())
        f = z3.Function("loop_%s!%d" % (store.name, E.n), *([z3.IntSort()] * len(store.dims) + [rs]))
        def other(idx):
            v = E.divmod_idx(idx[ax], M)[c]
            return band(band(_cmp(">=", v, lo), _cmp("<", v, hi)), bnot_(arrays.eq_idx(v, k)))
        store.head = arrays.Region(store.head, other, lambda idx: S(f(*[lift(i) for i in idx])))
    def _map(self, E, lo, hi, st):
        self.n0 = E.n
        k = self._index(E, lo, hi, st)
        self.k = k
        self.pc0, self.sc0 = len(E.pc), E.nscope0
        self.new_effects()
        pre = {id(s): s.head for s in E.stores}
        E.loops.append(self); self.active = True; self.entered = True
        E.cstamp += 1; self.cstamp = E.cstamp - 1
        self.loc0 = dict(self.frame.f_locals)
        self._fill(self.loc0)
        for p in self.info.get("hav", ()): self._unknown(E.stores[p])
        yield self.elem(k)
        self.active = False; E.loops.pop()
        if self.appends:
            if len(E.pc) != self.pc0: raise Unsupported("list filled in a loop whose body takes decisions")
            self._grow(lo, st, self._trip(lo, hi, st), self.kv.t, {id(l): (l, xs) for l, xs in self.appends.values()})
        self._fill(self.loc0)
        if not self._check_fall(): pass
        named = {}
        loc = dict(self.loc0); loc.update(self.frame.f_locals)
        for nm in self.subs:
            a = loc.get(nm)
            if isinstance(a, arrays.SArr) and self.outer(a.store): named[nm] = a.store
        wax, nowr = self.info.setdefault("wax", {}), self.info.setdefault("nowr", set())
        for sid, (store, ws) in self.writes.items():
            rs = self.reads.get(sid, (store, []))[1]
            if self._havoced(store):
                self._unknown(store); continue
            ax = self._axis(ws + rs, k)
            if ax is None:
                blk = self._block(ws, rs)
                if blk is not None:
                    for nm, stt in named.items():
                        if stt is store:
                            fresh = nm not in wax
                            wax[nm] = ("blk",) + blk
                            if fresh and nm in nowr: raise Restart()
                    self._close_block(store, pre[sid], blk, lo, hi, st)
                    continue
                lin = self._linear(store, ws + rs, k) if conc(st) and st == 1 else None
                if lin is not None:
                    for nm, stt in named.items():
                        if stt is store and nm in nowr: raise Unsupported("array '%s' is written on some paths only" % nm)
                    self._close_linear(store, lin, k, lo, hi)
                    continue
                # writes that do not depend on the iteration row
                if E.hav and self.ident.split("#")[0] in E.hav:
                    if E.hav_merge: E.loopmode[self.key()] = "merge"
                    self._havoc_later(store)
                self.info["stores"].add(store.name)
                raise Unsupported("array '%s' is not written row by row" % store.name)
            ax, off = ax
            for nm, stt in named.items():
                if stt is store:
                    fresh = nm not in wax
                    wax[nm] = (ax, off)
                    if fresh and nm in nowr: raise Restart()
            self._close(store, pre[sid], ax, add(k, off), add(lo, off), add(hi, off), st)
        for nm, store in named.items():
            # not written by the arbitrary iteration on this path; the other iterations may have written their rows
            if id(store) in self.writes: continue
            if nm in wax:
                if wax[nm][0] == "blk":
                    raise Unsupported("array '%s' is written block-wise on some paths only" % nm)
                ax, off = wax[nm]
                self._close(store, store.head, ax, add(k, off), add(lo, off), add(hi, off), st)
            else: nowr.add(nm)
        self.entered = "done"
        # propagate effects to enclosing loops is done by on_write calls themselves
    # arrays of unknown content at the start of an arbitrary iteration (and after the loop)
    def _havoced(self, store): return any(core.E.stores[p] is store for p in self.info.get("hav", ()))
    def _havoc_later(self, store):
        if store.kids or store.base is not None or store.ro: raise Unsupported("array '%s' written in a loop is seen through several names" % store.name)
        p = [i for i, s in enumerate(core.E.stores) if s is store][0]
        self.info.setdefault("hav", set()).add(p)
        raise Restart()
    def _unknown(self, store, keep=None):
        E = core.E
        if store.kids or store.base is not None or store.ro: raise Unsupported("array '%s' written in a loop is seen through several names" % store.name)
        E.n += 1
        rs = {"f": z3.RealSort(), "b": z3.BoolSort()}.get(store.dtype.kind, z3.IntSort())
        f = z3.Function("hav_%s!%d" % (store.name, E.n), *([z3.IntSort()] * len(store.dims) + [rs]))
        fn = lambda idx: S(f(*[lift(i) for i in idx]))
        store.head = arrays.Fn(fn) if keep is None else arrays.Region(store.head, keep, fn)
    def _trip(self, lo, hi, st):
        n = sub(hi, lo)
        return n if conc(st) and st == 1 else core.floordiv(add(n, sub(st, 1)), st)
    def _grow(self, lo, st, n, kt, appends, unit=None):
        """lists that got one element per iteration"""
        n0 = int(str(kt).rsplit("!", 1)[1]) if "!" in str(kt) else core.E.n
        index = (lambda q: q) if self.mode == "map" and not (conc(st) and st == 1) else (lambda q: add(lo, q) if conc(st) and st == 1 else add(lo, mul(q, st)))
        for l, xs in appends.values():
            if len(xs) != 1: raise Unsupported("list gets %d elements per iteration" % len(xs))
            def sb(x, q):
                if isinstance(x, list): return [sb(y, q) for y in x]
                if isinstance(x, tuple): return tuple(sb(y, q) for y in x)
                if conc(x) or isinstance(x, (float, str, type(None))): return x
                if not isinstance(x, S) and type(x).__module__.startswith("pyebsdindex") and hasattr(x, "__dict__") and not isinstance(x, arrays.ArrBase):
                    o = object.__new__(type(x))     # an object of the code: its attributes, those that depend on the state of the loop unknown
                    for a, v in vars(x).items():
                        try: o.__dict__[a] = sb(v, q)
                        except Unsupported: o.__dict__[a] = Opaque()
                    return o
                if not isinstance(x, S): raise Unsupported("list of %s filled in a loop with symbolic bounds" % type(x).__name__)
                for c in core.consts_of(x.t) | core.funcs_of(x.t):
                    if c != str(kt) and "!" in c and c.rsplit("!", 1)[1].isdigit() and int(c.rsplit("!", 1)[1]) >= n0: raise Unsupported("list element depends on the state of the loop")
                return x if q is None else wrap(z3.substitute(x.t, (kt, lift(index(q)))))
            sb(xs[0], None)
            l.sym = (n, lambda q, x=xs[0]: sb(x, q))
    # arrays whose content after any number of iterations is given by a contract: content(before, index, iterations)
    def _defs(self, loc0):
        out = []
        for nm, fn in (self.contents or {}).items():
            a = loc0.get(nm)
            if not isinstance(a, arrays.SArr) or not self.outer_now(a.store) or a.store.kids or a.store.base is not None or a.store.ro: raise Unsupported("array '%s' of the contract" % nm)
            head = a.store.head
            out.append((a.store, lambda idx, head=head: arrays.resolve(head, tuple(idx)), fn))
        return out
    def outer_now(self, store): return any(s is store for s in core.E.stores)
    def _same_content(self, s, pre, fn, k, what):
        E = core.E
        g = tuple(E.fresh("g", "i") for _ in s.dims)
        for v, d in zip(g, s.dims): E.fact(z3.And(v.t >= 0, v.t < lift(d)))
        v = arrays.resolve(s.head, g)
        if E.on_value: E.on_value(self, v)
        E.oblige("loop %s: " % self.ident + what % s.name, _cmp("==", v, fn(pre, g, k)))
    def _kept(self, store, n0):
        """region outside of which no iteration writes: the axes on which every write has the same loop-independent index"""
        ws = self.writes.get(id(store), (store, []))[1]
        if not ws: return lambda idx: False
        fixed = {}
        for ax in range(len(store.dims)):
            v = ws[0][ax] if ax < len(ws[0]) else None
            if any(len(w) <= ax or w[ax] is None or isinstance(w[ax], arrays.Blk) or arrays.eq_idx(w[ax], v) is not True for w in ws): continue
            cs = core.consts_of(lift(v)) | core.funcs_of(lift(v))
            if any("!" in c and c.rsplit("!", 1)[1].isdigit() and int(c.rsplit("!", 1)[1]) >= n0 for c in cs): continue
            fixed[ax] = v
        def cond(idx):
            c = True
            for ax, v in fixed.items(): c = band(c, arrays.eq_idx(idx[ax], v) if not conc(idx[ax]) or not conc(v) else idx[ax] == v)
            return c
        return cond
    def _check_fall(self): return True
    def _axis(self, idxs, k):
        """axis along which every access is at k + offset, the offset not depending on the iteration"""
        n = len(idxs[0])
        kn = str(self.kv.t)
        n0 = int(kn.rsplit("!", 1)[1]) if "!" in kn else 0
        for ax in range(n):
            off = None; ok = True
            for i in idxs:
                if i[ax] is None or isinstance(i[ax], arrays.Blk) or conc(i[ax]): ok = False; break
                if off is None:
                    if arrays.eq_idx(i[ax], k) is True: off = 0; continue
                    d = z3.simplify(lift(i[ax]) - k.t)
                    cs = core.consts_of(d)
                    if kn in cs or any("!" in c and c.rsplit("!", 1)[1].isdigit() and int(c.rsplit("!", 1)[1]) > n0 for c in cs): ok = False; break
                    off = wrap(d)
                elif arrays.eq_idx(i[ax], add(k, off)) is not True: ok = False; break
            if ok: return ax, off
        return None
    def _close(self, store, prehead, ax, k, lo, hi, st):
        E = core.E
        E.n += 1
        sorts = [z3.IntSort()] * len(store.dims)
        rs = {"f": z3.RealSort(), "b": z3.BoolSort()}.get(store.dtype.kind, z3.IntSort())
        f = z3.Function("loop_%s!%d" % (store.name, E.n), *(sorts + [rs]))
        gen = self._general(E, store.head, ax, k, f, st)
        def other(idx):
            c = band(_cmp(">=", idx[ax], lo), _cmp("<", idx[ax], hi))
            e = arrays.eq_idx(idx[ax], k)
            if E.collapse and not conc(e) and gen.known(idx): return c      # the general content at k is the one written there
            return band(c, bnot_(e))
        store.head = arrays.Region(store.head, other, gen)
    def _general(self, E, head, ax, k, f, st):
        """content of the rows of the other iterations: the arbitrary iteration's value with its index replaced, when that
        value is a term over the state before the loop and the index alone and the body took no decision; else unknown"""
        unknown = lambda idx: S(f(*[lift(i) for i in idx]))
        unknown.known = lambda idx: False
        kt = self.kv.t
        if not (conc(st) and st == 1) or len(E.pc) != self.pc0 or E.nscope0 != self.sc0: return unknown
        n0, off = self.n0, sub(k, self.kv)
        def val(idx):
            j = list(idx); j[ax] = k
            n1 = E.n
            t = arrays.resolve(head, tuple(j))
            if not isinstance(t, S): return t if E.n == n1 else None
            for c in core.consts_of(t.t) | core.funcs_of(t.t):
                if c != str(kt) and "!" in c and c.rsplit("!", 1)[1].isdigit() and int(c.rsplit("!", 1)[1]) > n0: return None
            r = z3.substitute(t.t, (kt, lift(sub(idx[ax], off))))
            if E.collapse:
                st, seen = [r], set()
                while st:
                    x = st.pop()
                    if x.get_id() in seen: continue
                    seen.add(x.get_id()); st.extend(x.children())
                    for z in E.nzs:
                        if z3.is_app(x) and x.num_args() == 1 and hasattr(z, "f") and x.decl().eq(z.f): z.at(wrap(x.arg(0)))
            return wrap(r)
        def fn(idx):
            v = val(idx)
            return unknown(idx) if v is None else v
        fn.known = lambda idx: val(idx) is not None
        return fn
    # ---- invariant of an object's state: holds before, preserved by an arbitrary iteration from an arbitrary state, holds after
    def _object(self, E, lo, hi, st, oi):
        if not (conc(st) and st == 1): raise Unsupported("strided loop over an object's state")
        self.entered = True
        loc0 = dict(self.frame.f_locals); self.loc0 = loc0
        self.info["carry"] = set(); self.havoc = {}
        oi.check("before the loop")
        keep0 = oi.frame()
        heads0 = {id(s): s.head for s in E.stores}
        k = E.fresh("it", "i"); self.k = self.kv = k
        E.scope_push()
        E.fact(lift(_cmp(">=", k, lo))); E.fact(lift(_cmp("<", k, hi)))
        saved = E.prefix, E.trace, E._alts
        pend = [[]]; npaths = 0; normal = False
        self.new_effects()
        E.cstamp += 1; self.cstamp = E.cstamp - 1
        while pend:
            E.prefix, E.trace, E._alts = pend.pop(), [], []
            for s in E.stores:
                if id(s) in heads0: s.head = heads0[id(s)]
            E.scope_push()
            oi.havoc("start of an iteration", k)
            self._completed = False
            E.loops.append(self); self.active = True; E.subexp.append(self)
            self.dead = self.broke = False
            yield self.elem(k)
            self.active = False
            if E.loops and E.loops[-1] is self: E.loops.pop()
            E.subexp.pop()
            if any(not oi.owns(stt) for stt, _ in self.writes.values()): raise Unsupported("array write in a loop over an object's state")
            if self.broke or not self.dead:
                if oi.frame() != keep0: raise Unsupported("the loop changes state outside the invariant")
                oi.check("at a break" if self.broke else "after an iteration")
            normal = True
            pend.extend(E._alts)
            E.scope_pop(); npaths += 1
            if npaths > 64: raise Unsupported("too many loop paths")
        E.prefix, E.trace, E._alts = saved
        E.scope_pop()
        for s in E.stores:
            if id(s) in heads0: s.head = heads0[id(s)]
        oi.havoc("after the loop", None)
        self.entered = "done"
        self._completed = True
    # ---- merge rule
    def _merge(self, E, lo, hi, st):
        self.entered = True
        loc0 = dict(self.frame.f_locals)
        inv = E.invariants.get(self.ident) or E.find_invariant(self)
        k = E.fresh("it", "i")
        self.k = k
        self.loc0 = loc0
        carry = sorted(self.info["carry"], key=str)
        init = {}
        for v in carry:
            if isinstance(v, tuple):
                init[v] = loc0[v[0]].a[v[1]]; continue
            if v not in loc0: raise Unsupported("loop-carried variable %s without initial value" % v)
            init[v] = loc0[v]
            if isinstance(init[v], Poison): init[v]._bad()
            if not (conc(init[v]) or isinstance(init[v], (S, float))): raise Unsupported("loop-carried variable '%s' of type %s" % (v, type(init[v]).__name__))
        kinds = {v: self.info.get("kind", {}).get(v) or ("b" if core.isboolv(x) else "r" if core.isreal(x) else "i") for v, x in init.items()}
        heads0 = {id(s): s.head for s in E.stores}
        if inv:
            for nm, c in inv(Env(loc0, init, lo, self.dom)): E.oblige("loop %s: invariant holds initially: %s" % (self.ident, nm), c)
        self.havoc = {v: E.fresh("h_" + (v if isinstance(v, str) else v[0]), kinds[v]) for v in carry}
        H = self.havoc
        # ---- iteration
        E.scope_push()
        E.fact(lift(_cmp(">=", k, lo))); E.fact(lift(_cmp("<", k, hi)))
        if not conc(st): E.fact(core.S(E.fresh('it', 'i').t).t * lift(st) == k.t - lift(lo))
        elif st != 1: E.fact((k.t - lift(lo)) % st == 0)
        defs = self._defs(loc0)
        for s, pre, fn in defs: self._same_content(s, pre, fn, lo, "content of '%s' before the loop")
        for s, pre, fn in defs:
            s.head = arrays.Fn(lambda idx, fn=fn, pre=pre: fn(pre, idx, k)); heads0[id(s)] = s.head
        hav = [E.stores[p] for p in sorted(self.info.get("hav", ()))]
        pre0 = {id(s): s.head for s in hav}
        for s in hav:
            self._unknown(s); heads0[id(s)] = s.head
        if inv:
            for nm, c in inv(Env(loc0, H, k, self.dom, True)): E.assume(c)
        base_pc = len(E.pc)
        results = []
        breaks = []; grown = []
        saved_prefix, saved_trace, saved_alts = E.prefix, E.trace, E._alts
        pend = [[]]
        self.new_effects()
        E.cstamp += 1; self.cstamp = E.cstamp - 1
        self.cw = {}
        while pend:
            pre = pend.pop()
            E.prefix, E.trace, E._alts = pre, [], []
            for s in E.stores:
                if id(s) in heads0: s.head = heads0[id(s)]
            E.scope_push()
            self._completed = False
            E.loops.append(self); self.active = True
            E.subexp.append(self)
            dead = False
            self.dead = self.broke = False
            self._fill(loc0, H)
            self.appends = {}
            yield self.elem(k)
            self.active = False
            if self.broke or not self.dead: grown.append(self.appends)
            if E.loops and E.loops[-1] is self: E.loops.pop()
            E.subexp.pop()
            for stt, _ in list(self.writes.values()):
                if self._havoced(stt) or any(stt is s for s, _, _ in defs): continue
                if not (E.hav and self.ident.split("#")[0] in E.hav): raise Unsupported("array write in an accumulating loop")
                self._havoc_later(stt)
            if self.broke:
                loc = self.frame.f_locals
                for v in carry:
                    x = loc[v] if isinstance(v, str) else loc0[v[0]].a[v[1]]
                    if not (x is H[v] or isinstance(x, S) and x.t.eq(H[v].t)): raise Unsupported("loop-carried variable '%s' changed before break" % (v,))
                breaks.append([lift(wrap(t)) for t in E.pc[base_pc:]])
            elif not self.dead:
                loc = self.frame.f_locals
                fin = {v: (loc[v] if isinstance(v, str) else loc0[v[0]].a[v[1]]) for v in carry}
                for v in carry:
                    if isinstance(fin[v], Poison): raise Unsupported("carried variable lost")
                    want = kinds[v]
                    got = "b" if core.isboolv(fin[v]) else "r" if core.isreal(fin[v]) else "i"
                    if got != want and got == "r":
                        self.info.setdefault("kind", {})[v] = "r"; raise Restart()
                for s, pre, fn in defs: self._same_content(s, pre, fn, add(k, st), "content of '%s' after one more iteration")
                if inv:
                    for nm, c in inv(Env(loc, fin, add(k, st), self.dom)): E.oblige("loop %s: invariant preserved: %s" % (self.ident, nm), c)
                results.append(([wrap(t) for t in E.pc[base_pc:]], fin))
            pend.extend(E._alts)
            E.scope_pop()
            if len(results) > 64: raise Unsupported("too many loop paths")
        E.prefix, E.trace, E._alts = saved_prefix, saved_trace, saved_alts
        merged = {}
        for v in carry:
            m = None
            for pcs, fin in reversed(results):
                if m is None: m = fin[v]
                else:
                    c = True
                    for q in pcs: c = band(c, q)
                    m = ite(c, fin[v], m)
            merged[v] = m
        hs = set(str(h.t) for h in H.values())
        outs = {}
        for v in carry:
            if m is None: continue
            d = delta(merged[v], H[v])
            if d is not None and not (core.consts_of(lift(d)) & hs):
                outs[v] = ("sum", d)
            else:
                outs[v] = ("havoc", merged[v])
        sums = {}
        hi0 = hi
        if breaks:
            if not conc(st) or st != 1: raise Unsupported("break in a strided loop")
            cB = z3.Or(*[z3.And(*b) if b else z3.BoolVal(True) for b in breaks])
            if core.consts_of(cB) & hs: raise Unsupported("break condition depends on a loop-carried variable")
            K = E.fresh("brk", "i")
            breakfacts = [K.t >= lift(lo), K.t <= lift(hi), z3.Implies(K.t < lift(hi), z3.substitute(cB, (k.t, K.t)))]
            brk_ghost = (self.ident, K, lo, hi, lambda i, cB=cB, kt=k.t: wrap(z3.substitute(cB, (kt, lift(i)))))
            hi = K
        for v, (kind, d) in outs.items():
            if kind == "sum" and not conc(st): raise Unsupported("sum over a loop with symbolic step")
            if kind == "sum": sums[v] = E.sum_term(lo, hi, k, d, step=st)
        E.scope_pop()
        if breaks:
            for f in breakfacts: E.fact(f)
            E.ghost.setdefault("breaks", []).append(brk_ghost)
        for s in E.stores:
            if id(s) in heads0: s.head = heads0[id(s)]
        for s, pre, fn in defs:
            if breaks or not (conc(st) and st == 1): raise Unsupported("contents of arrays after a loop that does not go from its first index to its last")
            s.head = arrays.Fn(lambda idx, fn=fn, pre=pre: fn(pre, idx, hi))
        for s in hav:
            s.head = pre0[id(s)]
            self._unknown(s, self._kept(s, int(str(k.t).rsplit("!", 1)[1])))
        if any(grown):
            same = lambda a, b: (type(a) is type(b) and len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))) if isinstance(a, (list, tuple)) else a.t.eq(b.t) if isinstance(a, S) and isinstance(b, S) else not isinstance(a, S) and not isinstance(b, S) and a == b
            if any(set(g) != set(grown[0]) or any(not same(g[q][1], grown[0][q][1]) for q in g) for g in grown): raise Unsupported("list gets different elements on different paths of a loop")
            n = self._trip(lo, hi0, st)
            if breaks: n = ite(_cmp("<", hi, hi0), add(sub(hi, lo), 1), n)      # the iteration that breaks has filled the list, too
            self.appends = {}
            self._grow(lo, st, n, k.t, grown[0])
        post = {}
        for v, (kind, d) in outs.items():
            if kind == "sum": post[v] = add(init[v], sums[v].declare())
            else: post[v] = E.fresh("o_" + (v if isinstance(v, str) else v[0]), kinds[v])
        self.outvals = post
        self._fill(loc0)
        for v in carry:
            if isinstance(v, tuple): loc0[v[0]].a[v[1]] = post[v]
        if inv:
            last = hi if conc(st) and st == 1 else E.fresh("last", "i")
            if not (conc(st) and st == 1): E.fact(z3.And(last.t >= lift(hi), last.t - lift(st) < lift(hi)))
            for nm, c in inv(Env(loc0, post, last, self.dom, True)): E.assume(c)
        self.entered = "done"

def delta(m, h):
    """m - h with h occurrences cancelled through ite branches"""
    t = lift(m); ht = lift(h)
    def go(x):
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
            a, b = go(x.arg(1)), go(x.arg(2))
            if a is None or b is None: return None
            return z3.If(x.arg(0), a, b)
        y, hh = x, ht
        if z3.is_int(y) and z3.is_real(hh): y = z3.ToReal(y)
        d = z3.simplify(y - hh, som=True)
        return d
    if z3.is_bool(t): return None
    return wrap(go(t))

def bnot_(c): return (not c) if isinstance(c, bool) else bnot(c)

class While:
    """a while loop under a contract: the invariant holds before, is kept by an arbitrary iteration from an arbitrary state, holds after"""
    def __init__(self, ident, names):
        E = core.E
        self.ident, self.names = ident, names
        self.frame = sys._getframe(2)
        loc = dict(self.frame.f_locals)
        self.inv = E.find_while(ident, names, loc) if E.find_while else None
        self.sym = self.inv is not None
        if not self.sym: return
        self.init = {v: loc[v] for v in names if v in loc and not isinstance(loc[v], Poison)}
        for v, x in self.init.items():
            if not (conc(x) or isinstance(x, S)): raise Unsupported("variable '%s' of a while loop of type %s" % (v, type(x).__name__))
        E.ghost.setdefault("whiles", {})[ident] = self
        self.check("initially", loc)
        self.heads0 = {id(s): s.head for s in E.stores}
        self.kept = {}
    def check(self, when, loc):
        for nm, c in self.inv(Env(loc, {}, None, (None, None))): core.E.oblige("loop %s: invariant %s: %s" % (self.ident, when, nm), c)
    def hav(self, v):
        if v not in self.init: return Poison(self, v)
        x = self.init[v]
        w = self.kept[v] = core.E.fresh("w_" + v, "b" if core.isboolv(x) else "r" if core.isreal(x) else "i")
        return w
    def carried(self, name): raise Unsupported("'%s' is not assigned before the while loop" % (name,))
    def assume(self):
        for nm, c in self.inv(Env(dict(self.frame.f_locals), {}, None, (None, None), True)): core.E.fact(lift(core.tobool(c)))
    def enter(self): core.E.ghost["in_while"] = self.ident
    def end(self):
        E = core.E
        E.ghost.pop("in_while", None)
        for s in E.stores:
            if id(s) in self.heads0 and s.head is not self.heads0[id(s)]: raise Unsupported("array written in a while loop")
        loc = dict(self.frame.f_locals)
        for v in self.kept:
            if core.isreal(loc[v]) != core.isreal(self.kept[v]): raise Unsupported("'%s' changes its type in a while loop" % v)
        self.check("kept", loc)
        raise core.PathEnd()
class Env:
    """names visible to an invariant: current values of carried variables, others from the frame"""
    def __init__(self, loc, vals, k, dom, assuming=False):
        self.__dict__.update(_loc=loc, _vals=vals, k=k, lo=dom[0], hi=dom[1], _assuming=assuming)
    def __getattr__(self, n):
        if n in self._vals: return self._vals[n]
        if n in self._loc: return self._loc[n]
        raise Unsupported("invariant refers to '%s', which the loop no longer has" % n)
