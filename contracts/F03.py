from pyvc import core, arrays
from pyvc.core import _cmp, band, bor, add, mul, sub
from pyvc.spec import *
EXPLANATION = "pat_flt2int runs on n >= 1 patterns of symbolic shape (or a single pattern) with arbitrary real or integer content, for each target type and method, with and without a scaling maximum. Every element conversion carries the obligation that the value fits the target type; for two arbitrary pixels of the stack the order is shown to be kept; the shape, the untouched input and, in clipping mode, the identity on in-range integers are further postconditions."
ASSUMPTIONS = ["np.max / np.min: attained by an element and a bound for every element", "rounding half to even in exact arithmetic"]
def conv(method, out, src, ndim, maxscale, sv=None):
    def th(E, L):
        ep = L.load("pyebsdindex.ebsd_pattern")
        n, H, W = [E.const(x, "i") for x in "nHW"]
        for d in (n, H, W): E.assume(d >= 1)
        sh = (n, H, W) if ndim == 3 else (H, W)
        dt = arrays.DTS[src]
        p = sarr("pat", sh, dt)
        def idx():
            t = [E.fresh("q", "i") for _ in sh]
            for q, d in zip(t, sh): E.fact(q.t >= 0); E.fact(q.t < d.t)
            return tuple(t)
        a, b = idx(), idx()
        if dt.kind != "f":
            lo, hi = arrays.DTS[src], None
            bits = 8 * dt.itemsize
            l, h = (0, 2 ** bits - 1) if dt.kind == "u" else (-2 ** (bits - 1), 2 ** (bits - 1) - 1)
            for q in (a, b):
                v = p[q]; E.fact(v.t >= l); E.fact(v.t <= h)
        kw = {}
        if maxscale:
            ms = E.const("maxScale", "r"); E.assume(ms > 0); kw["maxScale"] = ms
        if sv:
            s = E.const("scalevalue", "r"); E.assume(s > 0); kw["scalevalue"] = s
        if method != "clip": E.assumptions.add("scalevalue is positive")
        if out is None: r = ep.pat_flt2int(p, method=method, **kw)
        else: r = ep.pat_flt2int(p, typeout=arrays.DTS[out], method=method, **kw)
        same = len(r.shape) == len(sh) and band(*[_cmp("==", x, y) for x, y in zip(r.shape, sh)][:2]) and _cmp("==", r.shape[-1], W)
        E.oblige("shape is kept", band(len(r.shape) == len(sh), _cmp("==", r.shape[-1], W)))
        for x, y in zip(r.shape, sh): E.oblige("shape is kept", _cmp("==", x, y))
        E.oblige("the target type is an unsigned integer of 8 or 16 bits", r.dtype.name in (("uint8", "uint16") if out is None else (out,)))
        E.ext_at(*(a if ndim == 3 else (0,) + a)); E.ext_at(*(b if ndim == 3 else (0,) + b))
        top = {"uint8": 255, "uint16": 65535}[r.dtype.name]
        va, vb = r[a], r[b]
        E.oblige("value is within the target range", band(_cmp(">=", va, 0), _cmp("<=", va, top)))
        E.oblige("a brighter pixel never becomes darker", bor(_cmp(">", p[a], p[b]), _cmp("<=", va, vb)))
        if method == "clip" and dt.kind != "f" and not maxscale:
            E.oblige("an in-range integer is unchanged", bor(bnot(band(_cmp(">=", p[a], 0), _cmp("<=", p[a], top))), _cmp("==", va, p[a])))
        E.oblige("the input is not modified", unmodified(p))
    return th
def proofs(tier):
    out = []
    f = ["ebsd_pattern.pat_flt2int"]
    for m in ("clip", "fullscale", "scale"):
        for o in ("uint8", "uint16", None):
            for s in ("float32", "int64", "uint16"):
                for nd, ms in ((3, False), (2, False), (3, True)):
                    if s != "float32" and (nd == 2) : continue
                    out.append(Proof("pat_flt2int %s to %s from %s, %d-D%s" % (m, o or "guessed type", s, nd, ", maxScale" if ms else ""), f, conv(m, o, s, nd, ms, sv=(m != "clip")), wrap_obligations=True))
    return out
