from .rot import *
from .rot import _cmp
EXPLANATION = "Row framing: for an arbitrary batch size n >= 1 and an arbitrary row k, row k of the result is a term over row k of the input only, every array access is within bounds, the input store is unchanged. Checked on the same symbolic runs as R01/R02, for all converters and quaternion routines."
def frame(fname, src, insp, kw):
    def th(E, L):
        rl = L.load("pyebsdindex.rotlib")
        n, k = setup(E)
        a, M, g = (insp or INS[src])(E, n, k, **kw)
        r = getattr(rl, fname)(a)
        E.oblige("result has one entry per input row", _cmp("==", r.shape[0], n) if r.ndim > (2 if fname.endswith("om") else 1) else _cmp("==", n, 1))
        E.oblige("input is not modified", unmodified(a))
        if r.ndim > (2 if fname.endswith("om") else 1): E.row_effects(r, src + "_in", k)
    return th
PYR = [(2, 1), (2, -1), (0, 1), (0, -1), (1, 1), (1, -1)]
def framepyr(fname, src, ax, sg):
    """one of the six pyramids the cube/ball map is defined on (together they cover every input)"""
    def th(E, L):
        rl = L.load("pyebsdindex.rotlib")
        n, k = setup(E)
        h = [E.const("h%d" % i) for i in range(3)]
        big = core.mul(sg, h[ax])
        for i in range(3):
            if i != ax: E.assume(band(_cmp("<=", h[i], big), _cmp(">=", h[i], core.neg(big))))
        a = rows(E, src + "_in", n, k, h, (3,))
        r = getattr(rl, fname)(a)
        if r.ndim > 1:
            E.oblige("result has one entry per input row", _cmp("==", r.shape[0], n))
            E.row_effects(r, src + "_in", k)
        E.oblige("input is not modified", unmodified(a))
    return th
def frameho(fname, src):
    def th(E, L):
        rl = L.load("pyebsdindex.rotlib")
        n, k = setup(E)
        a = sarr(src + "_in", (n, 3))
        r = getattr(rl, fname)(a)
        if r.ndim > 1:
            E.oblige("result has one entry per input row", _cmp("==", r.shape[0], n))
            E.row_effects(r, src + "_in", k)
        E.oblige("input is not modified", unmodified(a))
    return th
def proofs(tier):
    out = [Proof("%s%s frame" % (f, "[unbounded length]" if insp is in_roinf else ""), ["rotlib." + f, "rotlib." + f + "L", "rotlib.prepIn"], frame(f, s, insp, kw)) for f, s, d, insp, kw in CONVS]
    out += [Proof("%s frame" % f, ["rotlib." + f], frame(f, f[:2], insp, {})) for f, insp in [("ax2ho", in_ax), ("qu2ho", in_quw), ("ro2ho", in_row)]]
    out += [Proof("ho2ax frame", ["rotlib.ho2ax", "rotlib.ho2axL"], frameho("ho2ax", "ho"), opaque_arc=True, maxdeg=6)]
    out += [Proof("%s frame [pyramid %d%s]" % (f, ax, "+" if sg > 0 else "-"), ["rotlib." + f, "rotlib." + f + "L"], framepyr(f, f[:2], ax, sg), opaque_arc=True, opaque_sqrt=True, maxdeg=2) for f in ("ho2cu", "cu2ho") for ax, sg in (PYR if tier == "thorough" else PYR[:1])]
    out += [Proof("quat_multiply %s" % nm, ["rotlib.quat_multiply"], qmul(1, a, b)) for a, b, nm in PAIRS]
    out += [Proof("quat_vector %s" % nm, ["rotlib.quat_vector"], qvec(1, a, b)) for a, b, nm in PAIRS]
    out += [Proof("quatconj", ["rotlib.quatconj", "rotlib.quatconjL"], qconj)]
    return out
