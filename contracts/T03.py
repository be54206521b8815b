"""labelling of bands"""
import types
from pyvc import core, arrays
from pyvc.core import _cmp, band, bor, bnot, add, sub, mul, S
from pyvc.spec import *
from contracts.files import obj
LEVEL = "exploration"
EXPLANATION = "PROVED by tasks: bandindex (one pattern or any number, refined or not, intensities given or left out) votes, matches, weighs and refines with the library and the tolerance of the phase and with the bands and intensities given; a band found valid by the matching step carries its label and any other band a negative one (no label); the number of matched bands is that of the matching step; the orientation is that of the solver and the fit the angle of its mean agreement, 180 degrees for a pattern without orientation (agreement -1: T04). BOUNDED: the matching step itself (_assign_bands_nb, four nested loops with data-dependent jumps out of two of them) and the voting kernel, by the suite on the real code; the level of the property stays exploration for these."
ASSUMPTIONS = ["contracts of _tripvote_numba, _assign_bands_nb and _calc_cm (bounded suite), of _refine_orientation_quest (T04) and of np.argsort (an array of positions of the same shape)"]
Z, R = z3.IntSort(), z3.RealSort()
TRI = "pyebsdindex.tripletvote"
def fn(name, shape, dt=None):
    srt = {"f": R, "b": z3.BoolSort()}.get((dt or arrays.F64).kind, Z)
    f = z3.Function(name, *([Z] * len(shape) + [srt]))
    return marr(name, shape, lambda i: S(f(*[lift(x) for x in i])), dt), f
def same(E, a, b, name):
    """the array handed over is the one meant, at an arbitrary position"""
    a = arrays.asarray(a)
    if a is b: return E.oblige(name, True)
    E.oblige(name + " (dimensions)", len(a.shape) == len(b.shape))
    if len(a.shape) != len(b.shape): raise core.PathEnd()
    ix = []
    for n, k in zip(b.shape, a.shape):
        E.oblige(name + " (shape)", _cmp("==", n, k))
        ix.append(E.fresh("at", "i")); E.fact(z3.And(ix[-1].t >= 0, lift(_cmp("<", ix[-1], n))))
    E.oblige(name, _cmp("==", a[tuple(ix)], b[tuple(ix)]))
def bandindex(single, hifi, given):
    def th(E, L):
        m = L.load(TRI)
        n = 1 if single else E.const("npats", "i")
        nb, nl, nf = E.const("nbands", "i"), E.const("nlib", "i"), E.const("nfam", "i")
        for v in (n, nb, nl, nf): E.assume(_cmp(">=", v, 1))
        norms, NF = fn("NORM", (nb, 3) if single else (n, nb, 3))
        norms3 = marr("n3", (n, nb, 3), lambda i: norms[i[1], i[2]]) if single else norms
        inten, IF = fn("INTENS", (nb,) if single else (n, nb), arrays.F32)
        inten2 = (marr("i2", (n, nb), lambda i: inten[i[1]], arrays.F32) if single else inten) if given else marr("ones", (n, nb), lambda i: Fraction(1))
        b = obj(m, "BandIndexer")
        b.polefamilies, _ = fn("FAMS", (nf, 3)); b.high_fidelity = hifi; b.angTol = E.const("tol"); b.nband_earlyexit = E.const("early", "i"); b.lut = object()
        famid, FID = fn("FID", (nl,), arrays.DTS["int32"])
        lib = b.completelib = {"poles": object(), "polesCart": fn("CART", (nl, 3))[0], "familyid": famid, "angTable": fn("ANGT", (nl, nl))[0], "nFamily": object(), "famIndex": object()}
        b.angtriplets = {"angles": object(), "familyid": object()}
        b.angpairs = {"angles": object(), "familyid": object()}
        acc, anw, cm0 = fn("ACC", (n, nf, nb))[0], fn("ACCNW", (n, nf, nb))[0], fn("CM0", (n, nb))[0]
        bfam, _ = fn("BFAM", (n, nb), arrays.I64); rank, _ = fn("RANK", (n, nb))
        arg, _ = fn("RANKARG", (n, nb), arrays.I64)
        calls = []
        def vote(bn, bi, lut, tol, ta, ti, nfam):
            calls.append("vote")
            same(E, bn, norms3, "votes are taken from the bands given"); same(E, bi, inten2, "with their intensities")
            E.oblige("votes use the library of the phase", lut is b.lut and ta is b.angtriplets["angles"] and ti is b.angtriplets["familyid"])
            E.oblige("votes use the tolerance of the phase", _cmp("==", tol, b.angTol)); E.oblige("number of families", _cmp("==", nfam, nf))
            return acc, bfam, rank, cm0, anw
        def argsort(a, axis=-1, **k):
            if a is not rank or axis not in (1, -1): raise Unsupported("argsort")
            return arg
        m.np.argsort = argsort
        MF, VF = z3.Function("LABEL", Z, Z, Z), z3.Function("VALID", Z, Z, Z)
        def lab(i):
            v = S(MF(*[lift(x) for x in i])); E.fact(lift(_cmp("<", v, nl))); return v
        label = marr("label", (n, nb), lab, arrays.I64)
        valid = marr("valid", (n, nb), lambda i: S(VF(*[lift(x) for x in i])), arrays.I64)
        fit0, _ = fn("FIT0", (n,)); nmatch, NM = fn("NMATCH", (n,), arrays.I64); ij, RR, fb = object(), object(), object()
        def assign(cart, angt, famx, nfam, tol, early, bn, ra, bf, bi):
            calls.append("assign")
            E.oblige("bands are matched to the library of the phase", cart is lib["polesCart"] and angt is lib["angTable"] and famx is lib["famIndex"] and nfam is lib["nFamily"])
            E.oblige("bands are matched within the tolerance of the phase", _cmp("==", tol, b.angTol)); E.oblige("bands to try", _cmp("==", early, b.nband_earlyexit))
            same(E, bn, norms3, "the bands given are matched"); same(E, bf, bfam, "with the families voted for"); same(E, bi, inten2, "matched with their intensities"); same(E, ra, arg, "in the order of their votes")
            return fit0, label, valid, nmatch, object(), ij, RR, fb
        wts = object()
        def quest_weights(fid, a, an, pm, pv, bi, nfit=6):
            calls.append("weights")
            E.oblige("weights are taken from the votes and the matches", fid is famid and a is acc and an is anw); same(E, pm, label, "weights: labels"); same(E, pv, valid, "weights: validity"); same(E, bi, inten2, "weights: intensities")
            return wts
        q1, QF = fn("Q1", (n, 4)); f1, FF = fn("FIT1", (n,))
        def refine(cart, bn, pm, pv, weights=None):
            calls.append("refine")
            E.oblige("refined against the library with the weights of the matches", cart is lib["polesCart"] and weights is wts)
            same(E, bn, norms3, "refined from the bands given"); same(E, pm, label, "refined: labels"); same(E, pv, valid, "refined: validity")
            return q1, f1
        b._tripvote_numba, b._assign_bands_nb, b._calc_quest_weights, b._refine_orientation_quest = vote, assign, quest_weights, refine
        qr, _ = fn("Q0", (n, 4))
        m.rotlib.om2qu = lambda x: (E.oblige("orientation of the matching step", x is RR), qr)[1]
        cm, _ = fn("CM", (n,))
        def calc_cm(a, pm, pv, fid):
            E.oblige("confidence from the votes and the matches", a is acc and fid is famid); same(E, pm, label, "confidence: labels"); same(E, pv, valid, "confidence: validity")
            return cm
        b._calc_cm = calc_cm
        kw = {"band_intensity": inten} if given else {}
        q, fit, c, pm, nm, ij2, acor = b.bandindex(norms, **kw)
        p, i = E.row(0, n) if not conc(n) else 0, E.row(0, nb)
        E.oblige("one label for every band of every pattern", band(_cmp("==", pm.shape[0], n), _cmp("==", pm.shape[1], nb)))
        ok = S(VF(lift(p), lift(i))) > 0
        E.oblige("a matched band carries its label", S(z3.Implies(ok.t, lift(_cmp("==", pm[p, i], S(MF(lift(p), lift(i))))))))
        E.oblige("an unmatched band carries no label", S(z3.Implies(z3.Not(ok.t), lift(_cmp("<", pm[p, i], 0)))))
        E.oblige("number of matched bands is that of the matching step", _cmp("==", nm[p], nmatch[p]))
        E.oblige("matching steps in order", calls == (["vote", "assign", "weights", "refine"] if hifi else ["vote", "assign"]))
        for k in range(4): E.oblige("orientation (%d)" % k, _cmp("==", q[p, k], (q1 if hifi else qr)[p, k]))
        if hifi:
            f = f1[p]
            E.oblige("an agreement of -1 (no orientation) is a fit of 180 degrees", S(z3.Implies(lift(_cmp("==", f, -1)), lift(_cmp("==", mul(fit[p], 1), Fraction(180))))))
            E.oblige("the fit is an angle between 0 and 180 degrees", band(_cmp(">=", fit[p], 0), _cmp("<=", fit[p], 180)))
        else: E.oblige("fit of the matching step", _cmp("==", fit[p], fit0[p]))
        E.oblige("confidence", _cmp("==", c[p], cm[p]))
        E.oblige("inputs are not modified", unmodified(norms) and unmodified(inten))
    return th
def proofs(tier):
    f = ["tripletvote.BandIndexer.bandindex"]
    return [Proof("bandindex, %s, %s, intensities %s" % ("one pattern" if s else "any number of patterns", "refined" if h else "not refined", "given" if g else "left out"), f, bandindex(s, h, g)) for s in (False, True) for h in (True, False) for g in (True, False)]
