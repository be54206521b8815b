from .rot import *
EXPLANATION = "quat_multiply is executed symbolically for both handedness values and all three operand pairings with an arbitrary number of rows; each component equals the Hamilton (or reversed) product of the corresponding rows. Associativity, multiplicative norm and conjugate inverse are lemmas over that contract."
def proofs(tier):
    return [Proof("quat_multiply %s p=%d" % (nm, p), ["rotlib.quat_multiply", "rotlib.quat_multiplyL", "rotlib.quat_multiplyLNN", "rotlib.quat_multiplyL1N", "rotlib.prepIn"], qmul(p, a, b)) for p in (1, -1) for a, b, nm in PAIRS] + [
        Proof("quat_multiply1 p=%d" % p, ["rotlib.quat_multiply1"], qmul1(p)) for p in (1, -1)] + [Proof("quatconj", ["rotlib.quatconj", "rotlib.quatconjL"], qconj), Proof("algebra of the product", ["lemma"], qalg)]
