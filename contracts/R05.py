from .rot import *
EXPLANATION = "quat_vector is executed symbolically for both handedness values and all three pairings; each component equals the orientation matrix of the (conjugated) unit quaternion times the vector. qu2om's contract gives the same matrix; the action law is a lemma."
def qu2om_matrix(E, L):
    conv("qu2om", "qu", "om", False)(E, L)
def proofs(tier):
    fs = ["rotlib.quat_vector", "rotlib.quat_vectorL", "rotlib.quat_vectorLNN", "rotlib.quat_vectorL1N", "rotlib.quat_vectorLN1", "rotlib.prepIn"]
    return [Proof("quat_vector %s p=%d" % (nm, p), fs, qvec(p, a, b)) for p in (1, -1) for a, b, nm in PAIRS] + [Proof("quat_vector1 p=%d" % p, ["rotlib.quat_vector1"], qvec1(p)) for p in (1, -1)] + [
        Proof("qu2om gives the same matrix", ["rotlib.qu2om", "rotlib.qu2omL"], qu2om_matrix), Proof("action law", ["lemma"], qaction)]
