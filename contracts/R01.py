from .rot import *
TRUST = ["bounded, not proved: accuracy of the polynomial in ho2ax, ho2cu, cu2ho, eu2ax at Phi = pi exactly (concrete suite)"]
ASSUMPTIONS = ["conversions are stated for the default handedness p = 1"]
EXPLANATION = "Each direct converter is executed symbolically on row k of a batch of n rows holding a ghost rotation; the postcondition says the result stands for the same rotation. Composed converters are checked against the contracts of their callees."
def proofs(tier):
    return conv_proofs(False) + [Proof("composition %s" % f, ["rotlib." + f], composed(f)) for f in COMPOSED]
