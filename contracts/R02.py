from .rot import *
TRUST = ["bounded, not proved: ho2cu, cu2ho, eu2ax at Phi = pi exactly (concrete suite)"]
ASSUMPTIONS = ["conversions are stated for the default handedness p = 1"]
EXPLANATION = "Canonical-form postconditions of each direct converter, for every admissible row; composed converters end in a direct converter of the result type (composition obligations)."
def proofs(tier):
    return conv_proofs(True) + [Proof("composition %s" % f, ["rotlib." + f], composed(f)) for f in COMPOSED]
