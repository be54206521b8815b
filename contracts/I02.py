from contracts import bands, I01
EXPLANATION = "Row k of every output is shown to be a term over pattern k alone, stage by stage, each caller against the contracts of its callees. find_bands (stack or single pattern, any chunk size, with or without a background): chunks cover the stack and each row of bands is the stage functions of the pattern at the same position. rdn_conv: column q of the filtered transform and its mean come from column q of the transform only; rdn_local_max: marks of column q are decided by column q. index_pats with _getpats and _detectbands (an array, a single pattern or a file; part of the patterns or all): record k is the indexing result of the bands and normals of pattern patstart + k, as many records as patterns, start and count reported. _indexbandsphase (1 and 2 phases, early exit): every field of record k comes from the bands and normals of row k (tasks shared with I01). The Radon transform of a column is B01's contract; band_label per pattern is B02's."
ASSUMPTIONS = ["contracts on scipy.ndimage: gaussian_filter of a 2-D array is a function of that array; grey_dilation with window 1 along an axis is a function of that position and is the maximum over the window", "contract on the pattern file reader: rows patstart .. patstart + count (proved in F01, F02)", "the CPU path: gpu_id given or the OpenCL class is outside (no OpenCL here)", "floating point as real arithmetic; an early exit of the triplet search is shown not to leak between rows"]
def proofs(tier): return bands.find_proofs() + bands.index_proofs() + bands.stage_proofs() + [p for p in I01.proofs("quick") if p.name in ("1 phase, early exit set", "2 phases, early exit set")]
