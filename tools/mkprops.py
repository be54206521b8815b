import json
P=[]
def prop(id,title,statement,over,q,why,files,mech,observe=None,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if observe: a["observe_at"]=observe
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    a["hook_needed"]=None
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=q),why_tests_cant=why,anchors=a))

prop("R01","Orientation conversions preserve the physical rotation",
"Converting an orientation between any two supported representations (Bunge Euler angles, orientation matrix, unit quaternion, axis-angle, Rodrigues-Frank, homochoric, cubochoric) in the default convention yields a representation of the same physical rotation. This includes the identity, half-turns, the two Euler gimbal-lock configurations, and axis-angle input whose axis is not unit length or whose angle lies outside [0, pi].",
["inputs"],"every rotation, in every supported source and target representation, including the degenerate orientations",
"The stable tests never call most converters and only compare one indexed orientation against four Euler triples with a 2 degree tolerance; the identity holds only if it holds on a continuum of rotations and on measure-zero special cases.",
["pyebsdindex/rotlib.py"],[("direct converters","rotlib.py eu2omL..qu2hoL, ho2cuL, cu2hoL"),("composed converters","rotlib.py eu2ro..cu2qu"),("axis-angle and quaternion normalisation","rotlib.py axnormL, quatnormL")],["pyebsdindex.rotlib.*2*"])
prop("R02","Converted orientations are in canonical form",
"Every converted orientation is a well-formed member of its representation: matrices are proper orthogonal, quaternions have unit length and a non-negative scalar part, Euler angles satisfy 0<=phi1<2pi, 0<=Phi<=pi, 0<=phi2<2pi, axis-angle results have a unit axis and an angle in [0, pi]. Rodrigues results carry a unit axis and a non-negative length, and homochoric results stay inside the ball of radius (3pi/4)^(1/3).",
["inputs"],"every rotation in every source representation (and, for quaternion and axis-angle normalisation, every non-zero input)",
"Canonical ranges are boundary facts (signs, wrap-around, half-turns); the tests exercise one orientation.",
["pyebsdindex/rotlib.py"],[("normalisation","rotlib.py quatnormL, axnormL"),("angle wrapping","rotlib.py om2euL, qu2euL")],["pyebsdindex.rotlib.*2*","pyebsdindex.rotlib.quatnorm"])
prop("R03","Orientation routines treat every row of a batch independently",
"Applying any orientation conversion, normalisation, conjugation or quaternion operation to a batch of n items gives, for each item, exactly what applying it to that item alone gives. No item's result depends on the other items, their order or their number, the input arrays are left unmodified, and no memory outside the item's own row is read or written.",
["inputs"],"every batch length n>=1, every position in the batch, every content of the other rows including degenerate orientations",
"Cross-row corruption appears only for particular values at particular rows (for example an identity orientation in the middle of a batch); the tests use batches of identical orientations.",
["pyebsdindex/rotlib.py"],[("per-row loops","rotlib.py all *L functions: for i in prange(n)")],["pyebsdindex.rotlib"])
prop("R04","Quaternion product is the rotation-group multiplication",
"The quaternion product is the Hamilton product in the default handedness and the reversed (opposite) product in the other one, for every supported pairing of operands: N with N, one with N, and N with one. It is therefore associative, multiplicative in the norm, has the conjugate of a unit quaternion as inverse, and element k of the result only involves element k of the longer operand(s).",
["inputs"],"all quaternions (unit or not), both handedness settings, all batch sizes and all three pairings",
"Order and handedness errors in one pairing are invisible to tests that use only identity or equal-length operands; the stable tests never multiply quaternions directly.",
["pyebsdindex/rotlib.py"],[("pairing dispatch","rotlib.py quat_multiplyL"),("kernels","rotlib.py quat_multiplyLNN, quat_multiplyL1N, quat_multiply1, quatconjL")],["pyebsdindex.rotlib.quat_multiply","pyebsdindex.rotlib.quatconj"])
prop("R05","Rotating vectors by quaternions is a consistent group action",
"Rotating a vector by a unit quaternion equals multiplying it by the orientation matrix obtained from that quaternion, so lengths and dot products are preserved, and rotating by a product equals rotating in sequence. This holds for every pairing (N quaternions with N vectors, one with N, N with one), and the opposite handedness gives the inverse rotation.",
["inputs"],"all unit quaternions, all vectors, both handedness settings, all batch sizes and pairings",
"The tests do not check vector rotation; an error in one component or pairing only shows for generic data.",
["pyebsdindex/rotlib.py"],[("kernels","rotlib.py quat_vectorL, quat_vectorLNN, quat_vectorL1N, quat_vectorLN1, quat_vector1"),("matrix form","rotlib.py qu2omL")],["pyebsdindex.rotlib.quat_vector"])
prop("S01","Every space group maps to the right proper rotation group",
"For every space group number 1 to 230 the assigned Laue class is the crystallographically correct one, and the symmetry operators used for that class form a group of distinct proper rotations: they contain the identity, are closed under multiplication and inversion, have the order of the class, and map the conventional crystal axes of that class onto themselves. The operators are unit quaternions.",
["inputs","configurations"],"all 230 space groups and all 11 Laue classes, all pairs of operators",
"Tests look at one cubic phase; a wrong component in one operator of one class, or an off-by-one in a space-group range, affects only some phases.",
["pyebsdindex/crystal_sym.py"],[("operator tables","crystal_sym.py laue*/symops functions"),("space group table","crystal_sym.py spacegroup2lauenumber")],["pyebsdindex.crystal_sym"])
prop("S02","Three- and four-index hexagonal notation are exact inverses",
"Converting hexagonal/trigonal plane or direction indices between three- and four-index notation is lossless: the third four-index entry is minus the sum of the first two, and converting there and back returns the original plane, and the same direction up to a positive common factor. Every row of a list of indices is converted independently.",
["inputs"],"all integer index triples and quadruples, all list lengths",
"Only a handful of literal index lists exist in the tests.",
["pyebsdindex/crystal_sym.py"],[("index converters","crystal_sym.py hex3/hex4 pole conversions")],["pyebsdindex.crystal_sym"])
prop("C01","Crystal metric and structure matrices are mutually consistent",
"For every non-degenerate unit cell, the direct and reciprocal metric tensors are inverse to each other, the direct structure matrix reproduces the direct metric and the reciprocal structure matrix is its inverse transpose and reproduces the reciprocal metric. Consequently plane spacings, interplanar angles and Cartesian plane normals and directions computed from them agree with the crystallographic definitions.",
["inputs"],"all lattice parameters of a non-degenerate triclinic cell (all crystal systems included), all plane and direction indices",
"The identities are over six continuous lattice parameters; the tests only use one cubic phase, where most terms vanish.",
["pyebsdindex/crystallometry.py"],[("matrices","crystallometry.py Crystal")],["pyebsdindex.crystallometry.Crystal"])
prop("T01","Reflector families expand to the complete set of distinct planes",
"For every phase, each reflector family expands, by the phase's symmetry operators, to exactly its set of symmetry-equivalent plane normals, both senses of every plane, each exactly once: no duplicates, none missing. Each plane is attributed to the family that generated it, and the Cartesian unit normal stored for it is the normal of exactly that plane for the phase's lattice.",
["inputs","configurations"],"all Laue classes, lattice parameters and reflector family lists",
"The tests add cubic and hexagonal phases with default families only and never compare the expansion against the symmetry group.",
["pyebsdindex/tripletvote.py","pyebsdindex/crystal_sym.py","pyebsdindex/crystallometry.py"],[("expansion","tripletvote.py BandIndexer.build_trip_lib, _symrotpoles, _hkl_unique")],["BandIndexer.completelib"])
prop("T02","The angle-triplet library is complete, ordered and correctly labelled",
"The triplet library of a phase contains every distinct combination of three interplanar angles that three of its planes can form, with angles in ascending order and each triplet's family labels ordered so that label k names the family of the plane shared by the angles (first and second, first and third, second and third). The lookup permutation applied at indexing time orders the family labels of a measured triplet the same way.",
["inputs","configurations"],"all phases, all triples of planes, all orderings of three measured angles",
"An ordering error affects only triples with distinct families in one of six orderings; tests observe only a final orientation.",
["pyebsdindex/tripletvote.py"],[("library build","tripletvote.py build_trip_lib, _sortlib_id"),("lookup","tripletvote.py _tripvote_numba")],["BandIndexer.tripAngles/tripID"])
prop("T03","Bands are labelled and counted only when they fit within tolerance",
"When bands are matched to a phase, every band reported as matched lies within the angular tolerance of the reflector it is labelled with under the reported orientation's matching step, unmatched bands carry no label, and the reported number of matched bands equals the number of labelled bands and never exceeds the number of valid bands supplied; invalid bands are never labelled. When no consistent labelling exists the pattern is reported as not indexed by that phase (no matched bands, a fit of 180 degrees) instead of with an arbitrary orientation.",
["inputs"],"all sets of measured band normals (any number of bands, any intensities), all phases",
"The tests index one clean pattern; near-tolerance bands, too few bands and conflicting votes need adversarial inputs.",
["pyebsdindex/tripletvote.py"],[("voting","tripletvote.py _tripvote_numba"),("assignment","tripletvote.py _assign_bands_nb, bandindex")],["BandIndexer.bandindex"])
prop("T04","The solved orientation is the least-squares rotation of the matched bands",
"The orientation returned for a set of three or more matched bands is a unit quaternion with non-negative scalar part that rotates the reference plane normals onto the measured ones: exactly so for noise-free data, and otherwise maximising the weighted agreement. It does not depend on the order in which the bands are supplied, and rotating all measured bands by a common rotation rotates the result accordingly.",
["inputs"],"all sets of at least three weighted vector pairs that are not all parallel, including half-turn rotations",
"The optimum is defined over all rotations; special angles (180 degrees) are singular for the solver and not covered by tests.",
["pyebsdindex/tripletvote.py"],[("solver","tripletvote.py _orientation_quest_nb, _calc_quest_weights, orientation_refine")],["BandIndexer"])
prop("I01","Indexing results are complete and internally consistent for every pattern",
"For n patterns and m phases, indexing returns one record per pattern for each phase plus a best-phase layer; the best-phase record of each pattern is identical to that pattern's record in the phase layer it names, and no other indexed phase layer scores better for it (score: matched bands times three degrees less the fit). A pattern no phase indexes is flagged with a negative phase and a fit of 180 or more rather than given a phase.",
["inputs","configurations"],"all pattern stacks, all phase lists, any mixture of indexable and non-indexable patterns",
"Tests index one pattern with one phase; selection between phases and flagging of failures need mixtures.",
["pyebsdindex/_ebsd_index_single.py"],[("per-phase loop and selection","_ebsd_index_single.py EBSDIndexer._indexbandsphase, index_pats")],["EBSDIndexer.index_pats"])
prop("I02","Each pattern is indexed independently of the rest of the scan",
"The detected bands and the indexing result of a pattern depend only on that pattern and the settings: they are the same whether it is processed alone, in any batch, at any position, or with any chunk size, and each output row refers to the input pattern at the same position.",
["inputs","schedules"],"all batch sizes, positions and internal chunk sizes, patterns of any content including blank ones",
"Tests use a single pattern or four copies of the same pattern, so any mixing or shifting between rows is invisible.",
["pyebsdindex/_ebsd_index_single.py","pyebsdindex/band_detect.py","pyebsdindex/radon_fast.py"],[("chunking","band_detect.py BandDetect.find_bands"),("per-pattern loop","_ebsd_index_single.py _indexbandsphase")],["EBSDIndexer.index_pats","BandDetect.find_bands"])
prop("I03","Pattern-centre conventions describe the same detector geometry",
"A pattern centre expressed in any supported vendor convention and the same physical centre expressed in another give the same band normals from the same detected bands, for every pattern shape. Each band normal is a unit vector perpendicular to the plane through the source point and the detected line, also when a separate pattern centre is given per pattern.",
["inputs","configurations"],"all detector shapes (square or not), all pattern centres, all vendor conventions, all line parameters",
"Tests use one convention and one pattern shape.",
["pyebsdindex/radon_fast.py"],[("convention handling","radon_fast.py Radon.radon2pole")],["Radon.radon2pole"])
prop("B01","The Radon transform averages exactly the unmasked pixels on each line",
"Every entry of the Radon transform is the mean of the pattern's unmasked pixels on the corresponding line, and the plan's missing value where a line meets no such pixel: a constant pattern maps to the same constant, the transform is linear in the pattern, and masked or out-of-frame pixels never contribute. All patterns of a stack are transformed identically and the input is not modified.",
["inputs","configurations"],"all pattern contents, shapes, masks, angular/radial samplings and stack sizes",
"Tests do not look at the transform at all.",
["pyebsdindex/radon_fast.py"],[("plan","radon_fast.py Radon.radon_plan_setup"),("accumulation","radon_fast.py rdn_loops")],["Radon.radon_fast","Radon.radon_faster"])
prop("B02","Detected bands are genuine, ranked and correctly located maxima",
"For each pattern the reported bands are ordered by decreasing strength, valid bands precede invalid ones and are distinct local maxima inside the searched region, and no local maximum stronger than a reported one is omitted. The sub-pixel position of each lies within one sample of its maximum and its angle and distance are the coordinates of that position; fewer maxima than requested leaves the remaining entries flagged invalid, and a flat transform yields none.",
["inputs"],"all filtered transforms, numbers of requested bands, and patterns with fewer maxima than requested (including flat patterns)",
"The single test pattern has many strong bands well inside the region; edges, ties and shortages are not exercised.",
["pyebsdindex/band_detect.py"],[("peak search","band_detect.py rdn_local_max, band_label, band_label_numba")],["BandDetect.find_bands"])
prop("N01","NLPAR output is a convex average of patterns inside the search window",
"Every denoised pattern is, pixel by pixel, a weighted mean with non-negative weights summing to one of original patterns lying in the scan and within the search window of that point (2r+1 by 2r+1 points, shifted where needed so that it stays inside the scan), with the point itself included; the weight of a pattern is the documented function of its own difference to the point's pattern and of the noise of the two, and of nothing else. Hence values never leave the range spanned by the window, a window of identical patterns is reproduced, and patterns outside the window or scan have no influence, for every scan size including scans smaller than the window.",
["inputs","configurations"],"all scan sizes, search radii, smoothing parameters, noise levels, masks and pattern contents",
"No stable test calls the denoiser.",
["pyebsdindex/nlpar_cpu.py"],[("kernel","nlpar_cpu.py nlpar_nb"),("driver","nlpar_cpu.py NLPAR.calcnlpar")],["NLPAR.calcnlpar"])
prop("N02","NLPAR writes every pattern exactly once regardless of chunking",
"Denoising a scan writes a result for every pattern of the scan at its own position, and the result at each position does not depend on how the scan is split into chunks of rows or tiles. Tilings used for splitting cover every scan position, stay inside the scan and include the full search margin around each position they own.",
["inputs","configurations"],"all scan dimensions, chunk sizes and search radii",
"No stable test calls the denoiser; edge chunks depend on divisibility relations between scan size, chunk size and radius.",
["pyebsdindex/nlpar_cpu.py"],[("row chunks","nlpar_cpu.py NLPAR.calcnlpar, calcsigma"),("tiling","nlpar_cpu.py NLPAR._calcchunks")],["NLPAR.calcnlpar","NLPAR._calcchunks"])
prop("N03","The noise estimate of a point is its smallest neighbour difference",
"The noise level estimated for a scan point is the smallest root-mean-square difference (over unmasked pixels, saturated ones left out), divided by the square root of two, between its pattern and the pattern of any other point in its neighbourhood window inside the scan. Duplicates (a summed squared difference below 1e-3) are ignored, and a point without a usable neighbour gets a huge value (1e12). It is non-negative, scales linearly with intensity, and does not depend on how the scan is split into chunks.",
["inputs","configurations"],"all scan sizes, neighbourhood radii, masks, chunk sizes and pattern contents",
"No stable test calls the noise estimator.",
["pyebsdindex/nlpar_cpu.py"],[("kernel","nlpar_cpu.py sigma_numba"),("driver","nlpar_cpu.py NLPAR.calcsigma")],["NLPAR.calcsigma"])
prop("F01","Patterns written to a file are read back unchanged",
"Writing patterns to any supported writable pattern file at any position and reading those positions back returns the same values bit for bit when they fit the file's data type; positions not written keep their previous content, and the header read back equals the header written. Reading never returns a pattern other than the one stored at the requested position.",
["inputs","histories"],"all pattern shapes, data types, scan sizes, file format versions and sequences of partial writes",
"No stable test touches a pattern file.",
["pyebsdindex/ebsd_pattern.py"],[("UP files","ebsd_pattern.py UPFile"),("EBSP files","ebsd_pattern.py EBSPFile"),("HDF5 files","ebsd_pattern.py HDF5PatFile"),("TF files","ebsd_pattern.py TFPatFile")],["EBSDPatternFile.read_data","EBSDPatternFile.write_data"])
prop("F02","Range and slab selections address exactly the requested scan positions",
"Reading or writing a run of patterns by start and count, or a rectangular slab by column/row start and size, touches exactly the positions requested, clipped to the scan, in row-major order; negative sizes mean up to the end. The coordinates returned with each pattern are those of its own scan position.",
["inputs"],"all scan dimensions, starts and counts including clipped and open-ended ones",
"No stable test touches a pattern file; errors show only for clipped or non-square selections.",
["pyebsdindex/ebsd_pattern.py"],[("selection arithmetic","ebsd_pattern.py EBSDPatternFile.read_data, write_data")],["EBSDPatternFile.read_data","EBSDPatternFile.write_data"])
prop("F03","Conversion of pattern intensities to integers never wraps and keeps order",
"Converting floating-point or wider patterns to 8- or 16-bit integers always yields values within the target range without wrap-around, is monotone within a stack (a brighter pixel never becomes darker than a dimmer one), preserves shape, leaves in-range integers unchanged in clipping mode, and does not modify its input.",
["inputs"],"all pattern stacks (negative, constant, very large or fractional values), both integer types, all scaling modes",
"No stable test calls the conversion.",
["pyebsdindex/ebsd_pattern.py"],[("conversion","ebsd_pattern.py pat_flt2int")],["ebsd_pattern.pat_flt2int"])
prop("O01","Exported result files describe every scan point faithfully",
"An exported result file has one entry per scan point, in scan order, with position column*step and row*step, the Euler angles of its best orientation, and its quality, confidence, fit and phase values; unindexed points are marked as such (a confidence of -1) and never carry the number of a phase. Phase numbering in the data agrees with the phase list in the header (except that an ANG file of a single phase customarily has 0 for every point), and exporting does not alter the results in memory.",
["inputs","configurations"],"all result tables (any number of phases, mixtures of indexed and unindexed points), scan dimensions and step sizes",
"No stable test writes a result file.",
["pyebsdindex/ebsdfile.py"],[("ANG writer","ebsdfile.py writeang"),("OH5 writer","ebsdfile.py writeoh5")],["ebsdfile.writeang","ebsdfile.writeoh5"])
prop("P01","Pattern-centre optimisation returns the best centre it evaluated, within bounds",
"The swarm optimiser only evaluates positions inside the given bounds, its reported best value never increases, and it returns the position at which that best value was actually obtained. Converting a pattern centre to the internal convention and back is the identity for every pattern shape, and the indexer's settings are restored afterwards.",
["inputs","histories"],"all objective functions, bounds, swarm settings and random draws; all detector shapes and centres",
"The two stable tests run one short optimisation on one image and compare loosely.",
["pyebsdindex/pcopt.py"],[("swarm","pcopt.py PSOOpt"),("convention round trip","pcopt.py optimize, optimize_pso")],["pcopt.optimize","pcopt.optimize_pso"])
prop("K01","IPF colours are valid and respect crystal symmetry",
"Inverse-pole-figure colouring yields red, green and blue values in [0, 1] for every orientation and sample direction, and symmetry-equivalent orientations (and opposite crystal directions) of the same phase get the same colour. Every scan point is coloured from its own orientation, and points not indexed are black.",
["inputs","configurations"],"all orientations and sample directions, cubic and hexagonal phases, any scan shape",
"No stable test makes an IPF map.",
["pyebsdindex/EBSDImage/IPFcolor.py"],[("colour keys","IPFcolor.py ipf_color_cubic, ipf_color_hex"),("map","IPFcolor.py makeipf")],["IPFcolor.makeipf"])
prop("D01","Distributed indexing returns the serial result for every pattern",
"Distributing a scan over workers partitions the requested patterns into jobs that cover each exactly once, and the assembled output holds for every pattern the same result as indexing it serially, in the same position, whatever the job size, number of workers or completion order.",
["inputs","schedules"],"all pattern counts, chunk sizes, worker counts and completion orders",
"The stable test distributes four identical patterns, so loss, duplication or permutation of jobs is invisible.",
["pyebsdindex/_ebsd_index_parallel.py"],[("job partition and assembly","_ebsd_index_parallel.py index_pats_distributed")],["index_pats_distributed"])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P))
