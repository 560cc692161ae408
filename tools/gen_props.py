#!/usr/bin/env python3
"""Single source for properties.jsonl (regenerate with: python3 tools/gen_props.py)."""
import json, os
R = "rust/src/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if observe: a["observe_at"] = observe
    if state: a["state"] = state
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

W, EQ, FW, MA, FO, SY = (R+"sequences/williamson.rs", R+"sequences/equivalence.rs", R+"find/find_write.rs",
    R+"sequences/matching.rs", R+"sequences/fourier.rs", R+"sequences/symmetries.rs")
FU, RS, SQ, MT, ME, MAIN = (R+"find/find_unique.rs", R+"sequences/rowsum.rs", R+"sequences/sequence.rs",
    R+"sequences/matrices.rs", R+"sequences/matrix_equivalence.rs", R+"main.rs")

p("C01", "Reported quadruples satisfy the complete definition of their type",
  "A quadruple is reported by a search only after the complete defining condition of the requested type has been decided true on exactly the four sequences that are reported: perfection of the quaternion sequence for quaternion-type, complementarity plus amicability for Williamson-type, complementarity plus symmetry for Williamson. The conversion to Hadamard matrices refuses input that does not satisfy the condition of its type. A type without an implemented definition never yields a result.",
  ["inputs"], "every candidate quadruple of every length, every sequence type, every search entry point",
  "tests call predicates on a few small examples; no test runs the join, the brute-force searches' acceptance branch or the matrix conversion, and none covers all candidates",
  [FW, FU, R+"find/find_williamson.rs", R+"find/find_optim.rs", R+"find/find_naive.rs", ME, MAIN, W],
  [("guard selected per type before a match is kept", FW+": join_pairs_files"), ("acceptance test in the exhaustive searches", "rust/src/find/*: find_recursive"),
   ("assertion before building Hadamard matrices", ME+": hadamard_equivalence_from_file"), ("type dispatch of the verifier", W+": QuadSeq::verify")],
  ["result vectors of the join and the searches"])

p("C02", "Type predicates decide their definition exactly at every offset",
  "For every length, the predicates for periodic complementarity, amicability, the quaternion-type cross-correlation condition, symmetry and perfection return true exactly when the defining identity holds for every offset (for perfection and symmetry: every offset up to mirror images). No offset, no sequence and no pair of sequences is exempt, and no predicate demands more than its definition.",
  ["inputs"], "all +-1 quadruples of every length n >= 1 and all offsets",
  "tests evaluate the predicates on a handful of sequences of length below 20; a predicate that skips one offset or one of the six pairs for some lengths agrees on all of them",
  [W, SQ, MA, FW], [("offset loops with early false", W+": is_periodic_complementary, is_amicable, verify_cross_correlation, is_symmetric"), ("quaternion perfection", SQ+": QS::is_perfect, is_odd_perfect, is_symmetric"), ("one-sequence symmetry filter", FW+": symmetric")],
  ["boolean result of each predicate"])

p("C03", "Correlations and row sums are exact for every length",
  "Periodic auto- and cross-correlation at offset t equal the exact integer sums of x[i]*x[i+t mod n] and x[i]*y[i-t mod n] over all n cyclic positions, for every length and every offset below the length, without intermediate overflow; row sums equal the exact integer sum of the entries. The quaternion auto-correlations use every position once, with the conjugate on the shifted factor and, for the odd variant, a sign change exactly on wrap-around.",
  ["inputs"], "all sequences of every length and all offsets 0 <= t < n",
  "the tests compare a few values at small length; accumulating in a narrow type, an off-by-one in the cyclic index for t = 0 or large n, or a dropped position needs other lengths or offsets",
  [W, SQ, RS, MA], [("correlation loops", W+": periodic_autocorrelation, cross_correlation"), ("quaternion correlations", SQ+": QS::periodic_autocorrelation, QS::odd_periodic_autocorrelation"), ("row sum", RS+": rowsum"), ("per-pair correlation vectors", MA+": compute_auto_correlation_pair, compute_cross_correlations")],
  ["return values"])

p("C04", "Sequence encodings are bijective and mutually inverse",
  "The 16 sign quadruples, the 16 quaternions used for them and the characters written for them are in one-to-one correspondence, the two conversion directions use the same correspondence, and it is the documented alphabet; for every one of the 24 symbols, reading a written symbol gives back the same quaternion. The conversion of a quadruple of sequences to a quaternion sequence and back is the identity, position by position.",
  ["inputs"], "all 16 sign quadruples, all 24 symbols, every position of every sequence",
  "tests convert a few sequences that need not contain every symbol; swapped table rows that agree between the two directions change results without failing a round trip",
  [W, SQ, "README.md"], [("table of quadruples", W+": QUADRUPLETS, quaternion_to_quad, QuadSeq::to_qs, QuadSeq::from_pqs"), ("table of quaternions and characters", SQ+": QPLUS, Q24, Q24_STRING, QS::from_str, quaternion_to_string")],
  ["result.seq lines, QuadSeq values"])

p("C05", "Every equivalence operation maps valid quadruples to valid quadruples",
  "For every type, every quadruple produced by one of that type's equivalence operations from a valid quadruple of the type is again valid for the type, for every length. Operations that are only sound for even length produce nothing new for odd length.",
  ["inputs"], "all valid quadruples of every length, all operations listed for each type, both plain and symbolic use",
  "validity of produced sequences is only debug-asserted, and the suite runs them on a few base sequences; the operations compose index maps, permutations and sign changes whose legality depends on parity and length",
  [EQ, SY], [("per-type operation list", SY+": SequenceType::equivalences"), ("operations", EQ+": equivalent_*"), ("generator list for canonical representatives", FU+": reduce_to_canonical_reps")],
  ["the sets returned by the operations"])

p("C06", "The operations of a type generate its whole documented equivalence",
  "The operations used for a type generate the complete equivalence of that type: all cyclic shifts, all index multiplications by units modulo n, alternating negation and half shifts for even n, and for quaternion-type negate-and-swap, for Williamson and Williamson-type all sign changes and reorderings. No shift amount, unit, sequence or pair of sequences is left out, for any supported length.",
  ["inputs"], "every length and every type; every element of the documented generating set",
  "class sizes are compared for a few lengths only; a missing unit, shift or pair changes the classes only for other lengths or for asymmetric inputs",
  [EQ, SY, FU], [("generator lists", SY+": SequenceType::equivalences; "+FU+": reduce_to_canonical_reps"), ("unit table", EQ+": COPRIMES, coprime"), ("loops over couples, tags and offsets", EQ+": equivalent_*"), ("closure", EQ+": generate_equivalence_class")],
  ["equivalence classes"])

p("C07", "Canonicalisation only applies legal moves",
  "The canonical form of a quadruple under negate-and-swap is reached from it by sign changes and swaps whose combined number is even in the sense of that operation, on every path, and the canonical form under single negations and swaps by sign changes and swaps only; the multiset of sequences up to sign is preserved. The canonical form of a valid quadruple is therefore equivalent to it, for every input and every length.",
  ["inputs"], "all quadruples of every length, every path through the canonicalisation",
  "the tests run about a dozen quadruples; the tie branches (duplicates, equal prefixes) and the sign bookkeeping differ per path",
  [EQ, W], [("canonicalisation steps", EQ+": ns_canonical, sn_ss_canonical, swap, negated"), ("duplicate test", W+": QuadSeq::has_duplicate_seq")],
  ["canonical form returned"])

p("C08", "Representatives come from one total lexicographic order",
  "All comparisons that select a representative use the same strict total order: the lexicographic order on the concatenation of the four sequences W, X, Y, Z, of any length. The representative of a class is its minimum under that order whatever order a hash set is iterated in.",
  ["inputs", "schedules"], "all pairs of equal-length quadruples; every iteration order of the hash sets holding a class",
  "hash iteration order is randomised per run and tests compare few pairs; a comparison that ignores the tail of a sequence or a later sequence agrees on almost all sampled pairs",
  [EQ, W, FU], [("comparisons", EQ+": will_less_than, will_less_than_aux, seq_less_than"), ("minimum selection", EQ+": generate_canonical_representative, qt_canonical; "+FU+": find_minimum")],
  ["representatives in the output"])

p("C09", "The symmetry group applied to a sequence equals applying the operations",
  "The symbolic symmetry group labels the 4n entries with distinct non-zero signed labels, and applying a group element to a quadruple places at every position the entry named by the label, negated exactly when the label is negative. The class obtained through the symmetry group is thus the class obtained by applying the operations to the quadruple directly, for every length.",
  ["inputs"], "every length n and every group element and position",
  "compared on a few short lengths; label width and label decoding depend on n",
  [EQ], [("labelling", EQ+": generate_symmetry_group"), ("application", EQ+": generate_equivalence_class_fast")],
  ["generate_equivalence_class_fast result"])

p("C10", "Reduction keeps a representative of every class and invents none",
  "Reducing a list of quadruples up to equivalence maps every input to a representative of its own class and returns each distinct representative exactly once; no input is skipped and nothing is returned that does not come from an input. Equivalent quadruples that differ only by the preliminary negation and swap operations are merged by canonicalising before uniqueness is decided.",
  ["inputs"], "all input lists, all lengths, all types with a reduction",
  "the tests compare counts for lists at a few lengths; dropping one element of a list or one canonicalising step only changes counts for particular inputs",
  [FU, FW, EQ, ME], [("reductions", FU+": reduce_to_canonical_reps, reduce_to_equivalence, reduce_to_equivalence_par, reduce_to_equivalence_set_dif"), ("filter before reduction", FW+": join_pairs"), ("negate-swap reduction", ME+": reduce_to_ns_equivalence, reduce_to_hadamard_equivalence"), ("expansion", EQ+": generate_equivalent_quad_seqs")],
  ["returned lists, result.seq"])

p("C11", "Pair generation covers each sequence once with matching tags and names",
  "For every pairing option the two pair files partition the four sequences, the first named pair of the pairing on the left side and the complementary pair on the right side; in each pair the sequence lists, the tags, the row sums, the side and the file name refer to the same sequences. Generating all pairs at once, one pair at a time, or pre-creating the files leads to the same file names and the same assignment.",
  ["inputs", "configurations"], "all pairing options and the default, both pair numbers, every row sum quadruple",
  "no test generates pair files; the three code paths are only consistent by inspection",
  [FW, MAIN], [("all pairs", FW+": write_pairs_rowsum"), ("one pair", FW+": write_pair_single_rowsum, get_indices"), ("pre-creation", FW+": create_rowsum_dirs"), ("row sum assertion", FW+": verify_rowsums")],
  ["pair_*.pair and seq_*.seq names and contents"])

p("C12", "Every pair that passes the filter is written exactly once, unaltered",
  "Every couple of candidate sequences is examined, and it is dropped only if its power spectral densities at some non-zero frequency sum to more than 4n or, for Williamson-type, if the pair is not amicable. Every couple that is kept appears in its pair file exactly once as a complete line carrying its two indices, also across buffer boundaries and at the end, and the reported count is the number of lines.",
  ["inputs", "histories"], "all candidate lists of any size, every number of surviving couples, both match options",
  "no test writes pair files; losing the last partial buffer, one buffer boundary or the first couple requires particular counts",
  [FW, FO, R+"sequences/matching.rs"], [("buffered writer", FW+": write_seq_pairs"), ("spectral filter", FO+": iter_over_enumerate_filtered_couples_psds, iter_over_filtered_couples, iter_over_filtered_dft")],
  [".pair files, printed counts"])

p("C13", "Keys of complementary pairs are equal strings",
  "For a quadruple that satisfies the definition of its type, the key computed for its left pair equals the key computed for its right pair, for both match options: the right side holds the negated correlations, respectively 4n minus the power spectral density and the negated cross density, over the same offsets, in the same order and the same text format. Keys consist only of quantities the type constrains.",
  ["inputs", "configurations"], "all valid quadruples of every length, all pairings, both match options",
  "no test computes both sides; a sign, orientation or offset mistake silently loses solutions only for some tags",
  [FW, MA], [("key construction", FW+": write_seq_pairs"), ("side dependent densities", MA+": compute_psd_pair, compute_cross_psd_pair, compute_cross_correlations_dft, compute_auto_correlation_pair_dft")],
  ["key part of .pair lines"])

p("C14", "The join considers every combination of equal keys",
  "Given the two sorted pair files, the join builds every combination of a left line and a right line with equal keys exactly once, including runs of equal keys that end at the end of a file, and advances the smaller side otherwise, in the order in which the sort arranged the lines. Each combination is assembled from exactly the four sequences its tags and indices name.",
  ["inputs"], "all pairs of sorted line files, any run lengths and any end-of-file position",
  "no test runs the join; the last run of a file and key prefixes need crafted files",
  [FW, "rust/sortpairs.sh"], [("merge loop", FW+": join_pairs_files"), ("line parsing", FW+": get_line_from"), ("lookup", FW+": get_sequences, get_sequence_aux"), ("byte order of the sort", "rust/sortpairs.sh: LC_ALL")],
  ["quadruples handed to the acceptance test"])

p("C15", "What one stage writes is what the next stage reads",
  "Sequence files, pair files, result files, directories and command names written or invoked by one stage are found under the same path, with the same separators, symbols, tag letters and line structure by the stage that reads them, for every sequence type, length, row sum and tag; converting a type, pairing or tag to text and back gives the same value. Every sequence line reads back as the sequence that was written.",
  ["inputs", "configurations"], "all types, lengths, row sums, tags; every sequence written",
  "stages are only connected through files in scripts that the suite never runs",
  [FW, MAIN, SY, ME, "rust/driver.sh", "rust/sortpairs.sh", "rust/convert_hm.sh", "rust/convert_qhm.sh"], [("names and formats written", FW+": write_sequences, write_seq_pairs, write_pairs_rowsum; "+MAIN+": find_write_quad_seq"), ("names and formats read", FW+": get_sequences_from_dir, get_order_from_dir, get_tag_from_filename, get_line_from, string_to_sequence; "+ME+": hadamard_equivalence_from_file; "+MAIN+": convert_qs_to_matrices, qhm_write_all")],
  ["files below results/"])

p("C16", "I/O failures surface and no output is silently truncated",
  "Every write to a result or intermediate file either transfers all bytes or aborts the program, and every failure to open, read or write a file the computation depends on aborts it; no such failure is ignored and no partial data is processed as if it were complete.",
  ["fault_sequences"], "every file operation of the pipeline, every I/O error and every short write at it",
  "the suite injects no I/O fault and runs no file-producing code",
  [FW, MAIN, ME, R+"find/find_with_rowsum.rs"], [("file writes and reads", "every call of the std::fs / std::io API reachable from a command")],
  ["exit status and files"])

p("C17", "Spectra depend only on the sequence, not on earlier calls",
  "The discrete Fourier transform of a sequence and its inverse are functions of their argument and its length only: whatever lengths were transformed before, in whatever order and by whatever thread, the result is the transform of that length, and the inverse divides by that length.",
  ["histories", "schedules"], "all sequences of calls with any mixture of lengths, from any threads",
  "the suite never mixes lengths in one process in an order that exposes a cached transform plan",
  [FO], [("plan cache", FO+": dft_sequence, inverse_dft")], ["return values"],
  [{"name": "plan cache", "meaning": "FFTW plans kept between calls", "where": FO}])

p("C18", "Hadamard construction places the four blocks with the documented signs",
  "The 4n x 4n matrix built from a quaternion-type quadruple consists of 16 blocks, each the circulant matrix of one of the four sequences, every block of the array filled, in an arrangement whose block rows are pairwise orthogonal under the quaternion-type correlation identities taken in one of the two orientations of the offset (which agree on amicable quadruples); the quaternionic matrix of a quaternion sequence is its circulant. Reading the sequences back from the matrix returns the original quadruple.",
  ["inputs"], "all quadruples of every length",
  "tests verify orthogonality for a few sequences; a sign or block slip can be compensated on symmetric or amicable examples",
  [MT], [("block array", MT+": HM::from_williamson, copy_block_to, get_with_op_mat, from_sequence, get_qts"), ("circulant", MT+": QHM::from_pqs")], ["matrices"])

p("C19", "Dephasing yields a normalised matrix, in place and as a copy alike",
  "Dephasing a Hadamard matrix (real or quaternionic) multiplies each row and column by one unit so that the first row and the first column consist of ones, and changes nothing else; the in-place and the copying variants give the same matrix.",
  ["inputs"], "all matrices with unit entries, of every size",
  "only one matrix is tested and only one variant",
  [MT], [("in place", MT+": HM::dephase, QHM::dephase"), ("copy", MT+": HM::dephased, QHM::dephased")], ["matrix entries"])

p("C20", "Matrix verification is exact",
  "The Hadamard test returns true exactly when every two distinct rows have inner product zero over the integers, for every size; the quaternionic test checks every pair of rows including equal rows against n times the identity, in all four components.",
  ["inputs"], "all matrices with unit entries, of every size",
  "tests verify small matrices; narrow accumulation or a skipped pair only matters for larger or special ones",
  [MT], [("row loops", MT+": HM::verify, QHM::verify")], ["boolean result"])

p("C21", "The graph of a matrix encodes it faithfully for Hadamard equivalence",
  "The graph built from a matrix has one positive and one negative vertex per row and per column, distinguishes rows from columns, and has an edge between signed row and signed column exactly when the signs agree with the entry; every entry of the matrix is represented. Matrices are merged exactly when the canonical labels of their graphs are equal.",
  ["inputs"], "all +-1 matrices of every size",
  "one test compares two small matrices",
  [ME], [("graph", ME+": graph_from_hm"), ("merging", ME+": reduce_to_hadamard_equivalence, hadamard_equivalence_from_file")], ["edges of the graph; result.mat"])

p("C22", "Williamson-type results are expanded to every quaternion-type coset",
  "Before Williamson-type results are reduced up to quaternion-type equivalence, each is accompanied by its copy with one sequence negated and, for even length, by the copies with that sequence half-shifted and both negated and half-shifted; the originals are kept. Hence no quaternion-type class that a Williamson-type class splits into is lost.",
  ["inputs"], "all result lists and lengths",
  "no test runs this stage",
  [MAIN, EQ], [("expansion", MAIN+": find_write_quad_seq"), ("helpers", EQ+": negated, half_shift")], ["result-qts.seq"])

p("C23", "Generation with a row sum yields all and only the sequences with that sum",
  "For every length and target, the generator of +-1 sequences returns each sequence of that length with the target sum exactly once and no other; for an unreachable parity it returns none.",
  ["inputs"], "all lengths and all targets",
  "tests compare counts for a few lengths",
  [RS], [("recursion", RS+": gen_seq_rec"), ("number of ones", RS+": generate_sequences_with_rowsum")], ["returned list; seq_*.seq"])

p("C24", "Row sum decompositions are sound, ordered and sign-complete",
  "Every row sum quadruple used for length n has squares summing to 4n, entries of the parity of n, and is sorted; for quaternion-type, a quadruple of distinct non-zero entries is accompanied by the variant with the last entry negated, and for the other types and for quadruples with zero or repeated entries it is not. The test by which lists are filtered by row sums accepts 0 <= w <= x <= y <= |z| with z >= 0 unless the entries are non-zero and distinct, and the filter keeps exactly the quadruples that pass it.",
  ["inputs"], "all lengths and types",
  "tests cover small lengths",
  [RS], [("search", RS+": sum_of_four_squares, increment_squares"), ("parity and sign variants", RS+": generate_rowsums")], ["rowsum directories"])

p("C25", "Scripts stop on failure and delete data only after success",
  "When a stage of the command-line pipeline fails, the driver reports the failure and stops instead of running later stages on incomplete data; an unsorted pair file is removed only after its sorted copy was produced successfully. Sorting uses the byte order that the join assumes.",
  ["fault_sequences"], "failure of any stage of the driver and pair scripts, for any type and length",
  "no test runs a script",
  ["rust/driver.sh", "rust/pairs.sh", "rust/join_pairs.sh", "rust/sortpairs.sh", "rust/convert_hm.sh", "rust/convert_qhm.sh"], [("status tests after each stage", "rust/*.sh")], ["exit status, remaining files"])

p("C26", "The results table reads the lines the programs log",
  "For a completed run of the pipeline (driver.sh or the single scripts) every number in the collected table is the quantity its column names: the number of sequences up to Williamson-type and QT equivalence, the number of matrices, the total of the pairs, the sum of the times of pair generation, sorting and matching, and the times of the QT and the Hadamard reduction; a column matches the log line of its own quantity and of no other, for all numbers that can be logged, and a quantity the run did not compute is shown as -1.",
  ["inputs", "configurations"], "all logged values and all sequence types",
  "the collector has no test; a reworded log line silently yields -1 or 0",
  ["rust/collect_results.py", FW, MAIN, "rust/convert_hm.sh"], [("patterns", "rust/collect_results.py"), ("log lines", "println! in find_write.rs and main.rs; printf in scripts")], ["table"])

p("C27", "Exhaustive searches visit every assignment",
  "The exhaustive searches try every symbol of their alphabet at every free position, starting from the documented first free position, evaluate the condition on every complete assignment exactly once, and return the number (or list) of accepted ones; the parallel variant shares no mutable state between branches.",
  ["inputs", "schedules"], "all lengths, all symmetries, all schedules of the parallel search",
  "counts are not tested at all or for tiny lengths",
  [R+"find/find_optim.rs", R+"find/find_naive.rs", R+"find/find_williamson.rs", FU], [("recursion", "find_recursive in each module")], ["counts, printed sequences"])

p("C28", "The in-memory matching table keeps every couple",
  "The table from match data to couples contains every couple that passes the spectral filter, exactly once, under its own match data.",
  ["inputs"], "all candidate lists",
  "no test builds a table with a couple that is first for its key",
  [MA], [("table construction", MA+": generate_matching_table")], ["table"])

p("C29", "Products and tensors have the right entries and dimensions",
  "The product of sequences of lengths p and q has length pq and entry a[k mod p]*b[k mod q] at k; the tensor product of operators is the Kronecker product and its recorded dimension is the product of the dimensions, also for the wrappers that carry operators; conjugate transposition and sums act entry by entry. The operators built from a quaternion matrix have as blocks the 2x2 matrices of the quaternions they are defined from.",
  ["inputs"], "all lengths and sizes",
  "tests use sizes 1 and 2, where sum and product of dimensions may coincide",
  [R+"sequences/product.rs", R+"sequences/mum.rs"], [("products", R+"sequences/product.rs"), ("operators", R+"sequences/mum.rs")], ["entries and sizes"])

p("C30", "Matrix output lists every entry once, in order, in readable syntax",
  "The textual forms of a matrix or operator contain every row and every column entry exactly once and in order; the Magma form is a bracketed list of n bracketed rows of n comma-separated values 1 or -1 and is a single line, so that the number of lines of a result file is the number of matrices.",
  ["inputs"], "all matrices of every size n >= 1",
  "no test reads the text",
  [MT, ME], [("rendering", MT+": HM::to_string_magma, HM::to_string, QHM::to_string"), ("result file", ME+": hadamard_equivalence_from_file")], ["result.mat"])

p("C31", "Generated constraint systems describe the remaining two sequences",
  "The pseudo-Boolean system generated from two known sequences and the row sums uses only variables x1..x2n, and the assignments that satisfy it are exactly the couples of sequences, at the positions the comment names, that complete the known ones to a perfect quadruple and have the given row sums. The generator that writes such systems to files writes, for every row sum decomposition it is given, one file per couple of filtered candidates of the two positions it chooses; the candidates have the row sums chosen for those positions and the text is the system for that couple.",
  ["inputs"], "all pairs of sequences, all tag pairs, all lengths; any list of decompositions whose largest sums are distinct",
  "tests only compare one text with itself for small inputs",
  [R+"sequences/equations.rs"], [("equation text", R+"sequences/equations.rs")], [".opb text"])

p("C32", "Row sum decompositions and normal forms cover all solutions",
  "Every quadruple of the requested type is equivalent to one whose row sums are among the generated decompositions.",
  ["inputs"], "all quadruples of every length",
  "a theorem about equivalence and row sums, checked for no input by the suite", [RS, FW], [("decompositions", RS+": generate_rowsums")])
p("C33", "Rounding of spectra never merges or splits keys",
  "Two pairs with complementary spectra round to equal keys despite floating-point error.",
  ["inputs"], "all sequences and lengths", "depends on the error of the transform at run time; only a run-time warning exists", [FW, FO], [("rounding and half-integer warning", FW+": write_seq_pairs")])
p("C34", "Searches finish within memory and time proportional to their output",
  "The pipeline's memory use stays bounded by the buffers and the candidate lists, and the external sort bounds its memory.",
  ["inputs"], "all lengths", "no test measures resources", [FW, "rust/sortpairs.sh"], [("buffering and external sort", FW+": write_seq_pairs; rust/sortpairs.sh")])
p("C35", "Hadamard equivalence is decided correctly by the canonical labelling",
  "Two matrices receive the same canonical label exactly when they are Hadamard equivalent.",
  ["inputs"], "all matrices", "depends on the external canonical-labelling library", [ME], [("canonical labelling", ME+": canon_hm")])

p("C36", "Verdicts and counts the programs print are those of the data",
  "The conversion to quaternion matrices reports the number of sequences it converted and the number of dephased matrices that contain two entries which do not commute, and a matrix is classified so exactly when two such entries exist anywhere in it. The check of a list of quaternion-type sequences fails unless every sequence of the list is valid for its type and amicable.",
  ["inputs"], "all result files, all quaternion matrices of every size",
  "no test runs the commands; the classification compares every entry with all earlier ones and returns early, so one missed pair, row or column only shows on matrices whose only non-commuting entries lie there",
  [MT, MAIN], [("classification", MT+": QHM::contains_non_commuting_elements, QHM::get"), ("counts", MAIN+": convert_qs_to_matrices"), ("verdict", MAIN+": verify_qts_eq_wts")], ["standard output, exit status"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["id"]
        f.write(json.dumps(x, ensure_ascii=False) + "\n")
print(len(P), "properties")
