G = 'Every obligation of every function listed under coverage.proved is discharged for all inputs; assumed: allocation granted and below 2^63 bytes, no NaN, no overflow of integer elements, clang front end and the VC generator. Failing proofs are searched for a failing input on the AddressSanitizer build.'
CLAIMED = {
 'C01': ('proof', G), 'C02': ('proof', G), 'C03': ('proof', G), 'C04': ('proof', G), 'C05': ('proof', G), 'C10': ('proof', G), 'C11': ('proof', G), 'C13': ('proof', G), 'C14': ('proof', G), 'C15': ('proof', G), 'C16': ('proof', G), 'C17': ('proof', G), 'C09': ('proof', G),
 'C08': ('proof', G + ' Matrices over the logging allocator are verified for int; the allocator itself for int, double, unsigned char and complex<double>.'),
 'C24': ('proof', G + ' Not covered: randn, nonuniform, init_by_array; fewer than 2^64 draws per generator.'), 'C25': ('proof', G + ' Not covered: randn (unbounded), nonuniform.'),
 'C19': ('proof', G + ' Codes with one input; next_output with at most 8 outputs; encode below 2^32 outputs; copying a ccode is not covered.'),
 'C21': ('proof', G + ' Proved for channel<double>: the constructor, the trellis and encode_isi; decode_mlse from a known state by bounded runs only; decode_mlse with unknown state and decode_bcjr not covered.'),
 'C22': ('proof', G + ' qam for square numbers of points (others are a known defect); abs of a complex number, sqrt and pow are uninterpreted; modulation noise (awgn) not covered.'),
 'C23': ('proof', G + ' sin, cos and sqrt are uninterpreted functions; odd numbers of taps.'),
 'C18': ('proof', G + ' Proved for dft, convert_to_complex and is_power_of_two; radix2 and bit_reverse (lengths 1 to 256) by bounded runs against the sum; sin and cos are uninterpreted functions.'),
 'C26': ('proof', G + ' Proved for find; select_least, select_most, select_limited_least, sort and sort_indices by bounded runs against an oracle.'),
}
NA = {
 'C06': 'The parser works on std::string and std::stringstream character by character in local buffers; the verifier has no contracts for libstdc++ strings and streams, so no obligation about the parsed text can be generated.',
 'C07': 'array keeps its dimensions in std::vector and computes the linear index by nested products over a runtime number of dimensions; the verifier cannot decide the injectivity of that index (non-linear, unbounded nesting) and std::vector members of an object are not in its memory model beyond ghost contents.',
 'C12': 'The decompositions are correct only in exact arithmetic and through permutation/pivot arguments (products of row exchanges); no contract within reach of the verifier expresses P*A = L*U over an unbounded number of row exchanges.',
 'C20': 'decode_bcjr reads uninitialised recursion vectors on the current tree and combines exponentials over all branches; what it should return cannot be stated as a contract its code satisfies without redefining the algorithm.',
 'C27': 'Minimality of the paths needs an induction over all paths of the graph (Dijkstra invariant over a priority order), which the contract language (first-order over matrix elements, no path quantification) cannot state; only bounded runs would remain.',
 'C28': 'svd converges iteratively in floating point; reconstruction up to rounding has no contract that the iteration preserves exactly, and no real-number reading of the stopping test is within reach of the verifier.',
}
