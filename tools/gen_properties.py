#!/usr/bin/env python3
"""Writes properties.jsonl (one property per entry of P)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=qtext), why_tests_cant=why,
        anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                     observe_at=observe or [], hook_needed=None)))
M='inc/susa/matrix.h'
prop('C01','Matrix elements live at their column-major place, bounds are enforced',
 'For every matrix of R rows and C columns, element (r,c) and linear element r+c*R are the same storage cell for every r<R, c<C, whether read through get(), operator() const or written through operator(); distinct cells never alias, and reading or writing one cell leaves every other cell and the shape unchanged. Any access whose row, column or linear index is out of range, or on an empty matrix, is stopped by the assertion machinery and never touches memory outside the matrix.',
 ['inputs'],'all shapes, all element values, all in-range and out-of-range indices','tests read a handful of cells of 2x2..3x3 literals; they never check aliasing for all cells nor out-of-range accesses',
 [M],[('get_lindex / operator() / get',M)])
prop('C02','Matrices are independent values that own and release their storage exactly once',
 'Copy construction and assignment yield a matrix equal in shape and content to the source and sharing no storage with it, for every shape including the empty matrix and self-assignment; moving transfers the content and leaves the source safely destructible and assignable. Over any sequence of construction, copy, move, assignment, resize and destruction every allocation is released exactly once with the size it was allocated with, and no freed or foreign memory is read or written.',
 ['inputs','histories'],'all shapes and contents of both operands, all aliasing patterns, every sequence of these operations (each preserves the representation invariant)','tests copy two fixed matrices; no self-assignment, empty, moved-from or balance check',
 [M],[('copy/move constructors, operator=, destructor, allocate',M)])
prop('C03','Matrix arithmetic and comparison operators work element by element',
 'For equal-shaped operands, A+B, A-B, A*B, A/B, += and -= and every matrix/scalar form in either operand order produce a matrix of the same shape whose element (r,c) is the scalar operation applied to the operands\' elements (r,c), leaving the operands of the non-assigning forms unchanged. A==B holds exactly when shapes and all elements are equal, A!=B is its negation, and operands of different shape are rejected by an assertion.',
 ['inputs'],'all shapes, all element values, scalars, operand aliasing (A+A, A+=A)','tests compare fixed 2x2/3x3 literals only; a mistake at the last element, a non-square shape or one operand order is not reached',
 [M],[('friend operators',M)])
prop('C04','Sub-matrix extraction and replacement touch exactly the addressed cells',
 'row, col, left, right, mid, shrink, get_row_as_vec and get_col_as_vec return exactly the addressed sub-array in order; set_row, set_col, swap_rows, swap_cols, set_all change exactly the addressed cells to the given values and nothing else. Arguments outside the matrix are rejected and never read or write out of bounds.',
 ['inputs'],'all shapes (row vectors, column vectors, general), all index and width arguments, all contents','tests call a few of these on one literal; right() and set_row/set_col boundary arguments are not tested',
 [M],[('row/col/left/right/mid/shrink/set_row/set_col/swap_*',M)])
prop('C05','Construction, resize, reshape, shape queries and typecasts are exact',
 'Every sized constructor gives the requested shape with all cells equal to the initial value when one is given; resize gives the new shape with valid storage of rows*cols cells, reshape keeps the column-major sequence of elements under the new shape; size, shape, no_rows, no_cols, is_square, is_vector, is_scalar report the actual shape. A typecast yields the same shape with each element converted by the ordinary scalar conversion.',
 ['inputs'],'all shapes, initial values and contents','tests build a few literals and check one reshape',
 [M],[('constructors, resize, reshape, conversion operators',M)])
prop('C06','Textual matrices parse to the written values',
 'A matrix written as rows separated by \';\' (or newline) and elements separated by spaces, tabs or commas, with optional brackets and arbitrary extra spacing, parses to a matrix with exactly those rows, columns and element values; no input string makes the parser read or write outside its buffers, and a ragged text is rejected.',
 ['inputs'],'all strings of the documented grammar: every shape, separator choice, spacing and numeric literal','tests parse about ten literals',
 ['src/matrix.cpp',M],[('pre_parser / parser','src/matrix.cpp')])
A='inc/susa/array.h'
prop('C07','N-dimensional arrays address every element uniquely and copy by value',
 'For an array of dimensions d1..dn, every index tuple within the dimensions addresses exactly one element, different tuples address different elements, writing one changes no other, and the total size is the product of the dimensions. Copies, assignments (including self-assignment and between different shapes) are deep, equal to the source, and each allocation is released exactly once; an out-of-range index tuple or a wrong tuple length is rejected.',
 ['inputs'],'all dimension lists up to the stated number of dimensions, all index tuples, all contents','the tests write and read back a few entries of one array',
 [A],[('get_lindex / clone / operator()',A)])
prop('C08','The memory tracker always equals the bytes currently allocated',
 'Every allocation and deallocation made through the logging allocator changes the tracked total by exactly the number of bytes obtained or returned, so that over any history of matrix and allocator operations the tracker equals the bytes currently held and is back to its initial value when every object has been destroyed. The tracker is one process-wide instance, and a failed allocation is not counted.',
 ['inputs','histories'],'all sizes and element types, every history of operations (each operation proved to preserve the balance)','tests check two allocations of fixed size',
 ['inc/susa/memory.h'],[('allocator_log / memory_tacker','inc/susa/memory.h')])
prop('C09','Bitset behaves as a set of non-negative integers',
 'After set(i) or reset(i) membership of i is true respectively false and the membership of every other index is unchanged; set() makes every index a member, reset() none; exists(i), any(), push and pop agree with that set, with pop removing exactly one member and returning it; indices outside the capacity are rejected without touching memory.',
 ['inputs','histories'],'all capacities, all indices, all set contents','tests set a few bits of one bitset',
 ['src/sets.cpp','inc/susa/sets.h'],[('bitset member functions','src/sets.cpp')])
L='inc/susa/linalg.h'
prop('C10','Matrix product, transpose, concatenation and reorderings are exact',
 'matmul(A,B) has element (i,j) equal to the sum over k of A(i,k)*B(k,j) for every compatible shape, transpose has element (j,i) equal to A(i,j), and eye, concat, fliplr, flipud and hermitian place every source element (conjugated for hermitian) at its defined position and nothing else. Incompatible shapes are rejected by matmul and give an empty matrix for concat; operands are never changed.',
 ['inputs'],'all shapes and contents','tests multiply and transpose a few small literals and concat in one direction',
 [L],[('matmul, transpose, eye, concat, fliplr, flipud',L)])
S='inc/susa/solver.h'
prop('C11','Determinants agree with the Leibniz determinant',
 'det(A) equals the mathematical determinant of every square matrix A over the element ring (scalar case, 2x2 case and cofactor expansion), with the matrix left unchanged; a matrix that is not square gives zero.',
 ['inputs'],'all square matrices of any order','tests compute two determinants',
 [L],[('det',L)])
prop('C12','Triangular decompositions and solvers satisfy their defining equations',
 'In exact arithmetic, whenever the decomposition reports success L*U reproduces the row-permuted input with unit lower and upper triangular factors and the recorded permutation is a permutation of the rows; forward/back substitution returns x with A*x=b, and the inverse satisfies A*inv(A)=I. A singular matrix is reported as such, never answered.',
 ['inputs'],'all non-singular and singular square matrices and right-hand sides, any order','tests factor and solve a few 3x3/4x4 literals',
 [S],[('lup, linsolve, inv',S)])
B='inc/susa/base.h'
prop('C13','Reductions return the exact reduction of each column or vector',
 'sum, mean, norm, min, max, diff and the statistics functions (mean, var, stdv) return, for a vector one value and for a matrix one value per column, exactly the reduction of that column or vector: min and max return the index of the first element that bounds every element, sum and mean combine every element once, diff is the adjacent difference.',
 ['inputs'],'all shapes and contents, including single-row, single-column and single-element','tests reduce a few literals',
 [B,'inc/susa/statistics.h'],[('min,max,sum,mean,norm,diff,mean/var/stdv',B)])
prop('C14','Element maps apply the scalar function to every element and keep the shape',
 'real, imag, mag (squared magnitude), conj, abs, log, sign, round and to_complex return a matrix (or vector) of the same shape in which every element is the scalar function of the corresponding input element, with the input unchanged.',
 ['inputs'],'all shapes and contents','tests map a few literals',
 [B,'inc/susa/auxiliary.h'],[('real/imag/mag/conj/abs/log/sign/round/to_complex',B)])
prop('C15','Scalar helper functions are arithmetically exact',
 'log2 of an unsigned x > 0 returns the largest k with 2^k <= x, pow the exact power when representable (modulo 2^32 for unsigned int), mod the remainder that has the sign of the modulus and is smaller than it, normcdf and qfunc the normal distribution function within 1e-7, for every argument in range; no argument makes them loop forever.',
 ['inputs'],'all integer arguments whose result is representable','tests try a couple of values',
 ['src/base.cpp',B],[('log2, pow, mod','src/base.cpp')])
G='inc/susa/signal.h'
prop('C16','Filtering and convolution compute the difference equation',
 'filter(b,a,x) returns y with y[n] equal to the direct-form difference equation of the coefficients for every n within the output length, and conv(a,b) returns the full linear convolution of length |a|+|b|-1, column by column for matrices; neither reads outside its inputs.',
 ['inputs'],'all vector lengths and coefficient counts including length one, all contents','tests run one filter and one convolution on fixed data',
 [G],[('filter, conv',G)])
prop('C17','Structured matrix builders place every element by definition',
 'kron, toeplitz, convmtx, upsample, downsample and related builders return the documented shape with every element equal to its defining expression in the inputs (and zero where the definition says zero).',
 ['inputs'],'all shapes, factors and contents','tests build one or two of each',
 [G,L],[('kron, toeplitz, convmtx, upsample, downsample',G)])
prop('C18','Fourier transforms compute the discrete Fourier sum',
 'For every length dft returns, for a vector and for each column of a matrix, X[k] equal to the sum over n of x[n]*exp(-2*pi*i*k*n/N), and radix2 returns the same values up to rounding for every length that is a power of two and rejects every other length; bit reversal moves element i to the index with the reversed binary digits.',
 ['inputs'],'all lengths (powers of two for radix2), shapes and real inputs','tests transform a few vectors of one length',
 ['inc/susa/fft.h'],[('fft radix2 / dft / bit reverse','inc/susa/fft.h')])
prop('C19','The convolutional code trellis and encoder follow the generator polynomials',
 'For every rate and generator set, next_state shifts the input bit into the register, prev_state inverts next_state, next_output bit j is the parity of the register and input masked by generator j, the internal last state follows, and encoding a sequence from the zero state emits exactly these outputs; octal generator conversion reads the octal digits.',
 ['inputs'],'all memories and generators within the documented limits, all states, inputs and bit sequences','tests encode one sequence with one code',
 ['src/ccode.cpp','inc/susa/ccode.h'],[('build_trellis, next_output, encode','src/ccode.cpp')])
prop('C20','The BCJR decoder computes the forward-backward recursion',
 'For every trellis, channel observation and a-priori vector, the decoder\'s result is the a-posteriori ratio computed from normalised forward and backward recursions over exactly the branches of the trellis, with no uninitialised or out-of-range state read.',
 ['inputs'],'all trellises and observations','one decoding test with a known answer',
 ['src/ccode.cpp'],[('decode_bcjr','src/ccode.cpp')])
prop('C21','The ISI channel trellis and detector are consistent with the channel taps',
 'State transitions shift symbols through the channel memory (next/previous state are mutually inverse), each branch output is the inner product of taps and symbols, encoding a sequence from a given state emits exactly the branch outputs along its path, and the maximum-likelihood detector with a known state, in which the sequence starts and ends, returns a symbol sequence whose squared distance to the observation is minimal among all such sequences.',
 ['inputs'],'all tap vectors, alphabets and observations','one test on one channel',
 ['inc/susa/channel.h'],[('channel trellis and decode_mlse','inc/susa/channel.h')])
prop('C22','Modulators and demodulators map bits to constellation points consistently',
 'bpsk maps 0/1 to the two antipodal symbols element by element; for every square number m, qam builds an m-point square grid with spacing one centred on zero and its average energy, demodulating any complex number returns a constellation point at the smallest distance, so that a constellation point is returned itself, and the noise deviation follows from the energy, the bits per symbol and the Eb/N0 in decibels.',
 ['inputs'],'all bit/symbol sequences and all supported orders','tests do not check modulation beyond one order',
 ['src/modulation.cpp','inc/susa/modulation.h'],[('bpsk, qam','src/modulation.cpp')])
prop('C23','Root-raised-cosine taps follow the defining formula',
 'For every oversampling L, roll-off and odd positive order N the filter has N taps; tap i is the real part of the sum over m from -(N-1)/2 to (N-1)/2 of sqrt(XRC(L*m/N))*exp(2*pi*i*m*(i-(N-1)/2)/N), XRC being the raised cosine spectrum, divided by the square root of the sum of products of taps i and N-1-i. Orders that are not positive or not odd are rejected.',
 ['inputs'],'all parameters','not tested',
 ['src/rrcosine.cpp'],[('rrcosine constructor','src/rrcosine.cpp')])
prop('C24','The Mersenne-twister generators are the MT19937 sequence',
 'For every seed and every history of draws the mt generator returns exactly the MT19937 reference sequence, and the derived real-valued outputs are the documented scaling of that sequence.',
 ['inputs','histories'],'all seeds and positions in the sequence','not tested beyond statistics',
 ['src/mt.cpp','src/rng.cpp'],[('mt::init/extract','src/mt.cpp')])
prop('C25','Random generators stay in their documented range',
 'Every sample drawn by the uniform, bernoulli and integer generators lies in its documented range for every generator state, a matrix or vector draw fills every element in sequence order, and equal seeds give equal sequences.',
 ['inputs','histories'],'all generator states and seeds','statistical tests sample one seed',
 ['src/rng.cpp','src/mt.cpp'],[('rand/bernoulli/randn','src/rng.cpp')])
H='inc/susa/search.h'
prop('C26','Selection and search return the correct extremal elements in order',
 'select_least, select_most, select_limited_least and friends return the indices of distinct elements such that each returned element precedes (in the documented order) every element not returned, in order; sort returns an ordered permutation of its input and sort_indices the permutation that orders it; find returns exactly the matching positions.',
 ['inputs'],'all vectors, requested counts and candidate sets, with ties','tests select from one literal',
 [H],[('select_least, select_most, select_limited_least, sort, find',H)])
prop('C27','Shortest paths are shortest',
 'For every graph with non-negative weights (zero meaning no edge) and source, dijkstra returns for each reachable vertex a predecessor on a shortest path from the source; the source and unreachable vertices are their own predecessor.',
 ['inputs'],'all graphs, all sources','one graph in the tests',
 [H],[('dijkstra',H)])
prop('C28','The singular value decomposition reconstructs its input',
 'svd returns orthonormal U and V and non-negative singular values with U*S*V^T equal to the input up to rounding for every matrix with at least as many rows as columns.',
 ['inputs'],'all matrices','one matrix in the tests',
 ['src/svd.cpp'],[('svd','src/svd.cpp')])
with open(os.path.join(os.path.dirname(__file__),'..','properties.jsonl'),'w') as f:
    for p in P: f.write(json.dumps(p)+'\n')
print(len(P), [ (p['id'],len(p['title'])) for p in P if len(p['title'])>80])
