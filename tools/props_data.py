TB = 'Trusts rustc\'s front end and MIR, the fact extractor, the interpreter and the library contracts it states. '
MIRSYM = 'MIR abstract interpretation to closed-form summaries (gated values, loop summaries), compared with a specification by normal forms and linear case analysis'

P('T01', 'Library results depend only on arguments; only random constructors draw',
  'Except for the constructors that are documented to be random, no operation of the libraries consults the clock, the environment, random or hash-seed state, files, addresses, or mutable global or thread-local state, and none prints or writes to the outside world. Called twice with equal arguments, in any process and at any time, it gives equal results.',
  ['inputs', 'histories', 'schedules', 'configurations'], 'every call of every non-random library function, in any order, thread and process',
  'Tests run each call once or twice in one process; dependence on ambient state shows only across processes, environments, and call histories no test repeats.',
  ['alg/src', 'analysis/src', 'geom/src', 'topo_spaces/src', 'util/src'],
  [('ordered containers and explicit seeds only', 'all crates'), ('random_* constructors', 'alg/src/lin_alg/matrix_impl.rs, topo_spaces/src/graph.rs')],
  'interprocedural effect analysis over the resolved MIR call graph',
  TB + 'Effects of library entry points are classified by a table of std and dependency paths; trait calls on type parameters are resolved to every implementation in the workspace.')

P('T05', 'Rational numbers are exact, canonical, ordered, and reject zero divisors',
  'Every rational value the library produces is in lowest terms with a positive denominator, so that equal numbers are structurally equal, and a zero denominator or division by zero is always rejected. Addition, subtraction, multiplication, division, negation, their assigning forms, sums, products, powers, comparison and conversion to floating point agree with exact arithmetic for all values that do not overflow.',
  ['inputs'], 'all pairs of rationals whose intermediate products fit in 64 bits',
  'The tests try about twenty small fractions; signs, zeros, and uncancelled factors in other combinations are never built.',
  ['alg/src/commutative/rational_impl.rs'],
  [('private fields, constructor that cancels the gcd and fixes the sign', 'alg/src/commutative/rational_impl.rs'), ('operator implementations', 'alg/src/commutative/rational_impl.rs')],
  MIRSYM + ' over Q', TB + 'Machine overflow is out of scope; integers are treated as mathematical integers. The contract of the gcd routine (its result divides both arguments and is their greatest common divisor up to sign) is checked separately under T26.')

P('T09', 'The bit-set is a set of indices below its length, and nothing else',
  'Adding or removing an index of the bit-set changes the membership of exactly that index, and adding, removing or testing an index at or beyond the length is rejected. Union, intersection, subset, filling, fullness, counting and iteration agree with the set of member indices for every length (including lengths that do not fill a machine word), sets of different lengths are never combined, and growing keeps every member and adds none.',
  ['inputs', 'histories'], 'all lengths, indices and sequences of operations',
  'The tests touch a few indices of sets of a few lengths; a mask or word index wrong elsewhere, and bits past the end that leak into counts or fullness, stay unseen.',
  ['util/src/lib.rs'],
  [('word index and mask computation, bounds and length assertions', 'util/src/lib.rs BinaryPool')],
  MIRSYM + ' with a bit-vector view of words', TB + 'Overflow of the length arithmetic is out of scope.')

P('T26', 'Integers and fields divide with remainder; gcd and Bezout keep their identities',
  'Division with remainder of any two ring elements with non-zero divisor satisfies dividend = quotient * divisor + remainder, with a remainder smaller than the divisor (zero in a field), and division by zero is rejected. The gcd and Bezout routines keep their linear-combination identity at every step, the divisibility test answers by the remainder, and zero, one, unit normalisation and the primality test agree with the ring.',
  ['inputs'], 'all pairs of elements of the provided Euclidean domains (machine integers, rationals, floats as a field)',
  'The tests try a handful of positive integers; negative operands, zero operands and longer division chains are not sampled.',
  ['alg/src/commutative.rs', 'alg/src/commutative'],
  [('Euclidean division and normalisation per type', 'alg/src/commutative.rs'), ('gcd / Bezout loops', 'alg/src/commutative.rs')],
  MIRSYM + '; loop invariants of gcd and Bezout as inductive obligations', TB + 'Machine overflow and termination are out of scope.')

P('T08', 'Permutations compose, invert, act and list their moved points as bijections',
  'A cycle is stored from its smallest element on, without repeated elements, and maps each of its elements to the next and everything else to itself; a permutation is a product of disjoint cycles, in a fixed order, and maps a point by the cycle that moves it. Products apply the right factor first, powers repeat the element or its inverse, the inverse undoes the element, the exchange of two disjoint ranges keeps everything between them in order, the generators of an element are transpositions whose product is the element, and acting on a sequence applies them in order. Permutations stored as tables compose, invert and pad (with fixed points) in agreement with this.',
  ['inputs', 'histories'], 'all cycles, permutations, powers, ranges and sequences',
  'The tests multiply a few small permutations; repeated elements, empty ranges, tables of unequal lengths, negative powers and blocks of other sizes are not sampled.',
  ['alg/src/non_commutative.rs', 'alg/src/non_commutative/permutation.rs'],
  [('cycle and permutation constructors and products', 'alg/src/non_commutative/permutation.rs'), ('default inverse and action through generators', 'alg/src/non_commutative.rs')],
  MIRSYM + '; loop-carried values compared with the definition, recursion by induction', TB + 'Disjointness after a product follows from the exhaustion of the moved points, which is checked step by step. Termination of the order computation is out of scope.')

P('T10', 'Formal sums are elements of the free module: merged, sorted, without zero terms',
  'A formal sum holds each basis element at most once, in increasing order, and no term with coefficient zero. Adding, subtracting, negating, scaling, dividing and summing formal sums, in every combination of sums and single basis elements, gives the coefficientwise result; scaling by zero gives the empty sum, and dividing by zero is rejected. Looking up a basis element returns its own coefficient, and modules given by their invariants drop trivial divisors and are zero or isomorphic exactly when their invariants say so.',
  ['inputs'], 'all formal sums over any coefficients and any totally ordered basis, and all numbers of summands',
  'The tests add sums over three or four letters; cancellations, interleavings of several summands and repeated basis elements in other orders are never met.',
  ['alg/src/lin_alg.rs'],
  [('merging sum and its iterator', 'alg/src/lin_alg.rs'), ('operator implementations and the formal_sum_impl! macro', 'alg/src/lin_alg.rs, topo_spaces/src/cubical.rs, topo_spaces/src/simplicial/mod.rs')],
  MIRSYM + '; the merging loop through its loop-carried values, comparison closures summarised', TB + 'The order on the basis is taken to be total on the elements that meet. Mutable iteration over the terms can break the invariant and is outside the property; so is dividing or scaling by a non-zero element whose product with a coefficient is zero (there is none in a domain).')

P('T07', 'Matrix arithmetic is entrywise and row by column, whatever owns the operands',
  'Sum, difference, negation and scaling of matrices and submatrices act entry by entry, the product is the row by column sum, and the product with a vector, the dot product, the zero and identity matrices, building a matrix from rows of equal length, cloning and copying a submatrix into a matrix have the entries their names say. Every form of an operator (owned, borrowed, submatrix, assigning) gives the same entries, reads and writes only inside its operands, and a form that borrows leaves its operand as it was.',
  ['inputs'], 'all matrices and submatrices over any ring, of all sizes',
  'The tests multiply and add matrices of two or three fixed shapes in a few ownership forms; rectangular shapes, offset submatrices and the other forms are not sampled.',
  ['alg/src/lin_alg/matrix_impl.rs', 'alg/src/lin_alg.rs'],
  [('operator implementations of Matrix and SubMatrix', 'alg/src/lin_alg/matrix_impl.rs')],
  MIRSYM + '; matrices as terms with symbolic sizes, loop nests as families of entry updates',
  TB + 'The storage layer (element address, raw views, allocation) is replaced by its contract here. Shapes are taken to match; that mismatches are rejected is a separate property. Ring operations are uninterpreted, so the operands of a sum or product are compared in a fixed normal form.')

P('T27', 'Row and column operations change exactly the rows and columns they name',
  'Exchanging two rows or columns of a matrix or submatrix exchanges exactly these, a row or column operation adds the given multiple of one line to another and changes nothing else, and writing a matrix into a submatrix (by reference or by moving its entries) copies every entry to the same place. All accesses stay inside the matrix.',
  ['inputs'], 'all matrices and submatrices of all sizes, all pairs of lines and all factors',
  'The tests swap and combine lines of one or two square matrices; rectangular ones, submatrices with an offset and coinciding lines are not sampled.',
  ['alg/src/lin_alg/matrix_impl.rs'],
  [('swap_rows, swap_cols, row_operation, col_operation, write, write_and_move', 'alg/src/lin_alg/matrix_impl.rs')],
  MIRSYM + '; loop nests as families of entry updates',
  TB + 'The storage layer is replaced by its contract. A row operation of a line with itself is left unspecified.')

P('T28', 'Matrices are equal exactly when shape and all entries agree',
  'Two matrices or submatrices, in every combination, compare equal exactly when they have the same number of rows and of columns and all corresponding entries are equal; a matrix is diagonal exactly when every entry off the diagonal is zero. Comparison never reads outside its operands.',
  ['inputs'], 'all pairs of matrices and submatrices of all sizes',
  'The tests compare a few matrices of equal shape; differing shapes, a difference in the last row or column and rectangular diagonal matrices are not sampled.',
  ['alg/src/lin_alg/matrix_impl.rs'],
  [('PartialEq implementations, is_diagonal', 'alg/src/lin_alg/matrix_impl.rs')],
  MIRSYM + '; early-exit loops as quantified conditions',
  TB + 'The storage layer is replaced by its contract.')

P('T02', 'Matrix operations reject operands whose shapes do not fit',
  'Every operation on matrices that needs its operands to fit rejects (panics on) those that do not, also in release builds, instead of computing with part of them: sums and differences and their assigning forms, in every ownership form, need equal sizes, products need the columns of the left to be as many as the rows of the right (dense and sparse), a dot product needs a row and a column of equal length, writing a block needs a block of the same size, the zero and identity matrices need positive sizes, matrices from rows need at least one row and rows of equal positive length, and a random symmetric matrix, linear solving, LU, Hessenberg form, QR steps and the eigenvalue routines need square input; the Householder vector and the 2-norm need a single column, and lattice reduction at least as many rows as columns.',
  ['inputs', 'configurations'], 'all sizes of all operands, debug and release builds',
  'The tests use fitting shapes; that a mismatch is turned away rather than silently truncated is visible only on inputs they do not try, and debug assertions vanish in release builds.',
  ['alg/src/lin_alg/matrix_impl.rs', 'alg/src/lin_alg/sparse_matrix_impl.rs'],
  [('size assertions at the head of the operations', 'alg/src/lin_alg/matrix_impl.rs'), ('sparse products', 'alg/src/lin_alg/sparse_matrix_impl.rs')],
  'interprocedural path predicates (MIR abstract interpretation over matrices with symbolic sizes): return paths must entail that the shapes fit',
  TB + 'A product is required to reject a mismatch before it stores an element of its result. Panics inside later loops do not count as rejections of the operation, except for products.')

P('T03', 'Matrix views address exactly the elements they name and reject the rest',
  'Indexing a matrix or submatrix by (row, column) succeeds exactly when both are inside, also in release builds, and reading and writing reach the same element. A submatrix taken by any combination of ranges or single indices, mutably or not, has the size the ranges say, and its element (r, c) is the element (first row + r, first column + c) of what it was taken from; ranges that are reversed or end outside are rejected and every range inside is accepted. A transposed view or matrix has rows and columns exchanged, and sizes or strides that do not fit the packed view representation are rejected rather than cut off.',
  ['inputs', 'configurations'], 'all matrices, views of views, and all 48 combinations of range types, in debug and release builds',
  'The tests take a few views of square matrices; one of the 96 implementations, transposed views, strides, sizes at the packing limit, and reversed ranges in release builds are not sampled.',
  ['alg/src/lin_alg/matrix_impl.rs'],
  [('size and strides packed in the metadata of a fat pointer', 'alg/src/lin_alg/matrix_impl.rs compress, extract'), ('Index / IndexMut by ranges', 'alg/src/lin_alg/matrix_impl.rs submatrix_index_by_ranges_impl!'), ('element access', 'alg/src/lin_alg/matrix_impl.rs')],
  'symbolic address arithmetic over MIR: word operations normalised under path conditions, addresses compared as polynomials, bounds by linear entailment',
  TB + '64-bit usize. Address arithmetic that overflows is out of scope, except for ranges with their start past the end. That the fat-pointer representation is as the code assumes is trusted.')

P('T04', 'Matrix storage is requested, initialised and given back consistently',
  'The storage of a matrix has room for exactly rows * columns elements, every element has an address of its own inside it, and the same block with the same layout is given back exactly once when the matrix is dropped. No empty block is requested or given back, a failed request is never used, and no constructor or operation hands out a matrix with an element that was never written, or drops an element that was never there.',
  ['inputs', 'faults'], 'all sizes, all element types (also zero-sized and owning ones), failing allocation',
  'The tests use small matrices of plain numbers; empty and zero-sized blocks, failing allocation, element types with destructors, and a row or column left uninitialised are not exercised.',
  ['alg/src/lin_alg/matrix_impl.rs'],
  [('alloc and Drop', 'alg/src/lin_alg/matrix_impl.rs'), ('constructors and operators that fill fresh storage', 'alg/src/lin_alg/matrix_impl.rs')],
  'typestate of raw storage over MIR summaries: layouts compared as terms, allocation events under their path conditions, coverage of fresh storage by the index families written',
  TB + 'That a matrix is never dropped twice is the ownership rule of the language. Elements of a dropped matrix are not dropped (leaked), which the property allows. The storage that eigenvalue routines fill in loops that also read it is followed only up to their first such loop.')

P('T06', 'The Smith normal form returns transformations that match the diagonal',
  'The Smith normal form of a matrix A over a Euclidean domain returns a matrix D together with a row transformation R, its inverse, a column transformation C and its inverse, for every size of A: whatever sequence of swaps, combinations and eliminations the input leads to, R times its inverse and C times its inverse are the identity and R A C is D. The steps run over every row and column beyond the pivot, put the gcd at the pivot and zero at the entry they eliminate, and the last stage keeps the matrix diagonal and runs over the whole non-zero diagonal.',
  ['inputs'], 'all matrices of all sizes over all Euclidean domains, and all sequences of steps',
  'The tests check the relations on a few small integer matrices; the Bezout stage, the divisibility stage and rectangular or rank-deficient inputs take steps that these never take.',
  ['alg/src/lin_alg/matrix_impl.rs'],
  [('Matrix::smith_normal_form', 'alg/src/lin_alg/matrix_impl.rs')],
  MIRSYM + '; every elementary step of the five matrices is compared with one invertible transformation modulo the Bezout identities',
  TB + 'Row and column operations, blocks and arithmetic are replaced by their contracts (decided by T07 and T27), gcd, division and Bezout by theirs (T26). Termination, the search for a pivot beyond its range and the divisibility of the final diagonal are not decided in full.')

P('T29', 'Numerical kernels are the transformations they are named after, in exact reals',
  'Read over exact real numbers, the numerical kernels satisfy their defining identities for matrices of every size. A Givens rotation has c^2+s^2=1 and turns the second entry of its pair into zero. The reflection of a Householder vector (first entry 1) is orthogonal and maps its input to the input\'s norm times the first unit vector. The four norms are the sums and maxima of their definitions. A 2x2 block has real eigenvalues, with its trace as sum and its determinant as product, exactly when its discriminant is not negative. Every round of LU eliminates below its pivot and changes nothing else, the determinant is the product of the diagonal of the factorisation, and solving substitutes forwards and backwards over all rows. Every round of Hessenberg reduction, tridiagonalisation, the double-shift step and the symmetric QR step applies one reflection or rotation from both sides to the whole non-zero part of the rows and columns it concerns, takes it from the entries it has to eliminate, and the rounds cover the matrix; vectors stored by tridiagonalisation give back the product of their reflections. Gram-Schmidt subtracts from each column its projection on every column before and then normalises it where it says so. Eigenvectors are solved for with the matrix less the eigenvalue on its diagonal.',
  ['inputs'], 'all real matrices and pairs of numbers, all sizes',
  'The tests run a few kernels on one or two fixed or random matrices with tolerances; signs, degenerate columns (already reduced, negative multiples of a unit vector), first and last rounds and sizes are special cases that random inputs never meet, and stable algorithms hide a wrong step behind another iteration.',
  ['alg/src/lin_alg/matrix_impl.rs'],
  [('the numerical methods of Matrix<f64> and SubMatrix<f64>', 'alg/src/lin_alg/matrix_impl.rs')],
  MIRSYM + '; one round of each kernel as an expression of the entries before it, sums in normal form, compared by rational arithmetic with square roots reduced',
  TB + 'Rounding, convergence and termination are outside the claim (floats are read as exact reals). Arithmetic, views and row operations of matrices are replaced by their contracts (T07, T27, T03). Not covered: the transformation returned by the non-symmetric QR (never updated in this codebase), the deflation logic around the QR steps, pivoting (there is none), LLL reduction.')

LATER = 'Within reach of the same method (the operations are closed functions of small structures), but no rules have been built for it; see DESIGN.md, section 4.'

P('T11', 'Graph queries, deletions and iterators agree with one set of edges',
  'A graph is one set of pairs i < j of vertices below its number of vertices, each pair with a place of its own: adding or removing an edge changes that edge only, deleting the edges at a vertex deletes exactly these, and exchanging two vertices is the image under the transposition. Degrees, adjacent vertices, degree in the maximal tree and connectedness are those of that set, and the edge, vertex and cell iterators list each member once, in a fixed order. Building a graph from a list of edges keeps every edge with its multiplicity, its ends and its weight and counts edges and loops accordingly, loops are refused where a simple graph is built, the Laplacian has the weights of a vertex on the diagonal and the negated weights elsewhere, and subdividing replaces every edge and loop by a path of its own with enough, evenly placed vertices for the number of marked points.',
  ['inputs'], 'all graphs, all pairs of vertices, all numbers of marked points', 'The tests query a few small graphs in one vertex order.',
  ['topo_spaces/src/graph.rs'],
  [('RawSimpleGraph, its edge index, queries and iterators', 'topo_spaces/src/graph.rs'), ('Graph::from, WeightedSimpleGraph, SimpleGraph::subdivided_graph_from', 'topo_spaces/src/graph.rs')],
  MIRSYM + '; the set of edges as a symbolic relation, loops by their loop-carried values and one symbolic round', TB + 'The bit-set keeps its contract (T09). Graphs have at least two vertices where connectedness is asked (a graph of one vertex answers false, as its tests have it). The subdivided vertices are compared before they are renumbered with the chosen tree; the tree itself is not decided here.')

P('T12', 'Homology is assembled from ranks and divisors of the boundary maps',
  'Integral homology goes through all dimensions from the top down. In each one the rank of the boundary map is the place of the first zero on the diagonal of its normal form (all of the diagonal if there is none); the free rank is the number of columns minus this rank and the rank of the map above (none above the top); the torsion is the list of absolute diagonal entries of the map above, equal neighbours grouped with their multiplicity, units left out. The cycles are the combinations of cells by the transposed column operation from the rank on, the boundaries those by the transposed inverse row operation of the map above, below its rank, each times its own divisor. Dimensions above the bound and zero modules at the end are dropped, with the three lists in step. With field coefficients the dimension is columns minus rank minus the rank of the map above, for every map. The rank of a matrix over a field is what elimination leaves: at every place of the diagonal a pivot that is there, or brought there by adding (or swapping) a column with an entry to the right or a row with an entry below, counts one and clears all rows below it; a place without any such entry counts nothing. A matrix applied to cells gives for every row the sum of its entries times the cells; a module is zero without rank and divisors, and isomorphic when rank and divisors agree.',
  ['inputs'], 'all complexes, all boundary maps', 'The tests compare printed homology of a few fixed spaces.',
  ['topo_spaces/src/lib.rs', 'alg/src/lin_alg.rs', 'alg/src/lin_alg/matrix_impl.rs'], [('IntegralHomology::new, HomologyWithFieldCoefficients::homology', 'topo_spaces/src/lib.rs'), ('Module', 'alg/src/lin_alg.rs'), ('rank_as_linear_map, Matrix<i64> * Vec<Basis>', 'alg/src/lin_alg/matrix_impl.rs')],
  MIRSYM + '; maps and normal forms as opaque terms, one symbolic round over the maps and the state handed down', TB + 'smith_normal_form gives the normal form with its operations (T06); diagonal entries divide one another.')

P('T16', 'Arithmetic, values and slopes of smooth functions follow calculus',
  'An expression has at every point the value its shape names: the constants 0 and 1, a coordinate of the point, a real power, sine or cosine of the value inside, the sum of its terms times their coefficients, the product of its factors to their powers. Sum, difference, product, quotient, negation, multiplication and division by a number, whole and real powers, sine and cosine of expressions and of coordinates, the assigning forms, and the sum and product of several expressions have the values of those operations, so that simplification on the way never changes a value. The partial derivative follows the rules of calculus for constants, coordinates, real powers, sines, cosines, sums and products; the Jacobian of an expression is the row of its partial derivatives, and a vector of functions or a dense matrix of functions is evaluated entry by entry.',
  ['inputs'], 'all expressions, all points', 'The tests differentiate a few expressions and compare their shapes; none evaluates one.',
  ['analysis/src/lib.rs'], [('AtomicSmoothFn, MultiVarFn, Coordinate', 'analysis/src/lib.rs')],
  MIRSYM + '; closed summaries read in the algebra of values at a symbolic point, for every shape of the operands with up to three terms or factors', TB + 'Numbers are real (rounding is T30); sums and multiples of formal sums are those of T10. Sparse Jacobians, the order inside normal forms and printing are not covered; sums and products have up to three members (the summaries are closed in their number).', level='other')

P('T18', 'Simplices are sets of vertices, whatever their word counts',
  'A simplex is the set of vertices whose bits are set in its words, words that are not stored being empty. Union, intersection, containment, having a common vertex, being empty, equality and the order (by dimension, then by words from the first on) are those of these sets for operands stored in the same or in different numbers of words. The dimension is one less than the number of vertices (none for the empty set), making a simplex from a list adds each vertex and refuses repeated ones, adding a vertex makes room for it and changes nothing else, and the faces are one for each vertex, in the order of the vertices, each lacking exactly that vertex.',
  ['inputs'], 'all pairs of simplices, all numbers of words', 'The tests use a few fixed simplices with at most two words.',
  ['topo_spaces/src/simplicial/mod_impl.rs'], [('SimplicialCell', 'topo_spaces/src/simplicial/mod_impl.rs')],
  MIRSYM + '; words compared bit by bit at a symbolic word that both, only the first or only the second operand has', TB + 'Counting the bits of a word is decided by T09. A simplex without vertices has no faces to ask for.')

P('T19', 'Simplicial complexes keep maximal cells and boundary signs',
  'A complex made from labels has one vertex for each; attaching a simplex adds the labels that are new, each as a vertex, finds every vertex by its label, changes nothing more when a cell with all its vertices is there, and otherwise drops exactly the maximal cells inside the new cell and adds it. The dimension is the largest one of a maximal cell, a complex is connected when joining the cells that meet, from the first cell on and for as long as anything is added, reaches all vertices, and the number of cells of a dimension is counted by inclusion and exclusion over all sets of maximal cells, with alternating signs and binomial coefficients. The cells of a dimension are the maximal ones and the faces of the cells above, each once and in order. There is one boundary map for each dimension from 0 on, with a column for each cell and a row for each cell one dimension down; a column has alternating signs, starting anew, exactly in the rows of the faces, the map of dimension 0 is a zero row, and the basis lists the simplices of the columns with the labels of their vertices.',
  ['inputs'], 'all complexes', 'The tests build a few small complexes.',
  ['topo_spaces/src/simplicial/mod_impl.rs'], [('SimplicialCplx', 'topo_spaces/src/simplicial/mod_impl.rs')],
  MIRSYM + '; simplices as opaque sets, one symbolic round of each loop with its range', TB + 'The operations of a single simplex are those of sets (T18); numbers of cells do not overflow.')

P('T20', 'Cubes, their boundary and flow, and edge paths follow discrete Morse theory',
  'Two cube factors are disjoint when they share no vertex, disjoint factors are ordered by their smaller ends, a vertex is blocked when the next vertex along its tree edge is taken (vertex 0 always is) and flows along that edge, and an edge is disrespected by the vertices strictly between its ends. The boundary of a cube takes, for every edge, the difference of the two opposite faces with alternating signs, its faces kept sorted; the ends of an edge are its two faces. A cube is redundant or collapsible by its first factor that is an unblocked vertex or an undisturbed tree edge, otherwise critical; critical cubes flow to themselves, collapsible ones to zero, redundant ones past the matched face. Edge paths compose and invert as words, moves are reduced exactly when they undo each other with nothing in between that shares a vertex, every other move goes to the earliest step it can, and a path evaluates to the permutation of its simultaneous moves. The cells of a complex list each dimension once and decode from their index.',
  ['inputs'], 'all graphs, cubes and paths', 'The tests compute the homology of a few configuration spaces and compare a few cubes.',
  ['topo_spaces/src/graph.rs', 'topo_spaces/src/cubical.rs'], [('CubeFactor', 'topo_spaces/src/graph.rs'), ('Cube, UdnMorseCplx, CubicalCplx, EdgePath', 'topo_spaces/src/cubical.rs')],
  MIRSYM + '; case analysis on factors that are vertices or edges, one symbolic round of the reduction of a path', TB + 'Vertices are numbered by the chosen maximal tree (edges [i, j] with i < j), graph queries keep T11. That the flow terminates and that the Morse complex has the homology of the space is T31.')

P('T22', 'Sparse matrices have the entries and products of the dense ones they stand for',
  'Reading, iterating, transposing and multiplying a sparse matrix gives the entries, transpose and products of the dense matrix with the same entries.',
  ['inputs'], 'all sparse matrices', 'The tests use one or two small matrices.',
  ['alg/src/lin_alg/sparse_matrix_impl.rs'], [('SparseMatrix', 'alg/src/lin_alg/sparse_matrix_impl.rs')], MIRSYM, TB, na=LATER)

P('T30', 'Floating-point results are accurate and iterations converge',
  'Eigenvalues, factorizations and solutions computed in floating point are close to the exact ones, and the iterations that compute them terminate.',
  ['inputs'], 'all matrices', 'Accuracy and convergence depend on every rounding of every input.',
  ['alg/src/lin_alg/matrix_impl.rs'], [('QR iterations, LU without pivoting', 'alg/src/lin_alg/matrix_impl.rs')], 'none', '',
  na='Error bounds and convergence quantify over run-time rounding of unbounded iterations with data-dependent shifts (and are false without pivoting for some inputs); no sound static bound is in reach. T29 decides the exact-real identities instead.')

P('T31', 'Boundaries of boundaries vanish and the discrete flow computes homology',
  'For every complex the composition of consecutive boundary maps is zero, and the Morse complex of a configuration space has the homology of the space.',
  ['inputs'], 'all complexes', 'Only the homology of a handful of spaces is known to the tests.',
  ['topo_spaces/src/lib.rs', 'topo_spaces/src/cubical.rs'], [('boundary maps', 'topo_spaces/src/lib.rs')], 'none', '',
  na='A global statement about sums over all faces of all cells (after a recursive flow over a run-time graph); it needs an inductive proof of discrete Morse theory for this encoding, not an analysis of the source.')

P('T32', 'Computations finish and stay within the integer range',
  'No operation overflows its integer types or runs forever.', ['inputs'], 'all inputs', 'Overflow and non-termination need large or special inputs.',
  ['alg/src', 'topo_spaces/src'], [('integer arithmetic everywhere', 'alg/src')], 'none', '',
  na='False as stated for the code by design (entries of integer eliminations grow without bound in i64/i128, the unshifted Francis iteration can cycle), and bounds on the growth quantify over run-time values.')

P('T33', 'Delaunay triangulations have empty circumcircles',
  'The triangulation of every point set covers its hull with triangles whose circumcircles contain no other point.', ['inputs'], 'all point sets', 'The tests draw a few point sets.',
  ['geom/src/lib.rs'], [('delaunay', 'geom/src/lib.rs')], 'none', '',
  na='A geometric invariant over the whole history of floating-point insertions and flips; it does not follow from any local obligation on the code.')
