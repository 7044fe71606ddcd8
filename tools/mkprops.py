#!/usr/bin/env python3
"""Writes properties.jsonl (the list of properties lives here, in a readable form)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m} for n, m in state]
    if observe: a["observe_at"] = observe
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext},
              "why_tests_cant": why, "anchors": a})

prop("T01", "A threaded loop runs every task exactly once under every interleaving",
 "A parallel loop over N tasks on T threads executes each task index in range exactly once, hands each execution a thread number below T that no other concurrently running worker holds, and returns only after every task has finished. This holds for every interleaving of the workers, every N (including 0 and fewer tasks than threads), every T and every way of distributing the tasks, gather/sum steps run by the loop body combine all workers' contributions, and workers get the stack size asked for. If the system refuses to create a worker, the loop still waits for the workers that exist and then either has run every task or reports the failure with an error; it never returns silently with tasks undone.",
 ["schedules", "configurations"], "all thread interleavings (up to a preemption bound) x task counts x thread counts x task weights x loop front ends",
 "The driver programs run a loop once under whatever schedule the OS picks and only check the exit status; a lost or doubled task under another interleaving or thread/task ratio is never reached.",
 ["src/PthreadsNg.h", "src/Parallelizer2Pthread.h", "src/Pthreads.h", "src/NoPthreadsNg.h", "src/NoPthreads.h", "src/Parallelizer.h", "src/Parallelizer2.h", "src/Concurrency.h", "src/CodeSectionParams.h"],
 [("pthread worker function and loopCreate", "src/PthreadsNg.h"), ("parallelFor", "src/Parallelizer2Pthread.h"), ("work queue with mutex", "src/Pthreads.h")])

prop("T02", "Blocked, threaded matrix multiplication equals the plain product",
 "Multiplying two matrices through the blocked multi-threaded product gives C = alpha*op(A)*op(B) + beta*C exactly as the unblocked product does, for every combination of none/transpose/conjugate-transpose, every matrix shape and leading dimension, every block size and every number of threads. No element outside the m-by-n result is touched and no operand is modified.",
 ["inputs", "configurations", "schedules"], "all shapes up to 5 x all transpositions x block sizes x thread counts x interleavings of the block tasks",
 "No test of the stable set multiplies through the blocked product with blocks that do not divide the shape, and none varies the interleaving.",
 ["src/GemmR.h", "src/Parallelizer2Pthread.h", "src/BLAS.h"], [("GemmR operator()", "src/GemmR.h"), ("parallelFor", "src/Parallelizer2Pthread.h")])

prop("T03", "Load balancers partition the tasks: none lost, none doubled, loads even",
 "For every number of tasks, every number of workers and every vector of task weights, the blocks handed to the workers are disjoint, together contain each task exactly once, and ask for no worker beyond those available. Equal-weight distribution never gives one worker two or more tasks over another except where whole blocks of a fixed size force it, and weighted distribution never exceeds the greedy heaviest-first bound.",
 ["inputs", "configurations"], "all task counts up to 24, worker counts up to 8 and all small weight vectors; each rank of each communicator size for the cross-process balancer",
 "The drivers balance one fixed weight vector and check nothing about the result.",
 ["src/LoadBalancerDefault.h", "src/LoadBalancerWeights.h", "src/LoadBalancerMpi.h"], [("default balancer constructor", "src/LoadBalancerDefault.h"), ("weights balancer constructor", "src/LoadBalancerWeights.h"), ("MPI balancer constructor", "src/LoadBalancerMpi.h")])

prop("T04", "Message passing: collectives give every rank the serial result, without deadlock",
 "With any number of ranks and any relative speed of the ranks, broadcast gives every rank the root's value, reductions give the sum over ranks to those entitled to it, gathers leave the root with all ranks' data, point-to-point transfers deliver what was sent, and the distributed parallel loop runs every task on exactly one rank. Each call completes whenever all ranks make it, and never reads or writes outside its arguments, for every supported element and container type, sparse matrices included. Text files and progress messages that every rank writes contain what rank 0 wrote, once, and no rank fails in writing them.",
 ["schedules", "configurations"], "all rank interleavings (preemption bounded) x 1..4 ranks x roots x element/container types x buffered or rendezvous sends",
 "The stable build has no MPI at all: none of this code is even compiled by the tests.",
 ["src/MpiYes.h", "src/MpiNo.h", "src/Mpi.cpp", "src/InterNodeMpi.h", "src/LoadBalancerMpi.h", "src/Parallelizer.h", "src/Io/IoSimple.h", "src/ProgressIndicator.h", "src/CrsMatrix.h"],
 [("MPI wrappers", "src/MpiYes.h"), ("distributed loop", "src/InterNodeMpi.h")])

prop("P01", "HDF5 store: reading returns the last value written, across reopening",
 "After any history of creating groups, writing, overwriting, closing and reopening for append or reading, a read of a label returns exactly the last value written under it (scalars, strings, vectors, nested vectors, pairs, stacks, matrices, real or complex, bool), and labels never written or already written without overwrite permission are refused. Overwriting a value with one of the same structure replaces it. Other labels are never disturbed.",
 ["histories", "inputs"], "all operation histories up to a depth over a small set of labels, types and sizes (including empty and size-changing overwrites)",
 "testIoNg writes and reads a single fixed history and mostly prints; overwrite-after-reopen, size or type changes and interleavings of labels are not reached.",
 ["src/Io/IoNg.h", "src/Io/IoNgSerializer.h", "src/Io/TypeToH5.h", "src/Io/TypeToH5.cpp", "src/Matrix.h", "src/CrsMatrix.h", "src/Svd.h"],
 [("write/read/overwrite per type", "src/Io/IoNgSerializer.h"), ("open/close modes", "src/Io/IoNg.h")])

prop("P02", "An interrupted HDF5 run is never mistaken for a finished file",
 "If the process dies at any point before an output file is properly closed, opening what is left for reading either fails with an error or yields no wrong values: what was not closed is never accepted as a complete file, except in a state that an explicit flush had committed completely. A file that was closed properly is always accepted, and its contents are complete.",
 ["crash_points", "histories"], "every prefix of the sequence of file-system writes of several short histories, plus torn (half-performed) last writes, plus death right after every library call",
 "No test interrupts a writer.",
 ["src/Io/IoNg.h", "src/Io/IoNgSerializer.h"], [("canary written at creation and at close", "src/Io/IoNgSerializer.h"), ("close/open", "src/Io/IoNg.h")])

prop("P03", "Plain-text input/output: what is written is read back",
 "Scalars, vectors and matrices written in the labelled plain-text format (labels none of which begins another token of the file) are read back equal, by label, in any order the reader asks for after rewinding, including the n-th and the last instance of a repeated label. A missing label raises an error unless the caller asked to be told quietly, and reading one label never consumes or alters another.",
 ["inputs", "histories"], "all files of up to four labelled records over a small set of labels/values/types, and all short sequences of read/advance/rewind/count operations on them",
 "The tests read one file in file order and never ask for a later instance or a missing label.",
 ["src/Io/IoSimple.h", "src/Matrix.h", "src/Vector.h"], [("readline/advance/read/count", "src/Io/IoSimple.h")])

prop("P04", "Binary-to-text encodings are lossless and standard",
 "Encoding any byte string in base64 yields its standard padded encoding, and decoding that (also when split or whitespace-free concatenated by the encoder) yields the original bytes. Every string of symbols decodes without touching memory outside it, and inputs that are not base64 are treated the documented way.",
 ["inputs"], "all byte strings up to length 3 over the full byte alphabet where feasible and up to length 9 over a boundary alphabet",
 "base64test encodes one sentence.",
 ["src/PsiBase64.h", "src/PsiBase64.cpp"], [("Encode/Decode", "src/PsiBase64.cpp")])

prop("N01", "Classic input files: every label yields exactly the value the file gives it",
 "For every input file of label=value lines, labelled vectors, labelled matrices, comments and known options, reading a label returns precisely what the file assigns to it, independent of the order of lines, spacing and comments; when a label is repeated, successive reads return its successive occurrences, the last of which stays readable. Values given inline and shorthand lines mean the same as the long form. Unknown labels, missing values and malformed numbers are errors and not silently replaced values.",
 ["inputs", "programs"], "all files of up to four statements from a grammar of statements, with all separators/comment placements, and all read sequences",
 "The input reader is not instantiated by any test of the stable set; drivers use one file each.",
 ["src/InputNg.h", "src/InputCheckBase.h"], [("Writeable parser", "src/InputNg.h"), ("Readable readline/read", "src/InputNg.h")])

prop("N02", "Ainur input language: values, vectors, matrices and macros mean what they say",
 "For every program of declarations and assignments, the value read for a label is the last one assigned; vector ellipses, nested brackets, complex literals, strings and backslash macros expand to what they denote. Undeclared or redeclared labels, statements without their final semicolon, values that do not convert to the type they are read as, reads of unset labels and macros defined in terms of themselves are errors.",
 ["programs", "inputs"], "all programs up to four statements from a grammar of declarations, assignments, macros and literals; all literals up to a depth",
 "The two Ainur tests parse a fixed file and print.",
 ["src/Ainur/AinurSpirit.h", "src/Ainur/AinurSpirit1.cpp", "src/Ainur/AinurState.h", "src/Ainur/AinurConvert.cpp", "src/Ainur/AinurMacros.hh", "src/Ainur/AinurLexical.h", "src/Ainur/AinurComplex.hh", "src/InputNg.h"],
 [("statement parser", "src/Ainur/AinurSpirit1.cpp"), ("state", "src/Ainur/AinurState.h"), ("conversion", "src/Ainur/AinurConvert1.cpp"), ("macro expansion", "src/Ainur/AinurMacros.hh")])

prop("N03", "Predicates evaluate to their mathematical meaning",
 "A predicate built from comparisons (<, <=, >, >=, ==, !=), divisibility tests, conjunction and disjunction evaluates to its usual truth value for every assignment of its variables, with the variable substitutions it was given (names not contained in one another). Malformed predicates, division by zero and unknown names are errors.",
 ["programs", "inputs"], "all predicates up to three clauses over all operators and a small set of variables and constants, at all assignments",
 "No test of the stable set evaluates a predicate against an expected truth value.",
 ["src/PredicateSimple.h", "src/PredicateSimple.cpp", "src/PredicateAnd.h", "src/PredicateAwesome.h", "src/PredicateDefaultSpec.h"],
 [("isTrue", "src/PredicateSimple.h"), ("conjunction/disjunction", "src/PredicateAnd.h")])

prop("N04", "Expressions evaluate to their arithmetic meaning",
 "Expressions in the token language (arithmetic, trigonometric, exponential and conditional operators) and in the sum-of-products language (+, -, *, parentheses, complex unit, operator names) evaluate to the value given by ordinary arithmetic for every expression and every binding of the free names, for real and complex numbers (except that the token language protects divisions by numbers closer to zero than 0.001, and its pi has ten digits). Unknown tokens and missing operands are errors, and evaluating the same expression again gives the same result.",
 ["programs", "inputs"], "all well-formed expressions up to a token count over the operator alphabet, at a set of variable values; all token strings up to a length for the error part",
 "calculator runs with one expression and checks only the exit status; the sum-of-products language is compiled by no test.",
 ["src/AST/ExpressionForAST.h", "src/AST/Node.h", "src/AST/Tree.h", "src/AST/PlusMinusMultiplyDivide.h", "src/AST/AdditionalFunctions.h", "src/CanonicalExpression.h", "src/QuasiCanonical.h"],
 [("tree construction and evaluation", "src/AST/ExpressionForAST.h"), ("canonical evaluation", "src/CanonicalExpression.h"), ("splitting into terms", "src/QuasiCanonical.h")])

prop("N05", "Operator and state specifications decompose into the parts they name",
 "An operator specification string yields its label, degree of freedom, transposition mark and site exactly as written (and defaults where absent), and a bra/ket specification yields the state kind and number it names. Invalid specifications, such as site brackets that are unmatched or reversed, are errors.",
 ["inputs"], "all specification strings assembled from a small alphabet of labels, numbers and marks, plus all short strings over the special characters",
 "No test of the stable set uses these parsers.",
 ["src/OneOperatorSpec.h", "src/GetBraOrKet.h"], [("OneOperatorSpec constructor", "src/OneOperatorSpec.h"), ("GetBraOrKet", "src/GetBraOrKet.h")])

prop("N06", "Option sets and string utilities behave as set and text operations",
 "Option sets built from comma-separated text contain exactly the listed known options, and reject unknown ones. Text helpers (splitting, replacing, number recognition and conversion, base name, integer logarithm) agree with their textual definitions on every input.",
 ["inputs", "histories"], "all option strings and operation sequences up to a length; all short strings over an alphabet of significant characters",
 "The options driver checks exit status for one option string.",
 ["src/Options.h", "src/PsimagLite.h", "src/PsimagLite.cpp", "src/TypeToString.h", "src/LineMarker.h"], [("Options", "src/Options.h"), ("split/replaceAll/isAFloat/atoi", "src/PsimagLite.cpp")])

prop("N07", "Indexed solver and plot parameters fall back in the documented order",
 "A solver parameter is taken from the most specific labelled entry that the input provides, falling back from the given index to the next smaller ones, then to the unindexed label, then to the default. No parameter is influenced by the presence of another parameter's entry.",
 ["configurations", "inputs"], "all subsets of the labelled entries present in the input x all requested indices",
 "No test reads parameters from an input with indexed labels.",
 ["src/ParametersForSolver.h", "src/PlotParams.h"], [("constructor and lookup", "src/ParametersForSolver.h")])

prop("M01", "Sparse matrices are faithful to the dense matrices they represent",
 "Every way of building a compressed-row sparse matrix and every operation on it (products, sums, scaling, transpose conjugate, reordering, comparison, identity/diagonal/zero/Hermiticity tests, norms, text and binary round trips) agrees with the same operation on the equivalent dense matrix. Row pointers stay monotone and complete, columns stay in range, and no operation alters its other operands.",
 ["inputs", "histories"], "all sparsity patterns and value assignments over a tiny alphabet up to 3x3 (real and complex), all pairs for binary operations, and short operation sequences",
 "The CRS drivers print results for one or two hand-written matrices.",
 ["src/CrsMatrix.h", "src/SampleCRSMatrix.h"], [("constructors, multiply, sum, transposeConjugate, closures", "src/CrsMatrix.h")],
 state=[("row pointer / column / value arrays", "the compressed representation")])

prop("M02", "Dense matrix operations agree with their textbook definitions",
 "Construction, resizing, indexing, sums, products, scaling, transpose conjugation, identity and zero tests, norms, comparison, rotation, text and binary round trips of dense matrices agree with their elementwise definition for every shape, including empty and non-square ones. The shape mismatches that products, sums and rotations refuse are refused with an error that leaves the operands alone.",
 ["inputs", "histories"], "all matrices over a small value alphabet up to 3x3, all pairs of shapes, real and complex, and all closure expressions up to a depth",
 "The drivers exercise a single square real matrix.",
 ["src/Matrix.h", "src/Matrix.cpp", "src/MatrixNonOwned.h"], [("closures, multiply, rotate, IO", "src/Matrix.h"), ("LAPACK wrappers", "src/Matrix.cpp")])

prop("M03", "Vector expressions and vector text round trips are elementwise exact",
 "Vector sums, differences, scalings, compound assignments, inner products, norms and matrix-vector products give the elementwise mathematical result, for every length and expression shape, also when the destination appears in the expression. Writing a vector to text and reading it back gives the same vector.",
 ["inputs", "programs"], "all expressions up to three operands x lengths 0..4 x a small value alphabet, with aliasing",
 "The vector drivers evaluate two expressions with no aliasing and print them.",
 ["src/Vector.h", "src/Complex.h", "src/Matrix.h"], [("expression closures", "src/Vector.h")])

prop("M04", "Dense decompositions satisfy their defining identities",
 "Eigen-decomposition returns ascending eigenvalues and orthonormal vectors that reconstruct the Hermitian input, singular value decomposition reconstructs its input with orthonormal factors, and inverses of square matrices, exponentials (exp(A) of a real, exp(iA) of a complex Hermitian matrix) and general eigenvalues satisfy their defining equations. This holds for every input matrix, including degenerate, singular-block, non-square and complex ones.",
 ["inputs"], "all Hermitian (and general) matrices over a tiny alphabet up to 3x3 (4x4 sampled by structure classes), all shapes of SVD input up to 4x4, real and complex",
 "testLapack diagonalises one matrix and prints; complex and degenerate inputs are not checked.",
 ["src/Matrix.h", "src/Matrix.cpp", "src/Svd.h", "src/LapackExtra.h"], [("diag, geev, inverse, exp", "src/Matrix.cpp"), ("Svd operator()", "src/Svd.h")])

prop("M05", "Sparse vectors and sparse rows equal the dense vectors they represent",
 "A sparse vector or sparse row built by any sequence of insertions (duplicates included, in any order), slices, scalings, sums, sorting or clean-up represents the same dense vector as the model, and (once sorted) products, norms, comparison and conversion agree with it.",
 ["histories", "inputs"], "all insertion/operation sequences up to depth 4-5 over 3-4 indices and a small value alphabet",
 "No test of the stable set instantiates sparse vectors beyond one printing driver.",
 ["src/SparseVector.h", "src/SparseRow.h", "src/SparseRowCached.h"], [("SparseVector", "src/SparseVector.h"), ("finalize", "src/SparseRow.h")])

prop("M06", "Tensor products and block embeddings place every element where they should",
 "Outer (tensor) products of sparse or dense matrices, with either operand order, with sign factors and with index permutations, and embedding a block into a larger matrix, give exactly the elementwise definition. Result dimensions are the products of the dimensions, also when an operand is empty or not square.",
 ["inputs"], "all pairs of sparsity patterns up to 2x2/3x2, all sign vectors and all permutations of the product basis",
 "No test in the stable set calls them with a permutation or signs.",
 ["src/CrsMatrix.h", "src/Matrix.h"], [("externalProduct, fromBlockToFull", "src/CrsMatrix.h"), ("externalProduct / outerProduct", "src/Matrix.h")])

prop("K01", "Combinatorial enumerators list each object exactly once, in order",
 "Permutation, fixed-sum decomposition and packed-index enumerators visit every object of the described set exactly once and then report the end, packing and unpacking are mutually inverse, and bit-counting helpers agree with counting bit by bit.",
 ["inputs", "configurations"], "all sizes up to 6-7 elements, all sums/parts/selections up to small bounds, all 16-bit words and boundary patterns of wider ones",
 "One driver prints decompositions of a single number; the others are compiled by no test.",
 ["src/Permutations.h", "src/SumDecomposition.h", "src/PackIndices.h", "src/BitManip.h"], [("increase", "src/Permutations.h"), ("recursion", "src/SumDecomposition.h"), ("pack/unpack", "src/PackIndices.h")])

prop("K02", "Sorting returns an ordered permutation of its input with the right index map",
 "Sorting a vector leaves it in ascending order (or that of the comparison given), holding exactly the same elements, and returns the permutation that maps the sorted positions to the original ones. Searching helpers report an element's first position if and only if it is present.",
 ["inputs"], "all sequences up to length 7 over a four-letter alphabet, plus longer structured ones, ascending and descending, for every supported container",
 "The sort driver sorts one vector and prints.",
 ["src/Sort.h", "src/Vector.h"], [("Sort::sort", "src/Sort.h"), ("isInVector / indexOrMinusOne", "src/Vector.h")])

prop("G01", "Lattice connectivity is symmetric, irreflexive, complete and indexed bijectively",
 "For every lattice type and size, the connection relation is symmetric, connects no site to itself and contains exactly the bonds of the lattice; each bond belongs to one direction, and on lattices that number their bonds (chains, ladders, stars) the numbers within a direction are distinct and below the announced number of couplings. Translations and reflections map bonds to bonds where the lattice has them. Sizes or options a lattice cannot have are refused.",
 ["configurations", "inputs"], "all lattice types x sizes up to about 24 sites x legs x periodicity options, and all pairs of sites",
 "No test of the stable set instantiates any geometry.",
 ["src/Geometry/LongChain.h", "src/Geometry/Ladder.h", "src/Geometry/LadderX.h", "src/Geometry/LadderBath.h", "src/Geometry/Star.h", "src/Geometry/Honeycomb.h", "src/Geometry/LongRange.h", "src/Geometry/KTwoNiFFour.h", "src/Geometry/GeometryBase.h"],
 [("connected/calcDir/handle/getVectorSize", "src/Geometry/*.h")])

prop("G02", "Couplings between sites are exactly those the input assigns to the bond",
 "The coupling matrix reported for a pair of sites in any term is the input connector of that bond's direction and position (with several orbitals a matrix, conjugate transposed for the opposite order; with one orbital the same number for both orders) and zero for unconnected pairs. It is the same whether looked up or computed through a system/environment split, also while the lattice is still growing, each pair is classified to the side of the split it belongs to, and splitting lists every site once.",
 ["configurations", "inputs"], "all lattices and term options up to about 10 sites, all pairs of sites and orbitals, all split positions",
 "No test of the stable set instantiates any geometry.",
 ["src/Geometry/Geometry.h", "src/Geometry/GeometryTerm.h", "src/Geometry/GeometryDirection.h", "src/Geometry/GeometryBase.h"],
 [("calcValue/cacheValues", "src/Geometry/GeometryTerm.h"), ("connectionKind/split", "src/Geometry/Geometry.h")])

prop("S01", "Lanczos reproduces the spectrum and eigenvectors of the operator it is given",
 "For every Hermitian operator and start vector the solver's lowest states (among those the start vector has a component on) have energies equal to the exact eigenvalues within tolerance, eigenvectors satisfying the eigen-equation, unit norm and mutual orthogonality, and the tridiagonal decomposition is the projection of the operator on the orthonormal Krylov basis. The limit of steps is kept, and an iteration that stops before it has used up the space has seen none of the wanted states move by the tolerance or more in its last step; the solver can be used again, and results do not depend on the reorthogonalisation, storage or multi-state options beyond tolerance.",
 ["inputs", "configurations"], "all Hermitian matrices over a tiny alphabet of size 1..4 plus structured ones up to 30, x start vectors x solver options",
 "The Lanczos driver diagonalises one random matrix and prints the energy.",
 ["src/LanczosCore.h", "src/LanczosSolver.h", "src/LanczosVectors.h", "src/TridiagonalMatrix.h", "src/TridiagonalMatrix.cpp", "src/LanczosOrDavidsonBase.h", "src/ParametersForSolver.h"],
 [("decomposition", "src/LanczosCore.h"), ("computeOneState/computeAllStatesBelow", "src/LanczosSolver.h")])

prop("S02", "Spectral functions equal their pole sums and survive being stored",
 "A continued fraction evaluated at any complex frequency equals the sum over poles of intensity divided by frequency minus pole, on real and imaginary axes alike, a collection equals the sum of its members, plots hold the grid asked for, and Chebyshev moments (expectation values of Chebyshev polynomials of the scaled operator) and kernels reconstruct the density they define. Writing any of them out and reading it back gives the same function.",
 ["inputs", "configurations"], "all small tridiagonal matrices over a value alphabet x weights x signs x frequency grids",
 "The continued fraction driver reads a fixed file that is not shipped with the stable set.",
 ["src/ContinuedFraction.h", "src/ContinuedFractionCollection.h", "src/ChebyshevFunction.h", "src/ChebyshevFunctionExplicit.h", "src/ChebyshevSerializer.h", "src/ChebyshevSolver.h", "src/PlotParams.h"],
 [("iOfOmega/plot", "src/ContinuedFraction.h"), ("plot", "src/ChebyshevSerializer.h")])

prop("S03", "Numerical kernels meet their contracts: exact cases exact, errors reported",
 "Interpolation passes through its nodes and reproduces straight lines, root finding returns a point between opposite signs where the function is below tolerance or reports failure, the differential-equation solver is exact to its order, quadrature and minimisation converge on the functions they promise to handle, linear prediction continues sequences that obey a linear recursion (order at most half the points), and Fermi factors and special functions obey their symmetry and limits without overflow.",
 ["inputs"], "a finite family of polynomials/intervals/parameters enumerated completely for each kernel",
 "The drivers evaluate one function and print; most of these kernels are compiled by no test.",
 ["src/AkimaSpline.h", "src/RootFindingBisection.h", "src/RungeKutta.h", "src/Integrator.h", "src/Minimizer.h", "src/LinearPrediction.h", "src/Fermi.h", "src/SpecialFunctions.h"],
 [("spline", "src/AkimaSpline.h"), ("bisection", "src/RootFindingBisection.h"), ("RK4", "src/RungeKutta.h"), ("recursion fit", "src/LinearPrediction.h")])

prop("S04", "Random generators follow their published recurrences and are reproducible",
 "Seeded generators (Mersenne twister 19937, 48-bit linear congruential, minimal standard) produce exactly the published sequence of their algorithm; the same seed gives the same sequence again, regardless of other instances where the generator keeps its own state; reseeding restarts it; each process of several gets numbers of its own; and uniform deviates stay within the documented interval.",
 ["inputs", "histories"], "all seeds in a boundary set and long prefixes of the sequences, all short histories of seed/draw operations over two instances",
 "The random driver prints one number.",
 ["src/MersenneTwister.h", "src/MersenneTwister.cpp", "src/Random48.h", "src/RandomForTests.h"], [("generate/seed", "src/MersenneTwister.cpp"), ("operator()", "src/RandomForTests.h")])

prop("R01", "Run identifiers verify themselves and run bookkeeping is well formed",
 "Every run identifier produced, for any time, process number and host, carries the check digits that its own leading digits determine, and the command line recorded with a run reproduces the one given. Progress messages, buffered or not, also those built again and again in the same stream, and redirected output go completely and in order to the selected destination, unbuffered output also when the process is killed; the recorded times and memory figures are those of the system.",
 ["inputs", "configurations"], "all times/process numbers of a boundary set with the environment calls intercepted; all argument lists over a small alphabet",
 "Tests only construct the object once with the real clock.",
 ["src/ApplicationInfo.h", "src/ProgressIndicator.h", "src/ProgressIndicator.cpp", "src/RedirectOutput.hh", "src/MemoryUsage.h"], [("runId", "src/ApplicationInfo.h"), ("printline", "src/ProgressIndicator.h")])

prop("C01", "Configuration tag files mean what the tag language says, and build right",
 "Reading configuration tag files, in the order given, defines, extends, keeps, removes or refuses each tag exactly as the documented modes (=, +=, =?, =!, -=, -=!, empty parentheses) say, for one-line and block contents alike; nothing in a file is silently dropped, and malformed files, unknown modes, missing or self-containing tags are refused; expanding a tag replaces every inclusion by the contents of the tag it names and removes each escape once, at any depth. The makefile written for a flavor and a list of drivers builds every program once from exactly its objects and libraries with the flags of the flavor, rebuilds exactly what a changed source requires, and cleans only what it built.",
 ["inputs", "histories", "configurations"], "all short sequences of statements over one and two files, all layouts of a definition, all inclusion graphs over three tags, all sets of drivers with each source changed in turn",
 "No test runs the scripts.",
 ["scripts/PsiTag.pm", "scripts/NewMake.pm", "scripts/Make.pm", "scripts/psiTag.pl"], [("readTags/addTag/unWrap", "scripts/PsiTag.pm"), ("main/getConfigContent", "scripts/NewMake.pm"), ("newMake", "scripts/Make.pm")])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
