"""The checks: for each property its harnesses (sources, build options) and the words
that go into the evidence and the manifest."""
CHECKS = {}
MC = "model_checking"
DIRECT = ("Every case is run on the real code compiled from /repo (AddressSanitizer on) and compared with a reference "
          "model written for the purpose from the property, not from the code. Nothing is sampled. ")
TRUST = ("small-scope: what holds up to the bounds is taken to hold beyond them",
         "the compiler, the sanitizers, and the reference model in the harness")

def check(id, technique, note, harness, quick, thorough, assumptions=(), level=MC, rule=""):
    CHECKS[id] = dict(level=level, technique=technique, note=note, harness=harness,
                      bounds="quick: %s; thorough: %s" % (quick, thorough), rule=rule,
                      assumptions=list(TRUST) + list(assumptions))

SCHED = ("Stateless model checking of the real code: pthread creation, joins and mutexes are interposed, one thread runs at "
         "a time, and depth-first search runs every schedule with at most the stated number of preemptions. ")

# ---- threads and processes
check("T01", "stateless model checking of the real thread code under a controlled scheduler (all interleavings up to a preemption bound)",
      SCHED + "Each task records who ran it and when; exactly-once, thread numbers, completion before return, sums, mutual exclusion and "
      "stack sizes are checked in every schedule. Scheduling points are the pthread calls and the starts, middles and ends of tasks; a "
      "separate pass under ThreadSanitizer looks for unsynchronised accesses between them.",
      [dict(name="threads", src=["t01_threads.cpp"]),
       dict(name="old", src=["t01_old.cpp"]),
       dict(name="serial", src=["t01_serial.cpp"], pthreads=False),
       dict(name="openmp", src=["t01_serial.cpp"], pthreads=False, hflags=["-fopenmp"]),
       dict(name="tsan", src=["t01_tsan.cpp"], san="thread", hang=120)],
      "0..5 tasks on 1..4 threads with 1-3 preemptions, all weight vectors over 3 values and all assignments up to 4 tasks, up to 13 tasks on 5 threads without preemption, up to 257 tasks on one schedule, workers bound to six sets of cpus, nested and repeated loops, every set of failing thread creations, all five loop front ends",
      "0..6 tasks, one more preemption, weight vectors and assignments up to 5 tasks",
      ["sequentially consistent memory between scheduling points (races are left to the ThreadSanitizer pass, which is not exhaustive)",
       "the OpenMP run time is replaced by one over the controlled scheduler"])
check("T02", "bounded-exhaustive execution against a triple loop, and all interleavings of the block products up to a preemption bound",
      DIRECT + "Operands lie in guarded buffers, so that touching anything outside the result is seen. " + SCHED,
      [dict(name="gemmr", src=["t02_gemmr.cpp"])],
      "all shapes up to 5x5x5, all transpositions, block sizes, thread counts up to 9, leading dimensions, coefficients (zero included), real and complex, single and double; interleavings up to 3x3 results with 2 preemptions",
      "shapes up to 8x8x8, 2 preemptions everywhere")
check("T03", "exhaustive enumeration of task counts, worker counts and weight vectors",
      DIRECT + "The partition and the bounds on the loads are computed from the definition.",
      [dict(name="balance", src=["t03_balance.cpp"])],
      "0..80 tasks on 1..40 workers for equal weights; all weight vectors up to 6 tasks over 4 weights, 8 over 3, 4 over 7, 3 with weights beyond 32 bits, on 1..6 workers",
      "0..200 tasks on 1..70 workers; weight vectors up to 7 and 10 tasks")
check("T04", "stateless model checking of the message-passing layer over an in-process MPI under a controlled scheduler",
      SCHED + "The ranks are threads of one process over a small MPI library (matching by communicator, source and tag; standard sends both "
      "buffered and synchronous; collectives as the standard defines them; argument and buffer checks; deadlock detection). Every rank's "
      "result is compared with the serial one in every schedule.",
      [dict(name="mpi", src=["t04_mpi.cpp"], inc=["common/mpifake"], flags=["-DUSE_MPI"]), dict(name="nompi", src=["t04_serial.cpp"])],
      "1..3 ranks, world and sub-communicators, all roots, element and container types, lengths 0..3, sequences of two to three collectives, the distributed loop, the output of many processes, random streams of several ranks; 0-2 preemptions",
      "1..4 ranks, one more preemption",
      ["the in-process MPI follows the MPI 3.1 standard for the calls used"])

# ---- files
check("P01", "exhaustive enumeration of operation histories against a map model",
      DIRECT + "After each history every label is read back, by the right type, through reopened files, and what must be refused is tried.",
      [dict(name="hdf5", src=["p01_hdf5.cpp"])],
      "every value of a table of some 100 values of 20 types alone and overwritten by every other of its kind, before and after reopening; all histories of two operations, and of three over one label, from writes, overwrites, groups, flush, close, reopen, truncate, exclusive creation, refused reads; lists of more than ten entries, booleans up to 2^24+9, all pairs of nested labels",
      "all histories of three operations over two labels",
      ["the HDF5 library stores what it is told to"])
check("P02", "exhaustive enumeration of crash points and torn writes of the real library's write sequence",
      "All writes the HDF5 library makes to the file are recorded (interposed), for every history of library calls up to a depth. The file left "
      "by a death is every prefix of that record, the last write also torn; each is opened for reading by the real code, which must refuse "
      "it unless its state is one that was committed, and must then give exactly that state.",
      [dict(name="crash", src=["p02_crash.cpp"], san="")],
      "histories of up to 3 operations from 11 (4 for some), groups and marks included, every write boundary and several tear points of each write",
      "histories of up to 5 operations, and of up to 6000 writes that overflow the library's cache",
      ["writes reach the disk in order (a dead process, not a dead machine)"])
check("P03", "exhaustive enumeration of files and of histories of reader calls against a list-of-records model",
      DIRECT,
      [dict(name="text", src=["p03_text.cpp"])],
      "every value of the tables alone; every file of up to 3 records with every history of 2 reader calls, and up to 4 records with fewer; open modes, precisions 1..17 and long files; all short texts for the line reader",
      "up to 4 records with histories of 3 calls")
check("P04", "exhaustive enumeration of byte strings and of texts against RFC 4648",
      DIRECT,
      [dict(name="base64", src=["p04_base64.cpp"])],
      "all byte strings up to 2 bytes, each byte at each place of strings up to 8, all strings up to 5 over 8 boundary bytes, lengths to 300 and around the powers of two to 196612; all texts of 3 symbols over the alphabet with padding and strangers, up to 6 over 8 symbols",
      "all byte strings up to 3 bytes, 7 over the boundary bytes; texts of 4 symbols and 8 over 8 symbols")

# ---- languages
check("N01", "exhaustive enumeration of input files and read sequences against a table model",
      DIRECT,
      [dict(name="input", src=["n01_input.cpp"])],
      "all files of up to 3 statements from a list of some 30 (values, vectors, matrices, strings, complex numbers, comments, shorthand, repeated and prefix labels) with separators, spacings and endings, read in several orders; comments at every place of shorthand lines and lines of up to 1001 values; all numbers up to 4 characters and complex literals up to 6; all shapes of vectors and matrices; integers around the limits of each type; long vectors and many labels",
      "files of 4 statements, numbers of 5 and literals of 7 characters")
check("N02", "exhaustive enumeration of programs and literals against a reference interpreter",
      DIRECT + "Each label is read as every type; what must be refused is checked to be refused.",
      [dict(name="ainur", src=["n02_ainur.cpp"], ainur=True)],
      "all programs of up to 3 statements, all literals of up to 6 tokens read as scalars, vectors and matrices of each type, all complex literals up to 5 characters, macro chains of names up to 10 characters, tables, ellipses, integers around the limits of each type, long vectors and deep matrices",
      "programs of 4 statements, literals of 7 tokens")
check("N03", "exhaustive enumeration of predicates and assignments against a reference evaluator",
      DIRECT,
      [dict(name="predicates", src=["n03_predicates.cpp"])],
      "all comparisons between some 20 operands at 30 values for integer, unsigned and real variables, all conjunctions and disjunctions of three from nine, up to four variables, names of 1..10 characters used repeatedly in all separations, all texts of up to 5 characters over the language's alphabet",
      "four-fold conjunctions, texts of 6 characters")
check("N04", "exhaustive enumeration of token strings against a reference evaluator",
      DIRECT,
      [dict(name="expressions", src=["n04_expressions.cpp"])],
      "all token strings of up to 5 tokens over ten operators and four leaves (7 over fewer), real and complex; all sums of products of up to 2x2 factors from eight (3x2 and 1x3 from fewer) with all parentheses and signs; sums and products of up to 60 parts; malformed ones",
      "one more token or factor")
check("N05", "exhaustive enumeration of specification strings against a reference parser",
      DIRECT,
      [dict(name="specs", src=["n05_specs.cpp"])],
      "all words of up to 5 tokens of the bra/ket language, of up to 6 characters of the operator language, of up to 7 of the site language; long words and large numbers",
      "one more token or character")
check("N06", "exhaustive enumeration of option strings and texts against textual definitions",
      DIRECT,
      [dict(name="strings", src=["n06_strings.cpp"])],
      "all option lists of up to 4 entries, all texts of up to 7 characters over significant alphabets for each helper, long lists and texts",
      "one more character")
check("N07", "exhaustive enumeration of subsets of input entries and requested indices against the documented order",
      DIRECT + "Through the real input reader and through a plain table.",
      [dict(name="params", src=["n07_params.cpp"])],
      "for each of ten parameters all subsets of its entries with indices 0..3 and none, all indices asked for, three prefixes; all pairs of parameters with all subsets; two- and three-digit indices, entries after one another",
      "indices 0..5")

# ---- linear algebra
check("M01", "bounded-exhaustive comparison with a dense-table model, and all operation sequences to a depth",
      DIRECT + "The invariants of the compressed form are checked after every operation.",
      [dict(name="crs", src=["m01_crs.cpp"])],
      "all patterns of up to 3x3 (real and complex), all pairs of 2x2 for products and sums, all closure forms, all operation sequences of depth 3 over two registers; structured products up to 40x33 by 33x70, sums of sparse rows up to 260x260",
      "pairs of 3x3 patterns, sequences of depth 4")
check("M02", "bounded-exhaustive comparison with a table model, and all operation sequences to a depth",
      DIRECT,
      [dict(name="matrix", src=["m02_matrix.cpp"])],
      "all shapes from 0x0 to 3x3 over a small alphabet, all pairs of shapes, all closure forms, all sequences of depth 3 over two registers of changing shape; structured products up to 70x65 by 65x64",
      "larger alphabets, sequences of depth 4")
check("M03", "bounded-exhaustive comparison of expression programs with elementwise arithmetic",
      DIRECT,
      [dict(name="vector", src=["m03_vector.cpp"])],
      "all expression forms over three operands, destination aliased with each, lengths 0..4 and some to 257, real and complex",
      "longer vectors and more values")
check("M04", "exhaustive enumeration of small matrices against the equations that define each decomposition",
      DIRECT + "Residuals, orthonormality and ordering are computed independently; exponentials by scaling and squaring in long double.",
      [dict(name="decomp", src=["m04_decomp.cpp"])],
      "all real symmetric matrices up to 3x3 over four values (4x4 over two), all Hermitian up to 3x3, all general ones up to 3x3 over three values for singular values, inverses and eigenvalues, structured ones up to 12",
      "4x4 over three values, structured ones up to 24",
      ["tolerances of 1e-9 and the like stand for equality"])
check("M05", "exhaustive enumeration of operation histories against a dense model",
      DIRECT,
      [dict(name="sparse", src=["m05_sparse.cpp"])],
      "all histories of up to 3 operations on sparse vectors, all insertion sequences of up to 4 into rows, real and complex, long rows with repeated, cancelling and unsorted insertions",
      "one more operation")
check("M06", "bounded-exhaustive comparison with the elementwise definition",
      DIRECT,
      [dict(name="kron", src=["m06_kron.cpp"])],
      "all pairs of patterns up to 2x2 and 3x2, all sign vectors, both orders, all permutations of the product basis up to 4 (a covering set of larger), all block positions, products of matrices up to 8x16 and 16x17",
      "all permutations up to 6")
check("K01", "exhaustive enumeration against brute-force listings",
      DIRECT,
      [dict(name="combinatorics", src=["k01_combinatorics.cpp"])],
      "all words of up to 7 letters for permutations, all sums and parts up to 6, all packings up to 6x6 (all permutations up to 6), all 16-bit words at every shift and all pairs of bit positions in 64",
      "words of 8 letters, sums up to 8")
check("K02", "exhaustive enumeration of sequences against the contract of sorting",
      DIRECT,
      [dict(name="sort", src=["k02_sort.cpp"])],
      "all sequences of up to 7 over four letters (integers, unsigned, reals, strings), structured ones (nearly sorted, equal runs) up to 2049, default and given orders",
      "all of length 8, structured ones up to 130")

# ---- lattices
check("G01", "exhaustive enumeration of lattices, sizes and options against lattices written down by hand",
      DIRECT,
      [dict(name="lattices", src=["g01_lattices.cpp"])],
      "all lattice types and options up to 24 sites, all pairs of sites, all translations and reflections",
      "up to 48 sites")
check("G02", "exhaustive enumeration of inputs with numbered connectors, against the input",
      DIRECT + "Every connector is a number of its own, so that a coupling tells where it came from.",
      [dict(name="couplings", src=["g02_couplings.cpp"]), dict(name="ainur", src=["g02_ainur.cpp"], ainur=True)],
      "all lattices and options up to 9 sites, 1..3 orbitals, constant and varying connectors, real and complex, all pairs of sites and orbitals, all splits, spoilt inputs, pairs of terms, long-range matrices with every single entry, blocks of a lattice up to 36 sites, up to twelve terms, the same inputs in the Ainur language, bath sites",
      "up to 16 sites and 60 in blocks, all pairs of terms")

# ---- solvers
check("S01", "exhaustive enumeration of small Hermitian matrices, start vectors and options against exact spectra",
      DIRECT + "Exact spectra come from a Jacobi solver of the harness, restricted to what the start vector sees.",
      [dict(name="lanczos", src=["s01_lanczos.cpp"])],
      "all matrices of up to 4x4 over small alphabets x start vectors x reorthogonalisation x storage x steps x number of states, all small tridiagonal ones, tridiagonal ones up to 300, structured ones up to 90 with all Lanczos steps, repeated use, the stopping rule after every number of steps",
      "larger alphabets")
check("S02", "exhaustive enumeration of small tridiagonal operators, weights, signs and grids against pole sums",
      DIRECT,
      [dict(name="spectral", src=["s02_spectral.cpp"])],
      "all tridiagonal matrices of up to 3 steps over a small alphabet x weights x signs x grids on both axes, collections of up to three, Chebyshev expansions of up to 8 moments with both kernels, expansions and fractions of up to 101 terms, written and read back",
      "4 steps, more grids")
check("S03", "exhaustive enumeration of families of functions and parameters against closed forms",
      DIRECT,
      [dict(name="numerics", src=["s03_numerics.cpp"], flags=["-DUSE_GSL"], link=["-lgsl", "-lgslcblas"]), dict(name="nogsl", src=["s03_nogsl.cpp"])],
      "splines through all ordinates over three values on 3..6 nodes of three grids, bisection of some 30 functions on eight intervals with all iteration limits and tolerances, Runge-Kutta against an independent one for linear, polynomial and matrix systems, linear prediction of all small recursions and all orders, quadrature of polynomials on all intervals, minimisation of quadratics, grids for Fermi factors and special functions",
      "7 nodes and more recursions")
check("S04", "exhaustive enumeration of generator states and of seed/draw histories against the published recurrences",
      DIRECT,
      [dict(name="random", src=["s04_random.cpp"])],
      "minimal standard: one step from every state of 1/32 of the states (blocks of 4 million) and long sequences; Mersenne twister: 44 seeds, four turns of the state, all histories of 5 operations over two instances, up to 16 processes; drand48: seeds x ranks",
      "one step from every one of the 2^32 seeds of the minimal standard generator, histories of 6 operations, 200000 numbers per seed")

# ---- run bookkeeping
check("R01", "exhaustive enumeration of times, process numbers, argument lists, message histories and crash points",
      DIRECT + "Clock, process number and host name are supplied by the harness; redirected output is examined after the process ended normally, at once, or by a kill after any message.",
      [dict(name="run", src=["r01_run.cpp"])],
      "identifiers at 25000 microseconds x 8 process numbers and 3000 process numbers, argument lists of up to 4 from six, status files of up to 4 lines, all histories of 4 message operations from eight, redirection x modes x 0..4 messages x endings, long lines and many messages",
      "identifiers at all 1000000 microseconds, lists and files of 5, histories of 6 operations")

# ---- configuration
check("C01", "exhaustive enumeration of tag files, inclusion graphs and driver lists, the real scripts run on each, with a reference model of the language",
      "The Perl modules are run by perl on every file of the stated sets and compared with a model of the documented tag language; "
      "the makefiles they write are run by make in a scratch directory with a stand-in compiler that records what it was asked to do. Nothing is sampled. ",
      [dict(name="tags", src=["c01_tags.cpp"], nolib=True, pthreads=False)],
      "all sequences of up to 3 of 26 statements in one and two files, 14 tags x 31 contents x layouts x modes, inclusion graphs over three tags of up to two lines, flavors under 196 pairs of user files, makefiles of all sets of six drivers with every source changed in turn",
      "sequences of 4 statements, all inclusion graphs",
      ["blank lines and blanks at the ends of lines are not compared"])
