SYM = 'symbolic execution of the compiled code (LLVM IR from rustc) with z3'
COMP = (SYM + ', loop summarisation', 'The harness entry point calling the public integrate is executed symbolically over the LLVM IR that rustc produces from the current tree: degree 1..2^32-1, bounds a, b and integrand are symbolic; loops are summarised with solver-checked induction, the points and coefficients are compared with the composite rule by z3 for all degrees and bounds. Floating point is read as real arithmetic (rounding is outside), |a|,|b| <= 1e100. Points that a loop carries along instead of computing from the index are flagged and replayed natively at large degrees against a few units of rounding. Candidates are confirmed by the native build before they are reported. Trusted: rustc, opt, z3, the executor.')
NOTE.update(C05=COMP, C06=COMP, C07=COMP)
TR = ' Candidates are confirmed by the native build before they are reported. Trusted: rustc, opt, z3, the executor.'
NOTE.update(
 C08=(SYM + ', loop summarisation', 'integrate of all six rules is executed symbolically over the LLVM IR of the current tree on a rule whose (node, weight) array has arbitrary contents and arbitrary length (1..2^32; the rule is built by the public constructor with an arbitrary table or eigen decomposition); integrand, a, b symbolic. z3 proves points, one evaluation per node and the weighted sum. Real arithmetic (rounding outside).' + TR),
 C09=(SYM + ' including the work-splitting schedule', 'par_integrate of all nine rules is executed over the IR of the current tree and of the real rayon crate; only rayon-core is replaced by a stub whose splitting decisions and execution order are symbolic choices (up to 3 threads, 4 for lengths 2..5). z3 compares points and weighted sum with the sequential rule. Lengths 1..8 (Simpson 1..6) with every schedule, every length with five fixed schedules of 1..4 threads. Real arithmetic (rounding outside).' + TR),
 C10=(SYM + ' including the work-splitting schedule', 'par_new and new are executed over the IR of the current tree (real rayon, rayon-core stubbed with symbolic schedules); the pair at a symbolic index of a symbolic degree is compared structurally, so that equality is bit for bit. Every schedule of <= 3 threads for degrees 1..9 and of <= 4 threads for 2..5; every degree up to 2^32 and index with 1..3 threads for the Chebyshev rules and for Legendre above 100; every tabulated Legendre degree with 3 threads.' + TR),
 C14=(SYM + ', nonlinear real arithmetic', 'One pair at a symbolic index j of a symbolic degree n (1..2^32) of GaussChebyshevFirstKind::new is executed symbolically over the IR of the current tree (loop summarised, memory holds formulas in the index); z3 proves length, arguments of the trigonometric functions and values against the closed form for all n, j. sin and cos are uninterpreted with the trigonometric identities; rounding outside (tolerance 1e-14).' + TR),
)
NOTE['C15'] = (NOTE['C14'][0], NOTE['C14'][1].replace('FirstKind', 'SecondKind'))
FP = (SYM + ', exact IEEE-754 (FloatingPoint theory)')
NOTE['C01'] = (FP, 'Every public way to obtain a FiniteAboveNegOneF64 (new, try_from, try_into, from_str, Default, deserialize, checked operations) is executed symbolically over the LLVM IR of the current tree with a symbolic 64-bit argument; z3 FP decides that a value comes out exactly when the argument is finite and > -1, and that it is that argument. Every f64 bit pattern, no bound. What the zerocopy derives offer is executed as well; TryFromBytes is a recorded finding. For from_str core::str float parsing is an uninterpreted function of the bytes.' + TR)
NOTE['C02'] = (FP, 'checked_add/sub/mul/div/pow, and default are executed over the IR with two symbolic operands; z3 FP decides that the result is the IEEE result when that is finite and > -1 and None otherwise, without panic. All pairs of f64. pow of libm/std is uninterpreted (only that the same function is applied to the same operands). Queries z3 cannot finish in its time are split by operand classes; what stays undecided is reported.' + TR)
NOTE['C11'] = (SYM + ', decided against exact references', 'NodeWeightPair construction for every degree 1..100 is executed over the IR of the current tree (index symbolic where the table permits, otherwise each of the finitely many (degree, index)); node and weight formulas are compared with high-precision Gauss-Legendre values and hence exactness to degree 2n-1. Complete for its 100 degrees.' + TR)
NOTE['C12'] = (SYM + ', nonlinear real arithmetic', 'Node and weight at a symbolic degree n > 100 and symbolic index k are executed over the IR of the current tree; the formulas are compared with the asymptotic expansion of Bogaert (independent transcription, validated against mpmath) on each path by solver and by exact evaluation. Real arithmetic: rounding is outside. n up to 2^32.' + TR)
NOTE['C13'] = (SYM + ', loop summarisation', 'GaussLegendre::new at a symbolic degree 1..2^32: the number of pairs is the degree, no panic or out-of-range access on any path, and pairs j and n-1-j mirror each other (z3 on the formulas at symbolic n, j; tabulated degrees individually).' + TR)
def gw(t): return (SYM + ', real arithmetic with an abstract eigen solver', t + ' nalgebra SymmetricEigen is abstracted: its result is an arbitrary eigen decomposition (contract A = QLQ^T); everything before (the matrix handed over) and after (weights from the first components, sort, special cases) is executed over the IR of the current tree and proved equal to the recurrence coefficients/moments of the weight function. Real arithmetic; the native build is compared with an mpmath reference where a candidate appears and at fixed samples.' + TR)
NOTE['C16'] = gw('Degrees 1..40, 64, 101, 128, 258.')
NOTE['C17'] = gw('Degrees 1..30, 33, 40, 64, 101, 128, 258, alpha symbolic over the whole domain; alpha() of the result for every degree.')
NOTE['C18'] = gw('Degrees 1..12, 16, 20, 21, 33, 40 with alpha, beta symbolic over the whole domain, 258 for alpha > 1, beta > 2. The middle node of odd rules being forced to 0 for alpha != beta is a recorded finding.')
NOTE['C19'] = (SYM, 'GaussJacobi::new with symbolic degree and parameters: on the special parameter pairs the result equals, pair by pair at a symbolic index, GaussLegendre/Chebyshev of the same degree (all degrees up to 2^32); everywhere alpha() and beta() return the arguments; From conversions of Legendre and Chebyshev rules with an arbitrary (havocked) table keep the table and set the parameters.' + TR)
NOTE['C03'] = (SYM + ' of call histories', 'Histories of iterator calls (prefix nth/nth_back with symbolic arguments reaching every state of the iterator, then every operation, then a follow-up) on a rule with an arbitrary table of arbitrary length are executed over the IR of the current tree; z3 compares every Option, index and length with a reference model of the sequence. iter, &rule, into_iter: every length and index argument; nodes, weights: every length with index arguments up to 2, and lengths 1..3 with every argument. Whole traversals: lengths 1..3. Views and as_slice: every length and index. All six rules with the full list of histories.' + TR)
NOTE['C04'] = (SYM + ' of call histories', 'As C03 for the node iterators of Midpoint, Simpson, Trapezoid: every degree with index arguments up to 2, degrees 1..3 with every argument; new/From/change_degree/clone/== for every pair of degrees in 1..2^32-1.' + TR)
NOTE['C20'] = (SYM + ', real arithmetic', 'Chebyshev: closed form of the pair at a symbolic index (every degree) within a tolerance below the gaps for degrees up to 10^6; Legendre: degrees 1..100 over the rationals, above by equality with the expansion at symbolic degree and index plus solver lemmas on its order and signs; Hermite, Laguerre, Jacobi: sort with every order of 2..4 symbolic eigenvalues, listed degrees with symbolic parameters, weights equal to mu_0 q^2. Abstract eigen solver. Two recorded findings (Jacobi).' + TR)
NOTE['C21'] = (SYM + ', sweep-proved term equality', 'The weight of the rules of degree 1 is executed over the IR of the current tree with symbolic parameters in [-0.9, 100]; on every path it is proved equal (polynomial identities by z3 over shared transcendental subterms) to a pinned Lanczos formula whose accuracy is checked against mpmath. Real arithmetic; the native build is compared at about 1400 parameter values. One recorded finding (overflow for large Jacobi parameters).' + TR)
NOTE['C22'] = (SYM, 'Serialize and Deserialize of every type (the derived code and serde itself) are executed over the IR of the current tree against a token format in the harness (structs as maps and as sequences): composite rules for every degree, Gauss rules with arbitrary tables of 1..8, 17, 64 pairs and symbolic parameters, FiniteAboveNegOneF64 for every double in exact IEEE arithmetic.' + TR)
NOTE['C24'] = (SYM, 'Serialization, resolution and deserialisation derived by rkyv, and the code of rkyv itself, are executed over the IR of the current tree (default features plus rkyv): the archive is written to a buffer by a small writer in the harness, read in place through its relative pointers and deserialised. Gauss rules with arbitrary tables of 1..24, 31..33, 63..65, 100, 128, 129, 257 pairs and symbolic parameters, composite rules of every degree, FiniteAboveNegOneF64 for every double in exact IEEE arithmetic. Validation of untrusted archives (bytecheck) is outside: the crate uses rkyv without it.' + TR)
NOTE['C23'] = (FP + ' with the formatting machinery of core recorded', 'Display, LowerExp, UpperExp and FromStr of FiniteAboveNegOneF64 are executed symbolically over the LLVM IR of the current tree with a symbolic double and a symbolic string. What reaches the digit printing of core is recorded: z3 decides that exactly one number is printed, with no literal text and the default options, and that this number is bit for bit the value; that FromStr gives the number parsed from exactly the bytes of the string, and refuses nothing that is valid. Every double. That core parses its own text of a finite f64 back to that f64 is an assumption about the standard library, not decided here.' + TR)
NOTE['C16'] = gw('Degrees 1..130, 160, 200, 255..258, 300, 520.')
NOTE['C17'] = gw('Degrees 1..129, 150, 200, 256..258, 300, 400, alpha symbolic over the whole domain; alpha() of the result for every degree.')
NOTE['C18'] = gw('Degrees 1..35, 40, 48, 50, 64, 65, 99..101, 128, 200, 258, 300 with alpha, beta symbolic over the whole domain (above degree 130 for alpha > 1, beta > 2). The middle node of odd rules being forced to 0 for alpha != beta is a recorded finding.')
NOTE['C25'] = (FP, 'Every comparison operator and partial_cmp of FiniteAboveNegOneF64 is executed over the LLVM IR of the current tree with two symbolic doubles; z3 FP decides that each result is that of the doubles. All pairs, both configurations.' + TR)
NOTE['C26'] = (FP, 'from_str and the error it gives (variant, wrapped error, source, clone) are executed over the LLVM IR of the current tree on a symbolic text; parsing of a f64 in core is an arbitrary function of the bytes it is given (z3 decides that these are exactly the bytes of the text), and z3 decides which outcome comes out when. Every text shorter than 2^32 bytes, both configurations. The message text of the errors is outside.' + TR)
NOTE['C27'] = (SYM, 'PartialEq and Clone of the six Gauss rules are executed over the LLVM IR of the current tree on two rules with arbitrary tables of 1..4 pairs (also 8 and 16, not for Jacobi) of the same and of different length and symbolic parameters; z3 decides that the result is the conjunction of all equalities, and clones hold structurally the same pairs. Entries are real numbers.' + TR)
src = open(V + '/gqv/props.py').read()
one = re.search(r'^ONE = (\{.*?\})', src, re.M)
for k in NOTE:
    if k not in eval(one.group(1)):
        NOTE[k] = (NOTE[k][0], NOTE[k][1] + ' Decided twice: for the default features (libm) and for std with rayon.')
