#!/usr/bin/env python3
# writes /verif/properties.jsonl
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or ["stdout of the msolve program"]
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

GBF = ["src/neogb/f4.c", "src/neogb/update.c", "src/neogb/symbol.c", "src/neogb/convert.c", "src/neogb/hash.c", "src/neogb/order.c", "src/neogb/basis.c"]
prop("C01", "Groebner bases over prime fields are exact",
 "For every input system over a prime field with characteristic below 2^31, the printed basis is the unique reduced Groebner basis of the ideal generated by the input for the graded reverse lexicographical order, with monic elements sorted by increasing leading monomial, and the printed leading ideal is its set of leading monomials. Terms whose coefficient vanishes in the field and zero generators do not change the ideal.",
 ["inputs", "configurations"], "every input system in the documented format, every prime below 2^31 (8, 16 and 31 bit arithmetic)",
 "the 55 tests fix about 15 prime-field systems at three primes; correctness has to hold for every ideal, every staircase shape and every prime, including the smallest ones and those next to the word-size limits",
 GBF + ["src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c", "src/neogb/io.c", "src/msolve/iofiles.c"],
 [("pair selection and Gebauer-Moeller criteria", "src/neogb/update.c"), ("symbolic preprocessing", "src/neogb/symbol.c"), ("row reduction per field size", "src/neogb/la_ff_{8,16,32}.c"), ("final inter-reduction", "src/neogb/f4.c: reduce_basis")])
prop("C02", "Groebner bases over the rationals are exact",
 "For every input system with rational coefficients, the printed basis is, up to a constant factor for each element, the unique reduced Groebner basis over the rationals of the ideal generated by the input for the graded reverse lexicographical order. This holds whatever the size of the coefficients of the input and of the result.",
 ["inputs"], "every input system with rational coefficients; every numerator/denominator size",
 "five rational systems are tested; the multi-modular lifting has data-dependent stopping rules, so correctness depends on coefficient sizes and shapes the tests never vary",
 ["src/msolve/lifting-gb.c", "src/msolve/lifting.c", "src/crt/mpq_reconstruct.c", "src/crt/mpz_CRT_ui.c", "src/neogb/modular.c", "src/neogb/f4.c"],
 [("Chinese remaindering", "src/crt/mpz_CRT_ui.c"), ("rational reconstruction", "src/crt/mpq_reconstruct.c"), ("lifting and verification loop", "src/msolve/lifting-gb.c"), ("traced modular F4", "src/neogb/modular.c")])
prop("C03", "Tuning options never change the computed basis",
 "For every input system, the printed Groebner basis is the same for every choice of linear algebra variant, maximal number of pairs per matrix, initial hash table size, hash table regeneration interval and verbosity.",
 ["inputs", "configurations"], "every input system crossed with every combination of tuning options",
 "each test runs one or two option settings on one system; interactions between small hash tables, pair limits and the probabilistic variants are never combined",
 GBF + ["src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c", "src/neogb/data.c", "src/msolve/main.c"],
 [("option dispatch", "src/neogb/io.c: set_function_pointers"), ("hash table growth and reset", "src/neogb/hash.c"), ("probabilistic linear algebra", "src/neogb/la_ff_*.c")])
prop("C04", "Elimination bases are exact",
 "For every input system and every admissible number of variables in the first block, over a prime field the printed basis is the reduced Groebner basis for the two-block elimination order, and over the rationals it is the reduced Groebner basis of the elimination ideal in the remaining variables.",
 ["inputs", "configurations"], "every input system, every block length between 1 and the number of variables minus one",
 "two tests with one system each; the block order takes separate code paths in comparison, pair handling and hashing",
 ["src/neogb/order.c", "src/neogb/io.c", "src/neogb/hash.c", "src/neogb/update.c", "src/msolve/lifting-gb.c", "src/msolve/msolve.c"],
 [("block order comparisons", "src/neogb/order.c"), ("block exponent vectors", "src/neogb/hash.c, src/neogb/io.c"), ("extraction of the elimination ideal", "src/msolve/lifting-gb.c")])
prop("C05", "Normal forms are exact",
 "For every input over a prime field and every number k of trailing polynomials, the printed normal forms of the last k polynomials are the unique remainders modulo the ideal generated by the others for the graded reverse lexicographical order, in input order. When the others are declared to be a Groebner basis already and are one, the same remainders are printed.",
 ["inputs", "configurations"], "every ideal, every list of polynomials to reduce (including zero, constants and members of the ideal), every prime",
 "four tests with fixed polynomials; remainders must be right for every polynomial and every ideal",
 ["src/neogb/nf.c", "src/msolve/msolve.c", "src/msolve/iofiles.c", "src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c"],
 [("normal form computation", "src/neogb/nf.c"), ("printing", "src/msolve/iofiles.c")])
prop("C06", "Saturation bases are exact",
 "For every list of polynomials followed by a last polynomial over a prime field of at least 17 bits, the saturation mode prints the reduced graded reverse lexicographical Groebner basis of the saturation of the ideal of the first ones by the last one.",
 ["inputs"], "every ideal and every nonzero saturating polynomial, every prime above 2^16",
 "three tests on two ideals; the algorithm interleaves saturation steps with the basis computation, and which steps happen depends on the ideal",
 ["src/neogb/f4sat.c", "src/msolve/msolve.c"],
 [("saturation steps interleaved with F4", "src/neogb/f4sat.c")])
prop("C07", "Empty, finite and infinite solution sets are told apart",
 "For every input system the solving mode reports no solution exactly when the ideal is the whole ring, infinitely many solutions exactly when the ideal has positive dimension, and otherwise a finite solution set together with the number of solutions counted with multiplicity; no other verdict and no missing answer is possible. Over prime fields with fewer than 2^16 elements, where separating linear forms need not exist, this is claimed for empty and infinite solution sets.",
 ["inputs"], "every input system over a prime field or the rationals",
 "seven tests fix the answer for one system each; the classification must hold for every staircase and also when generators are redundant, zero or constant",
 ["src/msolve/msolve.c", "src/msolve/hilbert.c", "src/msolve/iofiles.c"],
 [("dimension test on leading monomials", "src/msolve/hilbert.c, src/msolve/msolve.c"), ("printing", "src/msolve/msolve.c")])
prop("C08", "Parametrizations over prime fields describe the solutions",
 "For every zero-dimensional input over a prime field of characteristic between 2^16 and 1518500213 (larger ones are refused), when a parametrization is printed, its eliminating polynomial is squarefree, has as many roots as there are distinct solutions over the algebraic closure, and substituting the parametrized coordinates into every input polynomial gives zero modulo the eliminating polynomial, with the stated linear form equal to the parameter.",
 ["inputs", "configurations"], "every zero-dimensional ideal (radical or not, in shape position or not, any staircase), every genericity option",
 "six tests with fixed output files; non-generic staircases, changes of variable order and added linear forms are decided by the ideal at hand",
 ["src/msolve/msolve.c", "src/msolve/hilbert.c", "src/fglm/fglm_core.c", "src/fglm/linalg-fglm.c", "src/fglm/berlekamp_massey.c", "src/fglm/matrix-mult.c"],
 [("multiplication matrix", "src/msolve/hilbert.c"), ("Wiedemann/Berlekamp-Massey FGLM", "src/fglm/"), ("genericity handling", "src/msolve/msolve.c")])
prop("C09", "Parametrizations over the rationals describe the solutions",
 "For every zero-dimensional input with rational coefficients, the printed parametrization has a squarefree eliminating polynomial with exactly one root for each distinct complex solution, its denominator is the derivative of that polynomial, and substituting the parametrized coordinates into every input polynomial gives zero modulo the eliminating polynomial, with the stated linear form equal to the parameter.",
 ["inputs", "configurations"], "every zero-dimensional ideal over the rationals, every coefficient size, every genericity option",
 "a dozen tests with fixed answers; the lifting of the parametrization has data-dependent stopping rules",
 ["src/msolve/msolve.c", "src/msolve/lifting.c", "src/fglm/fglm_core.c", "src/crt/mpq_reconstruct.c", "src/crt/mpz_CRT_ui.c"],
 [("multi-modular lifting of the parametrization", "src/msolve/msolve.c, src/msolve/lifting.c")])
prop("C10", "Real solution boxes isolate exactly the real solutions",
 "For every zero-dimensional input with rational coefficients, the printed boxes are in bijection with the distinct real solutions: every box contains exactly one of them and every real solution lies in exactly one box, and all boxes for different solutions can be told apart. This holds for every requested precision, and the interval of the variable used as parameter is no wider than 2^-p for the requested precision p.",
 ["inputs", "configurations"], "every zero-dimensional ideal over the rationals, every precision, solutions with rational, dyadic, zero, huge, tiny and nearly equal coordinates",
 "ten tests compare with stored boxes; interval evaluation and refinement depend on root positions and precision",
 ["src/msolve/msolve.c", "src/usolve/usolve.c", "src/usolve/refine.c", "src/usolve/evaluate.c"],
 [("isolation of the eliminating polynomial", "src/usolve/"), ("interval evaluation of coordinates with precision doubling", "src/msolve/msolve.c")])
prop("C11", "Univariate real root isolation is complete and disjoint",
 "For every squarefree univariate polynomial with integer coefficients, root isolation returns exactly one interval per real root: intervals are pairwise disjoint, exact roots are reported as points, each open interval contains exactly one root, and the counts of negative and positive roots are right.",
 ["inputs", "configurations"], "every squarefree polynomial, every precision and thread count",
 "only reached through whole-system tests; root clusters, rational and dyadic roots, roots at zero, at powers of two and sparse polynomials are separate branches",
 ["src/usolve/usolve.c", "src/usolve/descartes.c", "src/usolve/taylor_shift.c", "src/usolve/refine.c", "src/usolve/utils.c", "src/usolve/evaluate.c"],
 [("Descartes bisection", "src/usolve/usolve.c, src/usolve/descartes.c"), ("Taylor shift", "src/usolve/taylor_shift.c"), ("quadratic interval refinement", "src/usolve/refine.c")],
 observe=["stdout of the msolve program on one-variable inputs", "real_roots() of the library"])
prop("C12", "Equivalent input texts give the same answer",
 "For every input system, the answer does not depend on how the text is written: spaces, tabs, blank lines, carriage returns, line breaks inside polynomials, a missing final line break, the order of the terms, of the factors of a term and of the generators, nonzero constant multiples of generators, explicit unit coefficients or exponents, a leading plus sign, coefficients given modulo the characteristic or as unreduced fractions, and the names of the variables. A file that repeats a variable name, has a characteristic that is negative or not below 2^31, or has a denominator that vanishes modulo the characteristic is refused.",
 ["inputs"], "every textual form of every input in the documented format",
 "one test program checks line endings of two files; the hand-written parser has separate branches for first and later terms, signs, digits and delimiters",
 ["src/msolve/iofiles.c", "src/msolve/main.c"],
 [("hand-written parser", "src/msolve/iofiles.c")])
prop("C13", "Results do not depend on the thread schedule",
 "For every input system and number of threads, every interleaving of the worker threads yields the same printed result as the single-threaded run, and no interleaving leads to a crash, a deadlock or a concurrent unsynchronised access to shared memory that can affect the result.",
 ["schedules", "inputs"], "every thread interleaving of the parallel regions, for every input and thread count",
 "the test environment runs with one thread, and a single threaded run per input says nothing about other interleavings",
 ["src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c", "src/neogb/convert.c", "src/neogb/update.c", "src/neogb/hash.c", "src/neogb/modular.c", "src/msolve/msolve.c", "src/fglm/linalg-fglm.c", "src/usolve/"],
 [("compare-and-swap on pivot rows", "src/neogb/la_ff_*.c"), ("critical sections", "src/neogb/hash.c, src/neogb/la_ff_32.c"), ("independent primes per thread", "src/msolve/msolve.c")],
 observe=["stdout of the msolve program", "memory accesses between threads"])
prop("C14", "Results do not depend on random choices",
 "For every input system, whatever values the random number generator and the clock deliver, the printed answer is correct: bases over prime fields use no randomness (unless one of the probabilistic linear algebras 42, 43, 44 is selected); every random linear form, separating or not, leads to all solutions over large prime fields and over Q; over Q every modular prime behind a first prime with the right leading monomials may be unlucky without changing the answer; and the behaviour of the clock, which schedules rational reconstruction, is irrelevant. (Excluded, because documented as probabilistic: a first prime whose leading monomials differ from those over Q, coefficients congruent to a small number modulo all primes used, and unlucky vectors of the Wiedemann algorithm.)",
 ["inputs", "fault_sequences"], "every sequence of answers of the random number generator and of the clock",
 "every test run draws one sequence; an unlucky prime or linear form has probability about 2^-30 in a test and is never seen",
 ["src/msolve/msolve.c", "src/msolve/lifting-gb.c", "src/msolve/primes.c", "src/neogb/la_ff_32.c", "src/fglm/fglm_core.c"],
 [("prime selection and bad-prime detection", "src/msolve/msolve.c, src/msolve/lifting-gb.c, src/msolve/primes.c"), ("random linear form", "src/msolve/msolve.c"), ("random multipliers", "src/neogb/la_ff_*.c")])
prop("C15", "No memory error or undefined behaviour on valid input",
 "For every input in the documented format and every combination of documented options, msolve terminates normally with an answer or a clean refusal, without reading or writing memory outside its objects, using freed memory, or executing undefined integer operations.",
 ["inputs", "configurations"], "every valid input, every documented option",
 "the tests run without instrumentation on inputs that do not reach the growth and boundary branches of the hash tables, bases, matrices and buffers",
 ["src/neogb", "src/msolve", "src/fglm", "src/usolve"],
 [("manual memory management and growth of tables", "src/neogb/hash.c, src/neogb/basis.c, src/neogb/symbol.c, src/msolve/iofiles.c")],
 observe=["process exit status under instrumentation"])
prop("C16", "Library calls return the right results whatever calls preceded them",
 "For every sequence of library calls (export_f4, export_nf, export_groebner_qq, msolve_julia) in one process, with any mixture of characteristics, monomial orders, elimination blocks and options, each call returns the correct basis, remainders, parametrization and real solutions, the same as in a fresh process, and the caller's input arrays are left with the same values (coefficients modulo the characteristic). Terms may be given in any order, coefficients unreduced or negative.",
 ["histories", "inputs"], "every sequence of library calls with different characteristics, orders and options",
 "each test process makes one call; the library keeps its dispatch tables in global variables that every call has to set completely",
 ["src/neogb/io.c", "src/neogb/data.c", "src/neogb/engine.c", "src/neogb/f4.c", "src/neogb/nf.c", "src/neogb/order.c", "src/msolve/lifting-gb.c", "src/msolve/msolve.c"],
 [("global function pointers set per call", "src/neogb/io.c: set_function_pointers"), ("marshalling of input and results", "src/neogb/io.c, src/neogb/f4.c, src/msolve/lifting-gb.c, src/msolve/msolve.c")],
 observe=["return values of export_f4, export_nf, export_groebner_qq and of msolve_julia"])
prop("C17", "All processor variants compute the same results",
 "For every input system, the portable build and the builds using the vector instruction sets print the same answer.",
 ["configurations", "inputs"], "every instruction-set configuration of the build, every input",
 "one build is tested, on the machine at hand; the other configurations compile different arithmetic code",
 ["src/neogb/la_ff_8.c", "src/neogb/la_ff_16.c", "src/neogb/la_ff_32.c", "src/fglm/inner-product.c", "src/fglm/matrix-mult.c", "src/fglm/linalg-fglm.c"],
 [("vectorised row operations", "src/neogb/la_ff_*.c"), ("vectorised matrix-vector products", "src/fglm/")])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
