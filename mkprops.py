#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a script so that the texts are easy to edit)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=None)))
S=(16,256,512,1024)
prop("C01","Default products are exact negacyclic products",
 "For every size n in {16, 256, 512, 1024}, each of the five products of the default implementation, given two polynomials with coefficients in [0, Q-1], stores in c exactly the coefficients of a*b modulo (X^n + 1, Q), each in [0, Q-1]. This holds for all coefficient values, including all-zero, all-(Q-1), sparse and structured polynomials, wherever the int32 arrays lie in memory.",
 ["inputs","configurations"],"all a, b in [0,Q-1]^n, n in {16,256,512,1024}, product variants 1..5",
 "Tests multiply random and monomial polynomials (and one KAT); the input space has 12289^(2n) points and a bug tied to particular values, positions or patterns is not sampled.",
 ["src/ntt.c"]+[f"src/ntt{n}.c" for n in S]+[f"src/ntt{n}.h" for n in S]+["src/make_tables.c"],
 [("ntt<n>_product1..5: scale by psi, forward NTT, pointwise product, inverse NTT, unscale","src/ntt<n>.c"),("modular multiplication","src/ntt.c")],
 ["ntt16_product1 ... ntt1024_product5"])
prop("C02","Naive products are exact negacyclic products",
 "For every size n in {16, 256, 512, 1024}, each of the five products of the naive implementation, given two polynomials with coefficients in [0, Q-1], stores in c exactly the coefficients of a*b modulo (X^n + 1, Q). Every coefficient of the result is in [0, Q-1], never negative.",
 ["inputs","configurations"],"all a, b in [0,Q-1]^n, n in {16,256,512,1024}, product variants 1..5",
 "The tests normalise the result before they compare it, so they do not see its range, and for n = 1024 the run stops after the second product.",
 ["src/naive_ntt.c"]+[f"src/naive_ntt{n}.c" for n in S]+["src/make_tables.c"],
 [("naive_ntt<n>_product1..5","src/naive_ntt<n>.c")],["naive_ntt16_product1 ... naive_ntt1024_product5"])
prop("C03","Lazy-reduction C products are exact negacyclic products",
 "For every size n in {16, 256, 512, 1024}, each of the five products of the Longa-Naehrig (red) C implementation, given two polynomials with coefficients in [0, Q-1], stores in c exactly the coefficients of a*b modulo (X^n + 1, Q), each in [0, Q-1]. The scale factors that lazy reduction introduces cancel and no extreme input escapes the final correction.",
 ["inputs","configurations"],"all a, b in [0,Q-1]^n, n in {16,256,512,1024}, product variants 1..5",
 "Correctness of the final correction depends on worst-case ranges; the tests use random inputs, which concentrate far from the worst case.",
 ["src/ntt_red.c"]+[f"src/ntt_red{n}.c" for n in S]+["src/make_red_tables.c"],
 [("ntt_red<n>_product1..5 with reduce_array, reduce_array_twice, correct","src/ntt_red<n>.c")],["ntt_red16_product1 ... ntt_red1024_product5"])
prop("C04","AVX2 products are exact negacyclic products",
 "On a machine with AVX2, for every size n in {16, 256, 512, 1024}, each of the five assembly-backed products, given two polynomials with coefficients in [0, Q-1], stores in c exactly the coefficients of a*b modulo (X^n + 1, Q), each in [0, Q-1]. The int32 arrays need no more than the natural alignment of int32.",
 ["inputs","configurations"],"all a, b in [0,Q-1]^n, n in {16,256,512,1024}, product variants 1..5, any 4-byte alignment",
 "Tests use random polynomials in statically allocated (well aligned) arrays.",
 ["src/ntt_asm.S"]+[f"src/ntt_red_asm{n}.c" for n in S]+["src/make_red_tables.c"],
 [("ntt_red<n>_product1_asm .. 5_asm","src/ntt_red_asm<n>.c")],["ntt_red16_product1_asm ... ntt_red1024_product5_asm"])
prop("C05","Default transforms compute the NTT they document",
 "For every power-of-two size n from 2 to 2048 and every psi with psi^n = -1 modulo Q, each default transform, given the table of powers it documents and coefficients in [0, Q-1], computes exactly the number-theoretic transform it documents (including the combined multiplication by powers of psi), in the documented input and output order. All results are in [0, Q-1].",
 ["inputs","configurations"],"all n = 2..2048 (powers of two), all valid psi, all a in [0,Q-1]^n, nine transforms",
 "Tests run a few sizes with one fixed psi each on monomials and random arrays.",
 ["src/ntt.c","src/ntt.h"],[("ntt_ct/gs_rev2std/std2rev and mulntt/nttmul variants","src/ntt.c")],["ntt.h"])
prop("C06","Naive transforms compute the NTT they document",
 "For every power-of-two size n from 2 to 2048 and every psi with psi^n = -1 modulo Q, each naive transform, given the table of powers it documents and coefficients in [0, Q-1], computes exactly the number-theoretic transform it documents, in the documented input and output order. All results are in [0, Q-1].",
 ["inputs","configurations"],"all n = 2..2048 (powers of two), all valid psi, all a in [0,Q-1]^n, eight transforms",
 "The generic naive transforms are only reached through the four fixed sizes, and results are normalised before comparison.",
 ["src/naive_ntt.c","src/naive_ntt.h"],[("*_naive transforms","src/naive_ntt.c")],["naive_ntt.h"])
prop("C07","Lazy-reduction transforms are congruent to the NTT",
 "For every power-of-two size n from 2 to 2048, every psi with psi^n = -1 modulo Q and all coefficients of absolute value at most 21499, each red C transform, given the scaled signed table it documents, yields for every position an int32 congruent modulo Q to the documented transform in the documented order.",
 ["inputs","configurations"],"all n = 2..2048, all valid psi, all a in [-21499,21499]^n, eight transforms",
 "Tests use one psi per size and small random inputs, never the edges of the documented input range.",
 ["src/ntt_red.c","src/ntt_red.h"],[("ntt_red_*, mulntt_red_*, nttmul_red_*","src/ntt_red.c")],["ntt_red.h"])
prop("C08","AVX2 transforms agree bit for bit with the C transforms",
 "For every power-of-two size n from 16 to 2048, every table of multipliers whose structure is documented, and all coefficients in the documented range, each assembly transform leaves in the array exactly the same 32-bit integers as the C transform of the same name. This holds for arrays at any 4-byte-aligned address and tables at any 2-byte-aligned address.",
 ["inputs","configurations"],"n in {16,...,2048}, all valid psi, all a in [-21499,21499]^n, all alignments, eight transforms",
 "Tests compare on random data for some sizes with aligned static arrays and one table per size.",
 ["src/ntt_asm.S","src/ntt_asm.h","src/ntt_red.c"],[("AVX2 butterflies, shuffles and block loops","src/ntt_asm.S")],["ntt_asm.h"])
prop("C09","Default and naive elementwise products are exact modulo Q",
 "For every array length and all operands in [0, Q-1], the elementwise, 16-bit-table and scalar products of the default and the naive implementations return exactly the product modulo Q, in [0, Q-1], at every index, and leave their other operands unchanged.",
 ["inputs"],"all 12289^2 operand pairs (enumerated), all array lengths including 0 and odd ones",
 "Tests only exercise them inside whole polynomial products.",
 ["src/ntt.c","src/naive_ntt.c"],[("mul_array16, mul_array, scalar_mul_array and _naive","src/ntt.c, src/naive_ntt.c")],["ntt.h","naive_ntt.h"])
prop("C10","Scalar reduction primitives meet their congruence and range contracts",
 "In the red C implementation, for every array length and every operand in its documented domain: reduction yields exactly red(x) = 3(x mod 4096) - floor(x/4096), which is congruent to 3x and lies in [-524287, 536573]; double reduction yields red(red(x)), congruent to 9x and in [-130, 12413]; normalisation the residue (or that of x/3) in [0, Q-1]; shift the representative in [-6144, 6144]; correction, for x in [-Q, 2Q-1], the residue in [0, Q-1]; and the multiply-reduce operations exactly red(xy), congruent to 3xy, for every product in the documented window. They apply to every element of the array and to nothing else.",
 ["inputs"],"all int32 x (all 2^32 in the thorough tier), all operand pairs whose product is in the documented 44-bit window, all lengths",
 "Unit tests only run them through products; their domains have 2^32 to 2^64 points and errors hide at boundaries.",
 ["src/ntt_red.c","src/ntt_red.h"],[("normalize, normalize_inv3, shift_array, reduce_array(_twice), correct, mul_reduce_array(16), scalar_mul_reduce_array","src/ntt_red.c")],["ntt_red.h"])
prop("C11","AVX2 primitives agree bit for bit with the C primitives",
 "For every array length that is a positive multiple of 16 and every operand in the documented domain, each assembly reduction, shift, correction and multiply-reduce routine stores exactly the same 32-bit integers as the C routine of the same name. This holds for arrays at any 4-byte-aligned address and 16-bit tables at any 2-byte-aligned address.",
 ["inputs","configurations"],"all multiples of 16 up to 4096, all int32 operands in domain, all alignments",
 "test_avx uses only power-of-two lengths, aligned static arrays and uniformly random values.",
 ["src/ntt_asm.S","src/ntt_asm.h"],[("reduce_array_asm ... scalar_mul_reduce_array_asm","src/ntt_asm.S")],["ntt_asm.h"])
prop("C12","Size-specific transforms and inverses undo each other",
 "For n in {16, 256, 512, 1024} and every implementation (default, naive, red C, AVX2), the size-specific forward transforms compute the documented NTT for the shipped psi, and each size-specific inverse transform applied to the output of any forward transform whose output order it accepts returns n times the original polynomial modulo Q; the shipped scaling tables and constants then restore the polynomial exactly.",
 ["inputs","histories","configurations"],"all a in [0,Q-1]^n, all matching forward/inverse pairs, four sizes, four implementations",
 "Tests check some of the pairs on monomials and random polynomials, and nothing checks naive, red and AVX2 pairs across variants.",
 [f"src/ntt{n}.h" for n in S]+[f"src/naive_ntt{n}.h" for n in S]+[f"src/ntt_red{n}.h" for n in S]+[f"src/ntt_red_asm{n}.h" for n in S],
 [("inline wrappers binding a transform to its table","src/*ntt*<n>.h"),("tables","src/make_tables.c, src/make_red_tables.c")],["ntt<n>.h, naive_ntt<n>.h, ntt_red<n>.h, ntt_red_asm<n>.h"])
prop("C13","Assembly routines respect the calling convention and their arrays",
 "Every assembly routine, called as an ordinary C function, preserves callee-saved registers, the stack pointer, the direction flag and floating-point control state, and depends on no register bit the System V ABI leaves undefined. It reads and writes only the arrays it is given: nothing before or after them, and never its read-only tables or sources.",
 ["inputs","configurations"],"all routines, all valid lengths, arbitrary prior register contents, arrays placed against unmapped pages, read-only operands",
 "Tests call from one compiler's code with static arrays, where a clobbered register or an out-of-bounds access usually goes unnoticed.",
 ["src/ntt_asm.S"],[("register use and loop bounds","src/ntt_asm.S")],["ntt_asm.h"])
prop("C14","C routines access only their arrays and execute no undefined behaviour",
 "For all inputs in the documented domains, every product, transform, shuffle, elementwise and reduction routine in C reads and writes only the elements of the arrays it was given, never modifies an operand declared constant, and executes no undefined operation (out-of-range access, misaligned access, invalid shift). A product writes all n coefficients of c whatever c held before, and nothing else than a, b and c.",
 ["inputs","configurations"],"all C routines of the default, naive and red implementations, all sizes, buffers placed against guard pages and under address/undefined-behaviour instrumentation",
 "The test suite runs without instrumentation and in large static arrays.",
 ["src/ntt.c","src/naive_ntt.c","src/ntt_red.c"],[("loop bounds of the transforms","src/ntt.c, src/naive_ntt.c, src/ntt_red.c")],["all public C functions"])
prop("C15","Generated default tables are right for every size and root",
 "For every power of two n from 2 to 2048 and every psi with psi^n = -1 modulo Q, the default table generator writes C files that compile and whose tables hold exactly the documented powers (psi powers, inverse psi powers, scaled inverse powers, omega, inverse omega, mixed and bit-reversed versions) and constants, all in [0, Q-1].",
 ["configurations","inputs"],"all n in {2,...,2048}, all n valid psi for each n",
 "Only four (n, psi) pairs are ever generated; an error for other roots is invisible to the tests.",
 ["src/make_tables.c"],[("print_tables, build_*_table","src/make_tables.c")],["files ntt<n>_tables.{h,c}"])
prop("C16","Generated lazy-reduction tables are right for every size and root",
 "For every power of two n from 2 to 2048 and every psi with psi^n = -1 modulo Q, the red table generator writes C files that compile and whose tables hold exactly the documented powers times the documented power of inverse(3), each as the representative in [-(Q-1)/2, (Q-1)/2], with rescale constants that cancel the factors introduced by reduction.",
 ["configurations","inputs"],"all n in {2,...,2048}, all n valid psi for each n",
 "Only four (n, psi) pairs are ever generated; an error for other roots is invisible to the tests.",
 ["src/make_red_tables.c"],[("print_tables, build_*_table","src/make_red_tables.c")],["files ntt_red<n>_tables.{h,c}"])
prop("C17","Bit-reversal shuffles and tables are the bit-reversal permutation",
 "For every power of two n, the generic shuffle moves the element at index i to the index with the reversed log2(n)-bit pattern, so that applying it twice is the identity. For every n from 2 to 32768 the bit-reversal table generator writes exactly the pairs (i, j) with i < j and j the reversal of i, each once, and the table-driven shuffle with such a table does the same as the generic shuffle; the tables shipped for 16, 256, 512 and 1024 are such tables.",
 ["inputs","configurations"],"all powers of two n up to 2^17 for the shuffles, all n accepted by the generator, all array contents",
 "Tests cover the four shipped sizes.",
 ["src/ntt.c","src/naive_ntt.c","src/make_bitrev_table.c","src/bitrev16_table.c","src/bitrev256_table.c","src/bitrev512_table.c","src/bitrev1024_table.c"],
 [("bitrev_shuffle, shuffle_with_table","src/ntt.c, src/naive_ntt.c"),("print_bitrev_table","src/make_bitrev_table.c")],["ntt.h","files bitrev<n>_table.{h,c}"])
prop("C18","Table generators reject invalid parameters and write nothing",
 "Given a size that is not a power of two in the supported range, a psi that is out of [2, Q-1] or whose n-th power is not -1 modulo Q, or a wrong number of arguments, each table generator exits with a failure status and creates or changes no file. Given valid parameters it succeeds and creates exactly its header and source file.",
 ["inputs"],"all integer argument pairs, including negative, zero, huge, near-valid sizes and roots of the wrong order",
 "The test suite never runs a generator on invalid parameters.",
 ["src/make_tables.c","src/make_red_tables.c","src/make_bitrev_table.c"],[("argument checks in main","src/make_*.c")],["exit status and files of make_tables, make_red_tables, make_bitrev_table"])
prop("C19","The interval domain over-approximates every concrete operation",
 "For all intervals and all concrete values inside them, the result of each interval operation (addition, subtraction, negation, single/double/product/scaled reduction, normalisation, shift, correction) contains the result of the concrete operation, and reduction, addition, subtraction and negation return the tightest such interval. An addition, subtraction or negation whose bounds would not fit 64 bits is reported and terminates the program instead of returning a wrong interval.",
 ["inputs"],"all intervals with 64-bit bounds (product operations: all products within 64 bits), all concrete points inside",
 "The paper's tests print intervals for a few fixed inputs and check nothing.",
 ["src/intervals.c","src/intervals.h","src/red_bounds.c"],[("add64/sub64 overflow tests, red, red_mul, red_scale, normal, shift, correct","src/intervals.c")],["intervals.h"])
prop("C20","Computed reduction bounds are exact and attained",
 "For all integer ranges of x and of the multiplier w (any signs, including zero and one-point ranges), the minimum and maximum returned for red(x) and red(w*x) bound every value in the range, and the returned witnesses lie in the ranges and attain them. The bounds for one and for all rounds of Cooley-Tukey and Gentleman-Sande butterflies are never exceeded by any execution within the stated input bound.",
 ["inputs"],"all ranges a<=b, low<=high with products in 64 bits; all tables and input bounds",
 "The only test prints bounds for symmetric ranges; its checks are disabled.",
 ["src/red_bounds.c","src/red_bounds.h"],[("max_red ... min_red_mul_interval, ct_bound, gs_bound, ntt_ct_bounds, ntt_gs_bounds","src/red_bounds.c")],["red_bounds.h"])
prop("C21","Abstract transforms contain every concrete execution",
 "For every array of input intervals, every concrete input inside it and every multiplier table (or table of intervals containing it), the intervals that each abstract red operation and transform returns contain, position by position, the value that the concrete red operation computes in unbounded integers. Whenever an interval of the array exceeds the 32-bit range before or after a round, or a value reachable from the inputs does, the possible overflow is reported on standard output.",
 ["inputs","configurations"],"all n = 2..1024, all interval arrays, all concrete points, sixteen abstract transforms and the abstract elementwise operations",
 "The paper's tests run fixed interval arrays and check nothing but the exit status.",
 ["src/ntt_red_interval.c","src/ntt_red_interval.h"],[("abstract_* and abstract2_*","src/ntt_red_interval.c")],["ntt_red_interval.h and its standard output"])
prop("C22","Results depend only on the arguments, in any history and thread",
 "Every product, transform and primitive is a pure function of its array arguments: after any sequence of other calls, with the same or other sizes and implementations, and while other threads run any of them on other arrays, a call returns what it returns when run alone in a fresh process. No call changes a shared table.",
 ["histories","schedules"],"all call sequences over all public routines; all interleavings of threads working on disjoint arrays",
 "Each test program runs one implementation at one size in one thread.",
 ["src/ntt.c","src/naive_ntt.c","src/ntt_red.c","src/ntt_asm.S","src/intervals.c","src/red_bounds.c"],[("no mutable static state","all modules")],["all public functions"])
prop("C23","Verifier benchmark copies behave like the library code",
 "The verifier's benchmark copies of the red arithmetic, transforms, default shuffles, sort, bound functions and table generator compute the same results as the library versions for all inputs in the documented domains, with the reduction intrinsic read as the Longa-Naehrig reduction. On every input allowed by a benchmark harness none of the assertions that the verifier is meant to prove fails.",
 ["inputs","programs"],"all documented inputs of the copied functions; all inputs the harness assumptions allow",
 "The benchmarks are only compiled, never run, by the test suite; the verifier itself cannot be built here.",
 ["verifier/vstte20-benchmarks/ntt_red.c","verifier/vstte20-benchmarks/ntt_red1024.c","verifier/vstte20-benchmarks/make_red_tables.c","verifier/vstte20-benchmarks/ntt.c","verifier/vstte20-benchmarks/red_bounds.c"],
 [("copies of the library sources with clam assertions","verifier/vstte20-benchmarks/")],["benchmark functions, clam assertions"])
prop("C24","The verifier's reduction transfer function is sound and tight",
 "For every bounded interval of the input variable, the verifier domain's reduction intrinsic assigns to the output variable the smallest interval that contains the Longa-Naehrig reduction of every value of the input interval; for an unbounded input it forgets the output variable, and in every case it leaves all other variables as they were. Every other operation of the domain (assignments, arithmetic, assumptions, join, meet, widening, narrowing, inclusion, forgetting, projection) is that of the interval domain.",
 ["inputs","histories"],"all intervals (bounded, half-bounded, unbounded, bottom), aliased input and output variable, sequences of intrinsics",
 "The verifier cannot be built without clam/crab, so no test executes it.",
 ["verifier/src/ntt_intervals.cpp","verifier/src/ntt_intervals.hpp"],[("intrinsic(\"red\")","verifier/src/ntt_intervals.cpp")],["ntt_interval_domain::intrinsic"])
prop("C25","Published constants are what they claim to be",
 "The published lists of primitive roots of unity modulo Q contain every primitive n-th root, once, and nothing else; the shipped size-32 tables hold exactly the documented powers for their psi, the shipped bit-reversal tables match what their generator produces, and the known-answer vectors (a, b, c) are distinct, fully reduced and satisfy c = a*b modulo X^1024+1 and Q.",
 ["configurations"],"all entries of data/, ntt32_tables, bitrev tables and data_poly1024",
 "No test reads the lists or the size-32 tables; the known-answer tests compare the code with the vectors, never the vectors with the definition.",
 ["data/primitive-roots-1024.txt","data/primitive-roots-2048.txt","data/primitive-roots-4096.txt","src/ntt32_tables.c","src/bitrev1024_table.c","src/data_poly1024.c"],
 [("published data","data/, src/ntt32_tables.c, src/bitrev*_table.c, src/data_poly1024.c")],["data files and tables"])
prop("C26","Sorting yields the ordered permutation of its input",
 "For every length and all 64-bit unsigned values, the sort used by the measurement programs leaves the array in increasing order and is a permutation of the input, touching nothing outside the array.",
 ["inputs"],"all lengths (including 0 and 1), all uint64 values with duplicates, sorted, reversed and organ-pipe patterns",
 "The tests never check its result.",
 ["src/sort.c","verifier/vstte20-benchmarks/sort.c"],[("sort","src/sort.c")],["sort.h"])
prop("C27","Lazy reduction never overflows in the documented domains",
 "For all inputs in the documented domains, no step of any red C transform or product overflows its integer type, and every operand pair handed to a multiply-reduce step has its product inside the documented window [-8796042698752, 8796093026303]. Reduced products of the documented operand ranges are safe transform inputs, and the output of any transform within its domain may be reduced once and multiplied by another such output without overflow.",
 ["inputs","configurations"],"all a in [-21499,21499]^n (transforms), all a, b in [0,Q-1]^n (products), all valid psi, adversarially searched for extreme intermediates",
 "Overflow needs aligned extremes in all rounds, which random tests do not produce; the shipped build disables the assertions.",
 ["src/ntt_red.c"]+[f"src/ntt_red{n}.c" for n in S],[("mul_red window, placement of reductions in products","src/ntt_red.c, src/ntt_red<n>.c")],["instrumented build of ntt_red*.c"])
prop("C28","The verification script succeeds only if every stage did",
 "Given a bitcode file, and the inlining option in any position or not at all, the verification script hands the verifier exactly that program after preprocessing and loop unrolling, with inlining exactly when it was asked for, whatever files an earlier run left behind. If any stage fails, in whatever way, the script runs no later stage and exits with a failure status; it exits with status 0 only if all stages succeeded.",
 ["inputs","fault_sequences"],"all argument orders, file names without blanks, all combinations of failing, killed or missing stages, left-over files",
 "No test runs the script; the tools it calls cannot be built here.",
 ["verifier/vstte20-benchmarks/verify.sh"],[("stages clam-pp, seaopt, nttverifier under set -e","verifier/vstte20-benchmarks/verify.sh")],["exit status and tool invocations of verify.sh"])
prop("C29","A table generator reports success only if its files are complete",
 "A table generator (default, red or bit-reversal, and the copies among the verifier's benchmarks) that exits with status 0 has written both of its files completely, replacing whatever they held before. If opening, writing or closing a file fails, at whatever byte, or memory runs out, it exits with a failure status or is killed. With valid arguments and no such failure it exits with status 0.",
 ["inputs","fault_sequences"],"all valid sizes and roots, a write failing at any byte of either file, names that cannot be opened, the k-th allocation failing, any previous contents",
 "Tests run the generators on a disk that never fills up, and a truncated table can still compile.",
 ["src/make_tables.c","src/make_red_tables.c","src/make_bitrev_table.c","verifier/vstte20-benchmarks/make_tables.c","verifier/vstte20-benchmarks/make_red_tables.c","verifier/vstte20-benchmarks/make_bitrev_table.c"],[("open_file, print_tables, close_file","src/make_*.c")],["command line of make_tables, make_red_tables, make_bitrev_table"])
prop("C30","Results do not depend on how the library is compiled",
 "However the C sources are compiled (with or without assertions, optimised or not, by gcc or clang, for the baseline processor or for AVX2), every product, transform, wrapper, elementwise primitive, shuffle, interval operation and bounds function gives the documented result for every input in its documented domain, and no assertion fails.",
 ["inputs","configurations"],"all inputs in the documented domains, builds with and without NDEBUG, gcc and clang, -O0 to -O3, baseline and AVX2 code generation",
 "Tests run one build (gcc -O3 with assertions disabled), so a wrong assertion or a reliance on one compiler's behaviour stays unseen.",
 ["src/ntt.c","src/naive_ntt.c","src/ntt_red.c","src/intervals.c","src/red_bounds.c","src/ntt_red_interval.c","src/Makefile"],[("assertions and arithmetic of the library","src/*.c")],["the library's interfaces in each build"])
with open('/verif/properties.jsonl','w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
import jsonschema
s=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for p in P:
    jsonschema.validate(p,s)
print(len(P))
