#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (the properties are edited here)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    a["observe_at"] = observe or []
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text},
              "why_tests_cant": why, "anchors": a})

DR = "src/deleglise-rivat/"
prop("C01", "The default computation returns the exact sum of primes for every x",
 "For every integer x that the default computation accepts, the returned decimal string is exactly the sum of all primes p <= x (0 for x < 2, including negative x), through the library call and through the command line alike.",
 ["inputs"], "all integers x up to the advertised maximum; the value, not an approximation, whatever regime (word size of x, number of special leaves, tuning) x falls into",
 "The self test compares variants with each other for x < 10000 and for about a hundred random steps up to a few 1e9, so an error shared by the variants, or one that needs a larger x or a particular shape of x (just below a prime square, a prime cube, a power of two, the square of a sieve boundary) is not sampled.",
 ["src/primesum.cpp", DR+"pi_deleglise_rivat_parallel1.cpp", "src/P2.cpp", "src/S1.cpp", DR+"S2_trivial.cpp", DR+"S2_easy_libdivide.cpp", DR+"S2_hard.cpp", "src/PhiTiny.cpp", "src/app/main.cpp"],
 [("sum = S1 + S2_trivial + S2_easy + S2_hard + sum(y) - 1 - P2", DR+"pi_deleglise_rivat_parallel1.cpp"), ("choice of y, z, c from x", "src/primesum.cpp, src/PhiTiny.cpp")],
 observe=["primesum::pi(std::string)", "primesum <x> on stdout"])
prop("C02", "Every algorithm variant yields the same exact sum or refuses",
 "For every x, each selectable algorithm (the Lagarias-Miller-Odlyzko variants 1 to 5, their parallel version, both names of Deleglise-Rivat and the default) either reports exactly the sum of the primes <= x or ends with an error; none ever prints a different number.",
 ["inputs", "configurations"], "all x crossed with all algorithm-selecting options",
 "The self test compares the variants below 10000 and on about a hundred random x; overflow of the narrower variants, the end of their 63-bit range and the shapes of x between the samples are never reached.",
 ["src/lmo/pi_lmo1.cpp","src/lmo/pi_lmo2.cpp","src/lmo/pi_lmo3.cpp","src/lmo/pi_lmo4.cpp","src/lmo/pi_lmo5.cpp","src/lmo/pi_lmo_parallel1.cpp","src/app/main.cpp"],
 [("independent evaluations of the same formula", "src/lmo/*.cpp"), ("range check before narrowing x", "src/app/main.cpp")],
 observe=["pi_lmo1..5, pi_lmo_parallel1", "primesum --lmo* x"])
prop("C03", "Results do not depend on thread count or on the thread schedule",
 "For every x, every number of threads and every possible interleaving of the worker threads (which thread gets which chunk, in which order partial results are merged, which thread wins a lock), every parallel computation terminates and returns exactly the single-threaded result.",
 ["schedules", "configurations", "inputs"], "all team sizes, all assignments of dynamic chunks, all merge orders and all lock outcomes of the parallel regions in the ordinary leaves, trivial/easy/hard special leaves, second partial sieve function, partial sieve function, factor table and parallel LMO",
 "A test run sees one schedule per region, chosen by the operating system, and on small x almost all regions fall back to one thread.",
 ["src/P2.cpp","src/S1.cpp","src/phi.cpp","src/lmo/pi_lmo_parallel1.cpp",DR+"S2_trivial.cpp",DR+"S2_easy.cpp",DR+"S2_easy_libdivide.cpp",DR+"S2_hard.cpp","include/FactorTable.hpp"],
 [("reductions over private partial sums", "the omp parallel for constructs"), ("per-thread totals replayed in thread order", DR+"S2_hard.cpp, src/P2.cpp, src/lmo/pi_lmo_parallel1.cpp")],
 observe=["return values of P2, S1, S2_*, phi, pi, pi_lmo_parallel1"])
prop("C04", "Results do not depend on measured time (load balancing)",
 "The sum and every partial result are the same whatever the clock shows while the computation runs: arbitrarily slow, fast, uneven or stalled threads may change how the work is divided but never the value, and never prevent termination.",
 ["schedules", "histories"], "all sequences of clock readings that the load balancers can observe during a computation, for all x and thread counts",
 "Tests run on an idle machine in microseconds per region; the branches of the load balancers for slow or uneven threads (beyond 10 or 60 seconds) are never taken.",
 ["src/S2LoadBalancer.cpp","src/P2.cpp","src/lmo/pi_lmo_parallel1.cpp",DR+"S2_hard.cpp"],
 [("segment size and segments per thread adapted from timings", "src/S2LoadBalancer.cpp"), ("thread distance doubled or halved", "src/P2.cpp")],
 state=[("segment_size, segments_per_thread", "how the next round of sieving is divided", "src/S2LoadBalancer.cpp")],
 observe=["return values of P2, S2_hard, pi_lmo_parallel1, pi"])
prop("C05", "Worker threads never race on shared memory",
 "In every parallel computation, for every schedule, two threads never access the same memory location without synchronisation when at least one of them writes.",
 ["schedules", "inputs"], "all pairs of memory accesses by different workers in all parallel regions of the summing code, for all schedules, including the progress output",
 "A race usually yields the right number in a test run; nothing in the suite observes memory ordering and small x do not start more than one thread.",
 ["src/P2.cpp","src/S1.cpp","src/phi.cpp","src/S2Status.cpp","include/OmpLock.hpp","include/FactorTable.hpp",DR+"S2_easy_libdivide.cpp",DR+"S2_hard.cpp",DR+"S2_trivial.cpp","src/lmo/pi_lmo_parallel1.cpp","lib/primesieve/src/PreSieve.cpp"],
 [("private copies, reductions and locks", "the omp constructs, include/OmpLock.hpp")], observe=["memory accesses of the compiled code"])
prop("C06", "The tuning factor never changes a result",
 "For every x and every value given for the tuning factor (in range, fractional, extreme, negative, or outside its documented range) the total is the exact sum of the primes <= x.",
 ["inputs","configurations"], "all x crossed with all tuning factors; this moves every boundary between the kinds of leaves",
 "The self test never sets the tuning factor; the boundaries it moves decide which code path counts each leaf.",
 ["src/primesum.cpp","src/app/cmdoptions.cpp",DR+"pi_deleglise_rivat_parallel1.cpp","src/lmo/pi_lmo_parallel1.cpp"],
 [("alpha clamped to [1, x^(1/6)]", "src/primesum.cpp"), ("leaf classification by y and z", DR+"*.cpp")], observe=["primesum x --alpha=N"])
prop("C07", "Each partial formula equals its mathematical definition",
 "The second partial sieve function, the ordinary leaves and the trivial, easy and hard special leaves, as offered by their own options, each return exactly the value of their defining sum for the x, y and c in use (the special leaves jointly partition all special leaves), so that they add up to the sum of the primes.",
 ["inputs","configurations"], "all x and all admissible y, z, c, each component on its own",
 "Only the total is ever compared; errors that cancel between two components, or a component that is only right for the default y, pass every test.",
 ["src/P2.cpp","src/S1.cpp",DR+"S2_trivial.cpp",DR+"S2_easy.cpp",DR+"S2_easy_libdivide.cpp",DR+"S2_hard.cpp","src/app/main.cpp"],
 [("disjoint leaf classes", "S2_*.cpp loops over b and m")], observe=["P2, S1, S2_trivial, S2_easy, S2_hard", "primesum --P2|--S1|--S2_* x"])
prop("C08", "Partial sieve functions and prime counting helpers are exact",
 "For all arguments the partial sieve function counts (and its summing counterpart sums) exactly the integers in [1, x] free of the first a primes, for any number of threads, and the Legendre prime count and nth prime used alongside are exact.",
 ["inputs"], "all x >= 0 and a >= 0, both integer widths, all thread counts",
 "Tests check a few hundred triples and only through the final total.",
 ["src/phi.cpp","src/phi_sum.cpp","src/pi_legendre.cpp","src/PhiTiny.cpp","include/PhiTiny.hpp","src/nth_prime.cpp"],
 [("recursive phi with cache and lookup table", "src/phi.cpp"), ("closed form for small a", "include/PhiTiny.hpp")], observe=["phi, phi_sum, pi_legendre, nth_prime"])
prop("C09", "Wide integer arithmetic, comparison and printing are exact",
 "256-bit integers behave as exact two's complement integers: sums, differences, products, quotients, remainders, shifts, bit operations, comparisons, conversions and decimal output agree with true integer arithmetic modulo 2^256 for all operand values, in every operator form and mixed with narrower types; 128-bit decimal output is exact too.",
 ["inputs","programs"], "all operand pairs and short operator programs over all limb patterns (zeros, ones, carries, sign boundaries)",
 "No unit test addresses the type; totals below 10^31 use a corner of its range.",
 ["include/int256_t.hpp","include/int128_t.hpp"],
 [("two 128-bit limbs with carry propagation", "include/int256_t.hpp")], state=[("low, high", "limbs", "include/int256_t.hpp")], observe=["operators and operator<<"])
prop("C10", "Sieves and lookup tables agree with their definition after any history",
 "After any sequence of operations, the bit sieve, the counting tree, the wheel tables, the factor tables, the prime counting table and the generated arrays (primes, Moebius values, least prime factors, prime counts and prime sums) report exactly what a naive sieve of the same interval reports.",
 ["histories","inputs"], "all sequences of set/unset/sieve/count operations on all sieve sizes, and all table limits and indices",
 "The data structures have no tests of their own; whole-program runs use a few sizes and access patterns.",
 ["src/BitSieve.cpp","include/BitSieve.hpp","include/BinaryIndexedTree.hpp","src/Wheel.cpp","include/Wheel.hpp","src/FactorTable.cpp","include/FactorTable.hpp","src/PiTable.cpp","include/PiTable.hpp","src/generate.cpp","include/SumBits.hpp"],
 [("bit tricks and incremental counters", "the listed classes")], state=[("bits, counters", "which odd numbers are unsieved", "include/BitSieve.hpp")], observe=["query methods of the structures"])
prop("C11", "Integer roots, powers and divisions are exact for all operands",
 "Integer roots are the floor of the true root, powers, rounding up division, powers of two and clamping are exact, and the fast division used on hot paths (including division by precomputed reciprocals) equals ordinary integer division, for all non-negative operands of all supported widths within the documented preconditions of each function.",
 ["inputs"], "all operands up to 2^126, in particular perfect powers and their neighbours, and all divisors",
 "Whole-program tests use operands below a few 1e9, where floating point roots are exact.",
 ["include/isqrt.hpp","include/imath.hpp","include/fast_div.hpp","include/libdivide.h","include/min_max.hpp"],
 [("floating point estimate corrected by integer steps", "include/isqrt.hpp, include/imath.hpp"), ("narrow division when operands fit", "include/fast_div.hpp")], observe=["isqrt, iroot, ipow, ilog, ceil_div, next_power_of_2, fast_div"])
prop("C12", "Numeric expressions evaluate to the exact value or are rejected",
 "Every argument accepted as a number denotes the exact integer value of that arithmetic expression (decimal, hexadecimal, scientific notation, operators with C-like precedence, parentheses); every string that is not such an expression, divides by zero, shifts by a count outside the width of the type, raises to a negative power, or whose value (or an intermediate value of the evaluation) cannot be represented is rejected and never turned into some other number.",
 ["inputs","programs"], "all strings over the expression alphabet, and all operand magnitudes up to beyond the 128-bit range",
 "Tests use a handful of well-formed expressions.",
 ["include/calculator.hpp","src/primesum.cpp","src/app/cmdoptions.cpp","lib/primesieve/include/primesieve/calculator.hpp"],
 [("operator precedence parser", "include/calculator.hpp")], observe=["to_int128, primesum <expr>, primesieve <expr>"])
prop("C13", "The command line prints the requested value once or fails cleanly",
 "For every list of arguments, the program either exits with status 0 having written exactly the requested number (plus only the progress and time lines that were asked for) to standard output, or exits with a nonzero status with a help, version or error text and no result; the order of the options does not matter except that the last algorithm option wins.",
 ["inputs","configurations"], "all sequences of options and operands, well-formed or not",
 "No test runs the command line with more than one option.",
 ["src/app/main.cpp","src/app/cmdoptions.cpp","src/app/help.cpp","src/print.cpp"],
 [("option table and operand count", "src/app/cmdoptions.cpp"), ("single result print", "src/app/main.cpp")], observe=["exit status, stdout, stderr"])
prop("C14", "Inputs beyond a computation's range are refused, never answered wrongly",
 "Any x above the maximum for the tuning factor in use, above the 63-bit range of the narrower algorithms, or outside what 128 bits hold ends with an error and no result, promptly, while x up to the documented maximum is admitted to the computation.",
 ["inputs","configurations"], "all x around and beyond the limits, crossed with options and tuning factors",
 "No test passes an x above 1e10.",
 ["src/primesum.cpp","src/app/main.cpp",DR+"pi_deleglise_rivat_parallel1.cpp"],
 [("limit computed from the tuning factor", "src/primesum.cpp"), ("narrowing check", "src/app/main.cpp")], observe=["exit status, stderr, exceptions"])
prop("C15", "Progress output is monotone, bounded and without influence on results",
 "Requesting status, time or precision output never changes a computed value; within each phase the displayed percentages lie between 0 and 100 and never decrease, under every interleaving of the threads that report progress and every clock.",
 ["schedules","histories","configurations"], "all interleavings of progress reports, all clock readings, all precisions, all computations",
 "Status output is never enabled in a test.",
 ["src/S2Status.cpp","include/S2Status.hpp","src/print.cpp","src/P2.cpp","include/OmpLock.hpp"],
 [("try-lock around the status line", "src/S2Status.cpp"), ("update only on increase", "src/S2Status.cpp")], state=[("percent, time", "last displayed progress", "src/S2Status.cpp")], observe=["stdout with --status"])
prop("C16", "Both build configurations compute the same values",
 "The build with precomputed-reciprocal division and the build without it return identical easy special leaves and identical totals for every x, y and thread schedule.",
 ["inputs","configurations"], "all x, y, c, threads, in both configurations",
 "Each configuration only tests itself, on small x where one division width is used.",
 [DR+"S2_easy.cpp",DR+"S2_easy_libdivide.cpp","include/libdivide.h","include/fast_div.hpp"],
 [("two implementations of the easy leaves", "src/deleglise-rivat/")], observe=["S2_easy, pi"])
prop("C17", "Prime and k-tuplet counts are exact for every interval and configuration",
 "For every interval [start, stop] with bounds below 2^64, every sieve size and every number of threads, the counts of primes and of prime twins up to sextuplets equal the true counts.",
 ["inputs","configurations"], "all intervals (empty, single number, crossing word, segment, wheel and bucket boundaries, ending at 2^64-1) crossed with all sieve sizes and thread counts",
 "The suite counts a few intervals at default sieve sizes.",
 ["lib/primesieve/src/PrimeSieve.cpp","lib/primesieve/src/ParallelSieve.cpp","lib/primesieve/src/Erat.cpp","lib/primesieve/src/EratSmall.cpp","lib/primesieve/src/EratMedium.cpp","lib/primesieve/src/EratBig.cpp","lib/primesieve/src/PreSieve.cpp","lib/primesieve/src/popcount.cpp","lib/primesieve/src/PrintPrimes.cpp"],
 [("segmented wheel sieve in three size classes", "lib/primesieve/src/Erat*.cpp"), ("small primes and tuplets handled by table", "lib/primesieve/src/PrimeSieve.cpp")], observe=["primesieve::count_*, primesieve_count_*, primesieve CLI"])
prop("C18", "The prime iterator behaves as a cursor over the primes",
 "For every sequence of skip-to, next, previous, move, clear and re-initialise operations, in both language bindings and for every start and stop hint, each call returns the prime that a cursor over the infinite sorted list of primes would return, and the end of the 64-bit range is reported as documented.",
 ["histories","inputs"], "all operation sequences, all starting points and stop hints, below 2^64",
 "The suite walks forwards or backwards from a few starting points; it never interleaves the operations.",
 ["lib/primesieve/src/iterator.cpp","lib/primesieve/src/iterator-c.cpp","lib/primesieve/src/IteratorHelper.cpp","lib/primesieve/src/PrimeGenerator.cpp","lib/primesieve/include/primesieve/iterator.hpp","lib/primesieve/include/primesieve/iterator.h"],
 [("batches generated forwards or backwards with growing distance", "lib/primesieve/src/IteratorHelper.cpp")], state=[("i, last_idx, start, stop, dist", "position in the current batch", "lib/primesieve/include/primesieve/iterator.hpp")], observe=["next_prime, prev_prime, primesieve_next_prime, primesieve_prev_prime"])
prop("C19", "The nth prime search is exact in both directions",
 "For every start and every n (positive, zero, negative) the nth-prime search returns the n-th prime after start, respectively before start, or reports an error when it does not exist, for every number of threads.",
 ["inputs","configurations"], "all (n, start) pairs with the result below 2^64, all sieve sizes and thread counts",
 "A few values per run.",
 ["lib/primesieve/src/nthPrime.cpp","src/nth_prime.cpp"],
 [("estimate, count, correct forwards or backwards", "lib/primesieve/src/nthPrime.cpp")], observe=["primesieve::nth_prime, primesieve_nth_prime, primesieve -n"])
prop("C20", "Stored prime arrays are complete, sorted and of the requested type",
 "For every interval and every element type the stored array holds exactly the primes of the interval (or the first n primes from a start) in increasing order; a request that cannot be represented or does not exist is reported as an error through the documented channel, never a silent truncation.",
 ["inputs","configurations"], "all intervals and counts, all element types, C and C++ interfaces",
 "The suite stores a few arrays of default type.",
 ["lib/primesieve/include/primesieve/StorePrimes.hpp","lib/primesieve/src/api-c.cpp","lib/primesieve/include/primesieve/malloc_vector.hpp","src/generate.cpp"],
 [("iterator driven fill with range checks", "lib/primesieve/include/primesieve/StorePrimes.hpp"), ("error code and errno", "lib/primesieve/src/api-c.cpp")], observe=["generate_primes, generate_n_primes, primesieve_generate_*"])
prop("C21", "Parallel sieving is independent of schedule and free of races",
 "For every interval, every number of threads and every interleaving of the sieving threads, the parallel prime and k-tuplet counts equal the serial ones, no memory race occurs, and the computation terminates.",
 ["schedules","inputs","configurations"], "all interleavings of chunk claiming, counting, status updates and completion, for all thread counts",
 "One schedule per run, with intervals that rarely split in more than a few chunks.",
 ["lib/primesieve/src/ParallelSieve.cpp","lib/primesieve/src/PrimeSieve.cpp","lib/primesieve/include/primesieve/ParallelSieve.hpp"],
 [("atomic chunk index", "lib/primesieve/src/ParallelSieve.cpp"), ("mutex for status", "lib/primesieve/src/ParallelSieve.cpp")], state=[("chunk index, per-thread counts", "which part of the interval is claimed", "lib/primesieve/src/ParallelSieve.cpp")], observe=["count_* with num_threads > 1"])
prop("C22", "Printed primes and k-tuplets are exactly those of the interval",
 "Printing primes or k-tuplets of an interval writes each of them exactly once, in increasing order and in the documented format, for every interval, sieve size and thread setting.",
 ["inputs","configurations"], "all intervals and tuplet sizes, all sieve sizes, both bindings and the command line",
 "The suite does not look at printed output.",
 ["lib/primesieve/src/PrintPrimes.cpp","lib/primesieve/src/PrimeSieve.cpp","lib/primesieve/src/api.cpp","lib/primesieve/src/api-c.cpp"],
 [("bit patterns decoded per sieve byte", "lib/primesieve/src/PrintPrimes.cpp")], observe=["stdout of print_primes, print_twins ... print_sextuplets"])
prop("C23", "A failed memory allocation never yields a wrong or partial result",
 "If any single memory allocation fails during a computation, the operation either still returns the exact result or reports the failure through its documented channel (exception, error code, error message with nonzero status); or, when a worker thread cannot continue, ends the process with a diagnostic, a nonzero status and no result; it never returns a wrong or truncated value, crashes on a stale pointer, lets an exception out of a C function that reports errors, or leaves an object that does not work again once repositioned.",
 ["fault_sequences","inputs"], "every allocation of every operation failing once (and all allocations from a point on failing), for the summing code, the sieve library's C++ and C interfaces and the iterators",
 "No test injects a failure.",
 ["src/app/main.cpp","lib/primesieve/src/api-c.cpp","lib/primesieve/src/iterator-c.cpp","lib/primesieve/src/iterator.cpp","lib/primesieve/src/MemoryPool.cpp","lib/primesieve/src/PrintPrimes.cpp","src/primesum.cpp","lib/primesieve/include/primesieve/malloc_vector.hpp"],
 [("bad_alloc handling at the boundaries", "src/app/main.cpp, lib/primesieve/src/*-c.cpp")], observe=["return values, errno, exceptions, exit status"])
prop("C24", "No computation touches memory outside its objects or has undefined arithmetic",
 "For every input and configuration, no computation reads or writes outside the objects it owns, uses freed or uninitialised storage, or performs arithmetic whose result the language leaves undefined.",
 ["inputs","configurations","histories"], "all x, y, c, thread counts, sieve sizes, intervals and iterator histories",
 "An out-of-bounds read of a table or a stray shift returns the right number in almost every run; the suite runs without instrumentation.",
 ["src/","include/","lib/primesieve/src/","lib/primesieve/include/primesieve/"],
 [("table sizes derived from the largest index", "src/, lib/primesieve/src/")], observe=["every memory access and arithmetic operation of an instrumented build"])
prop("C25", "Concurrent computations of independent callers do not influence each other",
 "When several threads of the calling program each run a computation of their own at the same time (summing, partial formulas, counting, iterating, storing, nth prime, parsing numbers; each on its own objects, no setting changed meanwhile), every interleaving lets each of them terminate with exactly the result it has when run alone, without any memory race, also when these are the first calls in the process.",
 ["schedules","inputs","configurations"], "all pairs and triples of operations, all interleavings, first and later calls",
 "Hidden shared state (a static buffer, a cached table, a lazily built object) shows only when two callers meet inside one operation; the suite calls everything from one thread.",
 ["src/","include/calculator.hpp","lib/primesieve/src/","lib/primesieve/README.md"],
 [("no mutable shared state outside the settings", "src/primesum.cpp, src/generate.cpp, lib/primesieve/src/api.cpp"),("each thread uses its own iterator", "lib/primesieve/README.md: Multi-threading")], observe=["results of concurrent calls","memory accesses of the compiled code"])
prop("C26", "The bundled sieve program answers exactly what was asked or fails cleanly",
 "For every list of arguments, the bundled prime sieve program either exits with status 0 having written exactly the requested counts, primes or k-tuplets of the denoted interval, or the requested nth prime (plus only the settings, progress, time, help, version or CPU lines in effect), or exits with a nonzero status with an error text and no result; options mean the same wherever they stand (a distance counts from the start number also when it is given first), and neither sieve size, threads, quiet, progress nor time options change a result.",
 ["inputs","configurations"], "all argument lists up to a length, all intervals",
 "The suite runs about thirty command lines with one or two options each; mistakes need a combination, an order or a value at the edge of a type.",
 ["lib/primesieve/src/app/","lib/primesieve/include/primesieve/calculator.hpp"],
 [("[START] STOP [OPTION]..., DIST counts from START, NUM <= 6", "lib/primesieve/src/app/help.cpp")], observe=["standard output","exit status"])
prop("C27", "Results do not depend on how the operating system describes the processor",
 "For every description of the processor that the operating system gives (cache sizes of any magnitude, any sharing, files that are missing, empty, malformed or contradictory), the programs start, the default sieve size is a power of two between 8 and 4096 KiB, and all counts, nth primes, lists, iterators and sums are the same exact values; the printed processor information is what a well-formed description says and 'unknown' where it says nothing.",
 ["configurations","inputs"], "all processor descriptions",
 "The suite runs on one machine with one processor; the cache sizes steer how numbers are divided among the sieving algorithms and the segment length.",
 ["lib/primesieve/src/CpuInfo.cpp","lib/primesieve/src/Erat.cpp","lib/primesieve/src/api.cpp"],
 [("errors of the description are caught and the defaults used", "lib/primesieve/src/CpuInfo.cpp"),("sizes are clamped", "lib/primesieve/src/Erat.cpp, lib/primesieve/src/api.cpp")], observe=["results","default sieve size","--cpu-info"])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P))
