"""The registry of checks: which harness jobs decide which property."""
EXTRA_SETUP = []
CHECKS = {}
CHECKS["C09"] = dict(
    level="exploration",
    technique="explicit-state enumeration of operand pairs and operator programs against an independent limb model",
    level_note="Exhaustive over the stated limb alphabet, all shift counts, all operator forms and all operator programs to the stated depth; trusts the 4x64-bit limb model in harness/c09.cpp.",
    rule="operands: all 4-limb values over {0,1,2^63-1,2^63,2^64-1}, all powers of two and ten and their neighbours and negatives; every ordered pair under every operator; operator programs breadth-first. A case is non-trivial when it is a distinct operand pair (or a distinct value in the unary family).",
    explanation="every value/pair is executed on the real int256_t and on the limb model and all four limbs are compared",
    jobs=[dict(harness="c09", groups=())],
)
CHECKS["C01"] = dict(
    level="exploration",
    technique="exhaustive enumeration of inputs below a bound plus complete structured lattice of larger inputs, on the real code, against an independent oracle",
    level_note="Exhaustive for every x below the dense bound; above it complete over the stated lattice (neighbours of powers of 2 and 10, prime squares, cubes, sixth powers, primorials, a geometric ladder). Trusts the oracle (plain sieve, Lucy_Hedgehog recurrence; anchors in data/anchors.txt made by tools/mkanchors.cpp).",
    rule="inputs x; a case is non-trivial when the expected sum is not 0 and the x (or its thread count) is distinct",
    explanation="each x is run through primesum::pi (integer and string interface) and compared with the oracle",
    jobs=[dict(harness="c01")],
)
CHECKS["C07"] = dict(
    level="exploration",
    technique="exhaustive enumeration of (x, y, c) configurations on the real components against their defining sums",
    level_note="Exhaustive over all (x, y) with x below the dense bound and y in the whole admissible range; structural x and y above it. Hard leaves above 10^7 are decided by difference from the independent prime sum. Branches that need y > 2^32 or x > 2^96 are out of reach.",
    rule="a case is one component at one (x, y, threads); non-trivial when the defining sum is not 0",
    explanation="P2, S1, S2_trivial, S2_easy, S2_hard are called directly for each (x, y) and compared with sums computed from the definition by a naive sieve (small x), by enumeration of prime pairs, and by subtraction from the prime sum (large x); the oracle's own parts are checked to add up to the prime sum",
    jobs=[dict(harness="c07")],
)
CHECKS["C02"] = dict(
    level="exploration",
    technique="exhaustive enumeration of (x, algorithm) pairs on the real code and of boundary arguments through the real main()",
    level_note="Exhaustive over x below the dense bound for all ten entry points; structural x above, including where the sum leaves 63 and 64 bits; the command line is explored over arguments around 0, 2^63, 2^64, 2^127 and 2^128. Trusts the independent prime sum oracle.",
    rule="a case is one algorithm at one x (with a thread count); non-trivial when the expected sum is not 0 or the argument must be refused",
    explanation="each algorithm is executed at each x and compared with an independently computed prime sum; through main() the output must be that number or a nonzero status without a number",
    jobs=[dict(harness="c02")],
)
CHECKS["C06"] = dict(
    level="exploration",
    technique="exhaustive enumeration of (x, tuning factor) pairs on the real code",
    level_note="Exhaustive over every distinct y for x below the dense bound, plus a grid of in-range, boundary, fractional, negative and huge factors; structural x above.",
    rule="a case is one (x, tuning factor, threads); non-trivial when the expected sum is not 0",
    explanation="the default and the LMO computation run under each tuning factor and are compared with the independent prime sum",
    jobs=[dict(harness="c06")],
)
CHECKS["C08"] = dict(
    level="exploration",
    technique="exhaustive enumeration of arguments on the real functions against naive sieves and the defining recurrence",
    level_note="Exhaustive over x and a below the dense bound; structural x up to 2^127 for the summing function, 2^63 for counting with a <= 6 and 2*10^13 beyond; a around pi(sqrt x) with 1, 3 and 8 threads above 10^10.",
    rule="a case is one (x, a, threads); non-trivial when the expected value is not 0",
    explanation="phi, phi_sum (both widths), pi_legendre and nth_prime are called and compared with a naive sieve, the definition's recurrence in independent 256-bit arithmetic, or the Lucy_Hedgehog count",
    jobs=[dict(harness="c08")],
)
CHECKS["C03"] = dict(
    level="model_checking",
    technique="stateless model checking of the real parallel code under a controlled scheduler (OpenMP runtime replaced), deviation-bounded exhaustive schedules",
    level_note="Every schedule of the real object code with at most 1 (all spaces), 2 or 3 (spaces that are small enough) deviations from three base schedulers, scheduling points at every OpenMP operation (chunk request, lock, critical, barrier, region start and end) and thread operation; interleavings inside unsynchronised code are covered by the race check C05. Thread counts 1..9, 64, 1000 under the base schedulers.",
    rule="", explanation="the OpenMP ABI is served by mc/mcrt.cpp, every enabled-thread choice is a branch of the exploration tree; each execution's result is compared with the single-threaded definition",
    jobs=[dict(harness="c03", tag="counts", families=["counts"], shards=4), dict(harness="c03", tag="sched", families=["schedules"], shards=16)],
)
CHECKS["C10"] = dict(
    level="exploration",
    technique="explicit-state enumeration of operation histories of the real data structures, compared with naive sieves in every state",
    level_note="All c < 10, dense and structural segment starts up to 2^62, all interval sums; the counting tree in every reachable state (all subsets, all update orders) up to 11 entries; factor tables, wheel and generated arrays for every size below the dense bound and at thread boundaries. Sequences on the sieve to depth 3 (quick).",
    rule="a case is one object (constructor arguments, or one reached state); it is non-trivial when its content is distinct",
    explanation="each object is built by the real code, driven through every operation sequence of the stated depth and all its queries are compared with a naive sieve of the same interval",
    jobs=[dict(harness="c10")],
)
CHECKS["C11"] = dict(
    level="exploration",
    technique="exhaustive enumeration of operand alphabets (dense small values, neighbours of powers of two, ten and of perfect powers) on the real functions",
    level_note="Exhaustive below the dense bounds and over the structured alphabet in every integer width; operands are restricted to the documented preconditions (non-negative, no overflow of the intermediate a + b - 1, branch-free reciprocals of +-1 excluded). Reference: bisection and hardware division in 128 bits.",
    rule="a case is one operand (one divisor) in one type; all are distinct and non-trivial except 0 and 1",
    explanation="every function is called on every operand (pair) of the alphabet and compared with bisection or 128-bit division",
    jobs=[dict(harness="c11")],
)
CHECKS["C12"] = dict(
    level="exploration",
    technique="exhaustive enumeration of all token sequences up to a length and of boundary literals under all operator pairs, against an independent evaluator",
    level_note="Complete over five token alphabets (up to 25 tokens) to length 4 to 7, all byte strings of length 2, all boundary literals under all operators (two operators deep). The reference is a precedence-climbing evaluator over exact integers; an intermediate value outside the type counts as not representable.",
    rule="a case is one string; strings are distinct within a family",
    explanation="to_int128 (and the evaluator at 64 and 32 bits) is called on every string and must return exactly the reference value or throw when the reference has none",
    jobs=[dict(harness="c12"), dict(harness="c12s", tag="sieve", groups=("sieve", "sieveapp"))],
)
CHECKS["C13"] = dict(
    level="exploration",
    technique="exhaustive enumeration of argument lists up to a length through the real main() against a model of the command line",
    level_note="Every list of at most two of 86 arguments, a number with every pair of arguments in every position, all sequences of three algorithm and modifier options; the value printed is compared with the independent sums. Trusts the model of the command line in harness/c13.cpp (documented options; last algorithm option wins).",
    rule="a case is one argument list; all lists are distinct",
    explanation="main() runs in a forked process for each list; status, standard output and standard error are compared with the model: exactly the requested number and asked-for lines with status 0, or nonzero with text and no result",
    jobs=[dict(harness="c13")],
)
CHECKS["C14"] = dict(
    level="exploration",
    technique="exhaustive enumeration of boundary arguments crossed with every option and a grid of tuning factors through the real main()",
    level_note="Complete over the stated grid of numbers (the bisected limit of every option and tuning factor and its neighbours, powers of two from 2^63 to 2^127, numbers beyond 128 bits). Admission is observed as a computation that is still running (or out of memory) after 0.25 s of CPU time; the computations themselves are not finished.",
    rule="a case is one (number, option, tuning factor); all are distinct",
    explanation="main() runs in a forked process; at or below the limit it must not refuse, above it must end at once with a nonzero status and without a number",
    jobs=[dict(harness="c14")],
)
CHECKS["C04"] = dict(
    level="model_checking",
    technique="stateless model checking of the real code with every clock reading served by the explorer, bounded exhaustive clock histories",
    level_note="Every clock reading is a choice among 1 us, 4 ms, 0.2 s, 20 s, 100 s since the previous one: all periodic histories (period 1 to 3), all histories with up to 1 or 2 deviations from each constant clock, all sequences of round durations of P2; the balancer alone over all timing histories to depth 7 (quick) up to x = 2^100. Schedules follow base schedulers (C03 varies them).",
    rule="", explanation="std::chrono clocks are replaced by mc/mcrt.cpp; each execution's result is compared with the value computed from the definition",
    jobs=[dict(harness="c04", shards=16)],
)
CHECKS["C05"] = dict(
    level="model_checking",
    technique="stateless model checking of the instrumented real code: deviation-bounded exhaustive schedules with a vector-clock happens-before monitor on every memory access",
    level_note="All schedules with at most 1 deviation (small spaces) or the base schedules (large ones) of the code compiled with -fsanitize=thread instrumentation whose callbacks are served by mc/tsanrt.cpp; a race is reported whenever two accesses are unordered by the program's own synchronisation, whatever order the schedule gave them. At most 7 worker threads. Standard library internals are not instrumented.",
    rule="", explanation="each access of the summing code updates per-location vector clocks; OpenMP regions, locks, criticals, atomics and barriers carry the ordering",
    jobs=[dict(harness="c05", variant="tsan", shards=16), dict(harness="c05", variant="tsannolib", args={"only": "S2_easy"}, shards=4)],
)
CHECKS["C15"] = dict(
    level="model_checking",
    technique="stateless model checking of the real code with status output on: deviation-bounded schedules and clock readings; the status object with every member access a scheduling point",
    level_note="Every execution with at most 1 schedule and 1 clock deviation of the small computations, base executions of the large ones, all precisions; the status object for up to 13 reports by 2 or 3 threads with up to 3 preemptions at any access to its members (instrumented build); the percentage functions for every progress value of every limit up to 3000. The text of the output is parsed for 'Status: N%'.",
    rule="", explanation="standard output of each execution is captured; percentages must lie in 0..100, not fall within a phase and have the asked decimals; the value must equal the definition",
    jobs=[dict(harness="c15", tag="runs", families=["percent", "runs"], shards=16), dict(harness="c15", tag="object", variant="tsan", families=["object"], shards=8), dict(harness="c15s", tag="sieve", variant="small", groups=("sieve",))],
)
CHECKS["C16"] = dict(
    level="exploration",
    technique="exhaustive enumeration of (x, y) configurations and bounded schedules on the real code of both build configurations",
    level_note="Both configurations (WITH_LIBDIVIDE on and off) are built from the current sources and run over the same inputs: every (x, y) with x below the dense bound, structural x to 4*10^10 (quick) and x up to 2^66 at both interfaces, all one-deviation schedules of four parallel runs; each is compared with the enumeration of the prime pairs.",
    rule="a case is one (x, y, interface, threads) of one configuration; non-trivial when the defining sum is not 0",
    explanation="S2_easy in both widths and the total are compared with the defining sum in each configuration, so the configurations agree with each other",
    jobs=[dict(harness="c16", tag="lib", variant="std", args={"config": "libdivide"}), dict(harness="c16", tag="nolib", variant="nolib", args={"config": "plain"})],
)
CHECKS["C17"] = dict(
    level="exploration",
    technique="exhaustive enumeration of intervals below a bound and inside windows around structural points, and of operation histories of one sieve object, on the real code against an independent sieve",
    level_note="All intervals [a, b] with a, b <= 260 (quick) for all twelve counting functions; all intervals inside a window around multiples of the segment size, prime squares, powers of 2 and 10; every end position around segment ends; intervals of up to 13 segments for sieve sizes 8..4096 KiB with starts up to 7.5*10^18 and 13 intervals at 2^64 - 1; all sequences of 3 (thorough 4) operations on one object; all 63 subsets of counts; command lines. Trusts the independent segmented sieve in harness/common.cpp.",
    rule="a case is one interval with one sieve size (or one operation sequence, or one command line)",
    explanation="each interval is sieved by the real code and all six counts are compared with the list of primes of an independent sieve and the admissible patterns",
    jobs=[dict(harness="c17", groups=("sieve", "sieveapp"))],
)
CHECKS["C18"] = dict(
    level="model_checking",
    technique="explicit-state exploration: all operation sequences of the real iterators to a depth, against a one-number cursor model",
    level_note="All sequences of 5 (4 at large starts; thorough one more) operations out of {next, prev, 300 x next, 300 x prev, two skipto, move or re-initialise} from 6 starts in both bindings; all sequences of 3 next/prev from every start <= 800 under up to 13 stop hints; every turning point in the first 620 primes; long walks with all sieve sizes; sequences across 2^64 - 1. The model is bound to the code because each of its transitions is executed on the real iterators.",
    rule="a case is one operation sequence from one start with one stop hint; all are distinct",
    explanation="the model state is the number the cursor stands on; each operation is executed on primesieve::iterator and primesieve_iterator and the prime returned is compared with the model's",
    jobs=[dict(harness="c18", groups=("sieve",))],
)
CHECKS["C19"] = dict(
    level="exploration",
    technique="exhaustive enumeration of (n, start) pairs below a bound and around structural points on the real function against an independent sieve",
    level_note="All |n| <= 130 from all starts <= 500 (quick; 400 and 2000 thorough), n around structural starts to 10^12, the counting phase with n up to 3*10^6 forwards and backwards with 1, 3 and 4 threads, including the exact number of primes below the start, all sieve sizes, 15 searches across 2^64 - 1, command lines. An n whose answer would need sieving most of the 64-bit range is out of reach.",
    rule="a case is one (n, start); non-trivial in all cases (including those that must be refused)",
    explanation="nth_prime and primesieve_nth_prime are called and compared with the indexed list of primes of an independent sieve, or must report the documented error when there is no such prime",
    jobs=[dict(harness="c19", groups=("sieve", "sieveapp"))],
)
CHECKS["C20"] = dict(
    level="exploration",
    technique="exhaustive enumeration of intervals, counts and element types below a bound and around every type limit on the real functions against an independent sieve",
    level_note="All intervals inside [0, 300] and all n <= 60 from every start there (quick), the ten C++ and fourteen C element types on a quarter of them and at every 2^7, 2^8, 2^15, 2^16, 2^31, 2^32 limit (last prime that fits, first that does not), structural starts to 2.5*10^13, arrays of 1.3*10^6 primes with four sieve sizes, requests ending at 2^64 - 1, requests larger than any memory, unknown types, appending.",
    rule="a case is one request (interval or count, element type, binding); all are distinct",
    explanation="each request is executed by the real code and the array is compared element by element with the primes of an independent sieve; a request with a prime that does not fit or does not exist must be refused through the exception or NULL/errno channel",
    jobs=[dict(harness="c20", groups=("sieve",))],
)
CHECKS["C21"] = dict(
    level="model_checking",
    technique="stateless model checking of the instrumented real parallel sieve under a controlled scheduler with a vector-clock happens-before monitor, plus exhaustive enumeration of the cuts of short intervals",
    level_note="Threads, futures, mutexes and atomic operations are served by mc/mcrt.cpp and mc/tsanrt.cpp; every schedule with at most 1 to 4 (thorough 2 to 5) deviations from three base schedulers for 2, 3, 4 and 8 threads, with and without status output. To split short intervals the library is also built with its tuning constant MIN_THREAD_DISTANCE at the documented minimum of 100; all intervals [a, a+d], a < 64, 200 <= d <= 560 with 2, 3, 5 and 8 threads; the shipped constant with intervals of 2*10^7 to 10^8.",
    rule="", explanation="each execution's six counts are compared with an independent sieve (or the serial count), its status lines must rise from 0 to 100; races, deadlocks and livelocks are reported by the monitor",
    jobs=[dict(harness="c21", tag="sched", variant="tsansmall", groups=("sieve",), args={"mode": "sched"}, shards=16), dict(harness="c21", tag="split", variant="small", groups=("sieve",), args={"mode": "small"}), dict(harness="c21", tag="real", groups=("sieve",), args={"mode": "real"})],
)
CHECKS["C22"] = dict(
    level="exploration",
    technique="exhaustive enumeration of intervals below a bound and inside windows around structural points on the real printing functions, output compared byte by byte",
    level_note="All six functions for all a, b <= 190 (quick) in C++ (and C for most), all intervals inside windows around segment ends, sextuplets, prime squares and powers, intervals of up to 9*10^6 numbers with ten sieve sizes, one interval at 2^64 - 1, one object printing repeatedly with every sixth subset of counts, and command lines.",
    rule="a case is one interval with one function (or one command line)",
    explanation="standard output of each call is captured and must be byte for byte the list made from an independent sieve and the admissible patterns",
    jobs=[dict(harness="c22", groups=("sieve", "sieveapp"))],
)
CHECKS["C23"] = dict(
    level="fault_enumeration",
    technique="exhaustive enumeration of allocation faults: every allocation of every operation failing once, and all allocations from each point on failing, on the real code",
    level_note="Complete over the fault points (malloc family, operator new, thread creation) of the listed operations: ten summing entry points, ten components, the string interface, both programs' main(), all counting, storing, nth-prime, printing and iterator functions of both bindings, 1 to 4 threads under one schedule. The sum at 10^9 and above is strided in its middle (quick). Faults in the C library itself and in the stack are not modelled.",
    rule="a case is one (operation, failing allocation, once or from there on); all are distinct, each is reached (the number of faults hit is checked)",
    explanation="each operation is run once in a forked process to count its allocations, then once per fault point; it must return the exact value, report the failure through its documented channel (then it is run again without faults and must be exact), or end through std::terminate without output; freed memory is poisoned",
    jobs=[dict(harness="c23", tag="sum", shards=8, as_gb=0, env={"MALLOC_PERTURB_": "165"}), dict(harness="c23s", tag="sieve", groups=("sieve", "sieveapp"), shards=8, as_gb=0, env={"MALLOC_PERTURB_": "165"})],
)
# the bounds of other checks' quick tier, on the instrumented build
_SAN = lambda h, v="asan", **k: dict(harness=h, variant=v, tag="t" + h, tiers=("thorough",), as_tier="quick", shards=24, args={"hang": 1500}, **k)
CHECKS["C24"] = dict(
    level="exploration",
    technique="exhaustive enumeration of inputs, configurations and operation sequences within bounds on an instrumented build of the real code (address and undefined-behaviour sanitizers, the project's assertions, checked containers, patterned fresh storage)",
    level_note="Complete over the listed inputs: every x below the bound with every algorithm and every component's y, every table size, every interval below the bound, every sequence of iterator operations to the stated depth. Reads of uninitialised storage are only seen through a changed result (fresh storage is filled with a pattern) or an out-of-range use of it. The C and C++ libraries are not instrumented.",
    rule="a case is one computation on an instrumented build; those with an independent expected value are counted as distinct",
    explanation="each case runs one computation of the summing or sieve code compiled with the sanitizers, assertions, checked vector accesses and patterned storage; any report ends the shard and is a violation, and so is a wrong value",
    jobs=[dict(harness="c24", tag="sum", variant="asan", shards=24), dict(harness="c24s", tag="sieve", variant="asansmall", groups=("sieve", "sieveapp"), shards=24),
          _SAN("c07"), _SAN("c08"), _SAN("c09"), _SAN("c10"), _SAN("c11"), _SAN("c12"), _SAN("c17", groups=("sieve", "sieveapp")), _SAN("c18", groups=("sieve", "sieveapp")), _SAN("c19", groups=("sieve", "sieveapp")), _SAN("c20", families=["dense", "structural"], groups=("sieve", "sieveapp")), _SAN("c22", groups=("sieve", "sieveapp"))],
)
CHECKS["C25"] = dict(
    level="model_checking",
    technique="stateless model checking of pairs and triples of concurrent caller threads on the instrumented real libraries: deviation-bounded exhaustive schedules with a vector-clock happens-before monitor on every memory access",
    level_note="All unordered pairs (and selected triples) of 40 operations covering both libraries' public functions and the components behind them, each pair started in a fresh process so that first uses coincide; three base schedulers, every schedule with at most 1 (thorough 2) deviations, the heaviest pairs the base schedule only (quick). Settings are not changed concurrently and nothing is printed. Standard library internals are not instrumented. Two or three caller threads.",
    rule="", explanation="each operation must return what it returns alone; a race is reported whenever two accesses of different threads are unordered by the program's own synchronisation, whatever order the schedule gave them",
    jobs=[dict(harness="c25", variant="tsansmall", shards=16)],
)
CHECKS["C26"] = dict(
    level="exploration",
    technique="explicit-state enumeration of argument lists against a model of the command-line grammar, each list executed through the program's real main() and its whole output parsed",
    level_note="Every list of at most two of about 100 arguments, numbers with pairs of arguments in up to nine positions (a third of the pairs in the quick tier), every sequence of three of 18 options, every interval below 26 (thorough 60) and structural ones up to 2^64 - 1 with eleven option sets, nth primes up to 10000 from ten starts and beyond the range; intervals cut into chunks for 1 to 8 threads under three base schedules (built with a minimal chunk of 100 instead of 10^7). Lists whose meaning is not documented (more than two numbers, a value for an option that takes none, nth prime together with counts, prints or a distance, two kinds of k-tuplets to print, count numbers of 0 or less) are left out.",
    rule="a case is one argument list",
    explanation="standard output must consist of exactly the settings, progress, item, time and result lines the model derives from the list, computed by an independent sieve; or the list must be refused with a nonzero status, a text and no result",
    jobs=[dict(harness="c26", tag="lists", families=["short", "orders", "long", "intervals", "nth"], groups=("sieve", "sieveapp")), dict(harness="c26", tag="threads", variant="small", families=["threads"], groups=("sieve", "sieveapp"))],
)
CHECKS["C27"] = dict(
    level="exploration",
    technique="exhaustive enumeration of environment answers: every processor description of a bounded family is served to a fresh process in place of the system's files, results compared with an independent sieve",
    level_note="First level caches of every size from 4 to 70 KiB (thorough 520) and coarser above, odd byte sizes, second level caches from 3 KiB to 99999 GiB, all combinations of ten sharing and nine sibling lists in both notations and both places, every file missing or with 37 kinds of garbage, every two files missing; per description counts of primes and sextuplets, nth primes, lists, iterations and sums with the default and up to ten other sieve sizes, one and three threads. Only the Linux source of the description.",
    rule="a case is one processor description",
    explanation="the process is executed again with the files below /sys/devices/system/cpu and /proc/cpuinfo answered from the description; the default sieve size must be a power of two between 8 and 4096 and all results exact; --cpu-info must say what a well-formed description says",
    jobs=[dict(harness="c27", groups=("primesum", "sieve", "sieveapp"))],
)
