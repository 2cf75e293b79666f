#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (kept as python so that it stays readable)."""
import json, os
P=[]
def prop(id,title,statement,over,qtext,why,files,mech,state=None,observe=None,hook=None):
    assert len(title)<=80,(id,len(title))
    P.append(dict(id=id,title=title,statement=statement,
      quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=[dict(name=a,meaning=b,where=c) for a,b,c in (state or [])],
        mechanism=[dict(name=a,where=b) for a,b in mech],observe_at=observe or [],hook_needed=hook)))

TESTS=("The 3241 stable tests multiply uniform random floats for M,K,N in {1,10,96,111,960,2111}, 2-4 threads, "
       "on one machine description, and accept an absolute error of 1e-3 per element")

prop("C01","GEMM returns exactly A*B for every shape, schedule, tiling and machine",
 "cake_sgemm with its default scaling writes C = A*B for every M,N,K >= 1, for every loop schedule (K-first, M-first, N-first, or chosen by the library), every thread count, every user-supplied tile size that is a positive multiple of the register tile, and every L2/L3/core-count description in the context. On inputs whose products and partial sums are exactly representable the result is bit-exact, and every element of C is written.",
 ["inputs","configurations"],
 "all M,N,K>=1, all p>=1, all schedules, all contexts whose caches hold at least one register tile, all user tiles",
 TESTS+"; user tiles, other cache sizes, p=1, p>4, p not dividing the work and multi-block remainders in all three dimensions at once are never reached, and a block boundary error that needs a particular (shape, p, tile) triple is invisible to them.",
 ["src/cake_sgemm.cpp","src/cake_sgemm_k_first.cpp","src/cake_sgemm_m_first.cpp","src/cake_sgemm_n_first.cpp","src/block_sizing.cpp","src/pack_k_first.cpp","src/pack_m_first.cpp","src/pack_n_first.cpp","src/pack_ob.cpp","src/unpack_k_first.cpp","src/unpack_m_first.cpp","src/unpack_n_first.cpp"],
 [("block decomposition with padded last block/core","src/block_sizing.cpp:init_block_dims"),("snake-order block loops","src/cake_sgemm_{k,m,n}_first.cpp"),("packing into tile-major buffers","src/pack_*.cpp"),("generated register-tile kernels","python/kernel_gen.py")],
 [("blk_dims_t","tile sizes, remainders and block counts of one multiplication","include/common.h")],
 ["C after cake_sgemm returns"])

prop("C02","Online-packing, 2-D grid and BLIS-packed GEMM return exactly A*B",
 "cake_sgemm_online (packs tiles on the fly), cake_sgemm_2d and cake_sgemm_2d_small (split C over a pm x pn processor grid) and cake_sgemm_test (K-first with the BLIS-style packers) write exactly the same mathematical product C = A*B as the default entry point, for every shape, thread count, cache description and (where accepted) user tile. Every element of C is written and nothing else is.",
 ["inputs","configurations"],
 "all M,N,K>=1, all p (p<=cores for the grid variants), all contexts, all user tiles",
 TESTS+"; these two drivers are only run with automatic tiles on one context, cake_sgemm_2d_small is never run at all, and grid shapes other than those of p=2,3,4 are never formed.",
 ["src/cake_sgemm.cpp","src/cake_sgemm_k_first.cpp","src/block_sizing.cpp"],
 [("online packing with A/B tile reuse across snake turns","src/cake_sgemm_k_first.cpp:schedule_KMN_online, schedule_KMN_2d"),("2-D grid block sizing","src/block_sizing.cpp:init_block_dims_2d")],
 observe=["C after the call returns"])

prop("C03","alpha and beta scale the product and the old C; beta=0 never reads C",
 "Every GEMM entry point computes C = alpha*A*B + beta*C_old element by element, independent of schedule and tiling. With beta = 0 the previous contents of C (including NaN, infinities and uninitialised memory) have no influence on the result.",
 ["inputs","configurations"],
 "all alpha, beta, all old contents of C, all entry points, schedules, shapes, thread counts",
 "Every test calls with alpha=1, beta=0 and a zero-filled C, so ignoring alpha/beta or accumulating into stale C passes all of them.",
 ["src/cake_sgemm.cpp","src/cake_sgemm_k_first.cpp","src/pack_n_first.cpp","src/pack_m_first.cpp","src/unpack_k_first.cpp"],
 [("alpha/beta arguments and the final combination","src/cake_sgemm.cpp"),("zero-initialised packed C","src/cake_sgemm.cpp:cake_sgemm")],
 observe=["C after the call returns"])

prop("C04","No access outside the caller's matrices or the library's own buffers",
 "For every shape, schedule, tiling, thread count and entry point, the library (GEMM drivers, packing, unpacking, transpose, kernels) reads only inside the M*K, K*N and M*N elements the caller passed, writes only inside C (or the destination buffer of the stated size), never modifies A or B, and makes no invalid access, overflow or use of freed memory inside its own buffers.",
 ["inputs","configurations"],
 "all entry points, shapes, tilings, thread counts, with matrices allocated at exactly their size",
 "The tests allocate from the ordinary heap and look only at C, so a read past A or B whose value lands in a padded lane, or a write just past a packed buffer, passes.",
 ["src/pack_ob.cpp","src/pack_helper.cpp","src/pack_k_first.cpp","src/pack_m_first.cpp","src/pack_n_first.cpp","src/cake_sgemm_k_first.cpp","src/unpack_k_first.cpp","src/cake_sgemm.cpp"],
 [("bounds-checked edge-tile packing","src/pack_ob.cpp, src/pack_helper.cpp"),("buffer size functions","src/pack_helper.cpp:cake_sgemm_packed_*_size")],
 observe=["AddressSanitizer/UBSan on tight heap blocks, bytes of A and B before and after"])

prop("C05","Results do not depend on thread scheduling; parallel regions are race-free",
 "For fixed inputs every GEMM entry point, every parallel pack/unpack/transpose function and the self-checkers give the same result bits whatever order the OpenMP threads run in and whether the runtime delivers fewer threads than requested. No two threads of a parallel region access the same memory location, at least one writing, without synchronisation.",
 ["schedules","inputs","configurations"],
 "all thread execution orders, team sizes delivered by the runtime, shapes and tilings",
 "The tests run each case once under whatever order libgomp happens to produce on 2-4 threads; a shared loop variable or overlapping tile shows up only under particular timings.",
 ["src/cake_sgemm_k_first.cpp","src/cake_sgemm_m_first.cpp","src/cake_sgemm_n_first.cpp","src/pack_k_first.cpp","src/pack_m_first.cpp","src/pack_n_first.cpp","src/transpose.cpp","src/util.cpp"],
 [("private() clauses and disjoint tile ownership","every '#pragma omp parallel for'")],
 observe=["C bits under permuted thread orders; happens-before race detector over all loads/stores"])

prop("C06","A call's result depends only on its arguments, not on earlier calls",
 "In any sequence of library calls that share one context (mixed entry points, shapes, schedules, thread counts, user tiles, register-tile changes), each call gives the same result as that same call made with a fresh, equal context in a fresh process state. The hardware description and register tile in the context are never changed by a multiplication.",
 ["histories","configurations"],
 "all call sequences over a shared context",
 "Each test case uses a fresh run of one entry point on one machine description and compares to a loose tolerance; state carried between calls (the context's alpha_n, stale buffers, thread settings) is only exercised in one fixed order.",
 ["src/block_sizing.cpp","src/cake_sgemm.cpp"],
 [("context fields recomputed per call","src/block_sizing.cpp:get_cache_dims")],
 [("cake_cntx_t.alpha_n","L3:L2 tile ratio, rewritten on every call","include/common.h")],
 ["C and the context after every call of a history"])

prop("C07","Multiplying pre-packed operands equals multiplying plain operands",
 "If A and/or B are packed by the library's own packing entry points into buffers of the advertised size, using the same problem size, schedule, tile sizes and context, then cake_sgemm with the corresponding packed flags returns bit-for-bit the result of the call on the plain matrices. The packed buffers are neither modified nor freed and can be reused for any number of calls.",
 ["inputs","histories","configurations"],
 "all shapes, schedules, tilings, thread counts, and every combination of packed flags and reuse count",
 "No test sets packedA or packedB.",
 ["src/cake_sgemm.cpp","src/pack_helper.cpp","src/pack_k_first.cpp","src/pack_m_first.cpp","src/pack_n_first.cpp"],
 [("packedA/packedB flags","src/cake_sgemm.cpp:cake_sgemm"),("pack_A/pack_B dispatch","src/pack_helper.cpp")],
 observe=["C, and the bytes of the packed buffers"])

prop("C08","Packing is a zero-padded permutation, and pack/unpack round-trips",
 "For every schedule and block plan, packing A, B or C writes every one of the buffer's advertised bytes so that the buffer holds each matrix element exactly once and zeros everywhere else, in register-tile-major order; unpacking a packed C restores C exactly. All packing variants (whole-matrix, BLIS-style, per-block serial and parallel) produce identical buffers for identical arguments.",
 ["inputs","configurations"],
 "all matrix shapes, block plans, schedules, thread counts and prior buffer contents",
 "The tests never look at a packed buffer, never pack C, and never call the alternative packers; a padding lane that is left uninitialised multiplies into a discarded lane and stays invisible.",
 ["src/pack_helper.cpp","src/pack_k_first.cpp","src/pack_m_first.cpp","src/pack_n_first.cpp","src/pack_ob.cpp","src/unpack_k_first.cpp","src/unpack_m_first.cpp","src/unpack_n_first.cpp"],
 [("single-buffer packing per schedule","src/pack_{k,m,n}_first.cpp"),("tile packing","src/pack_ob.cpp"),("size functions","src/pack_helper.cpp")],
 observe=["packed buffers, unpacked C"])

prop("C09","Block plans tile the whole problem exactly once",
 "For every problem, thread count, context, schedule and user tile, the computed block plan has positive tile sizes that are multiples of the register tile (in M and N), and its full blocks plus its remainder block cover each of M, N and K completely with no overlap, the remainder being split over no more cores than exist with no empty core. Requested user tile sizes are honoured exactly by the 1-D planner. The planner's public arithmetic helpers are exact: lcm(a,b) is the least common multiple and clamp_val(d,lo,hi) the nearest value to d in [lo,hi].",
 ["inputs","configurations"],
 "all M,N,K,p, contexts, schedules and user tiles, including sizes far too large to multiply in a test",
 "Tests observe a plan only through the product of small matrices on one context; plans for large problems, many cores or other caches are never computed.",
 ["src/block_sizing.cpp"],
 [("init_block_dims / init_block_dims_2d / get_cache_dims","src/block_sizing.cpp")],
 [("blk_dims_t","block plan","include/common.h")],
 ["the plan returned by the planners"])

prop("C10","The requested schedule is used, and automatic choice is well defined",
 "A schedule named explicitly by the caller is the one planned and executed; when none is named, the library picks one of the three schedules deterministically from the shape, thread count and context by its documented I/O-cost rule (the shape rule in the case of the standalone chooser). Choosing never depends on matrix contents, on earlier calls, or on user-visible state other than the context.",
 ["inputs","configurations","histories"],
 "all M,N,K,p, contexts and requested schedules",
 "All three schedules give the same product, so a chooser that ignores the request, or always returns one schedule, passes every test.",
 ["src/block_sizing.cpp","src/cake_sgemm.cpp"],
 [("derive_schedule (MEMA analysis)","src/block_sizing.cpp"),("set_schedule","src/cake_sgemm.cpp")],
 observe=["plan's schedule, chooser return values"])

prop("C11","Every generated register-tile kernel computes C += A*B on its tile",
 "For every register tile size the kernel generator can produce (and every entry of the kernel table), the dense kernel adds to the mr x nr tile of C the product of a packed mr x k panel and a packed k x nr panel, for every k >= 1 and any contents of C, reading and writing nothing outside those panels. The table index computed from a register tile size selects the kernel of exactly that size.",
 ["inputs","configurations","programs"],
 "all kernel-table entries, all generator parameters, all k, all panel contents and buffer alignments",
 "The tests only ever execute the smallest kernel of the table (the default register tile) inside whole multiplications; the other entries, and other generator settings, are never run.",
 ["python/kernel_gen.py","include/kernel_wrapper.h","src/kernels/haswell/dense.cpp","src/block_sizing.cpp"],
 [("unrolled broadcast/FMA kernels","python/kernel_gen.py"),("kernel_map table and index","python/kernel_gen.py, src/block_sizing.cpp:update_mr_nr")],
 observe=["C tile after a kernel call; guard zones around panels"])

prop("C12","The ARMv8 build is functionally identical to the reference",
 "The ARMv8 configuration (generated and committed NEON kernels, its packing kernels and the whole library compiled for it) computes exactly the same products as the mathematical reference for every shape, schedule, thread count, cache description and kernel-table entry.",
 ["inputs","configurations","programs"],
 "all inputs of the ARMv8 configuration, executed on emulated NEON intrinsics",
 "The test suite runs on x86-64 and never compiles a line of the ARMv8 configuration.",
 ["python/kernel_gen.py","src/kernels/armv8/dense.cpp","src/kernels/armv8/blis_pack_armv8.cpp","include/kernel_wrapper.h","src/block_sizing.cpp"],
 [("NEON kernel generation","python/kernel_gen.py"),("USE_CAKE_ARMV8 branches","include/*.h, src/*.cpp")],
 observe=["C after GEMM/kernel calls under an intrinsics emulation layer"])

prop("C13","Sparse (rosko) kernels add exactly the listed outer products",
 "Every sparse register-tile kernel, generated or committed, for Haswell and ARMv8, adds to C the sum over the listed columns of A of the outer products of that column's listed nonzeros with the matching row of B, placing each nonzero in the row its location entry names. The result equals the dense product of the matrix that the compressed form encodes, whatever the number of nonzeros per column (for the kernels that stop at the first group of columns that starts with an empty one, empty columns are listed last, as density ordering leaves them).",
 ["inputs","configurations","programs"],
 "all compressed A panels (k, nonzero counts per column, row positions), all register tiles",
 "No test compiles or runs the sparse kernels.",
 ["python/kernel_gen.py","src/kernels/haswell/sparse.cpp","src/kernels/armv8/sparse.cpp"],
 [("outer-product kernels over compressed columns","python/kernel_gen.py")],
 observe=["C tile after a kernel call"])

prop("C14","Hardware discovery reports the machine's cores and caches",
 "The queried context reports physical cores = processors / (threads per core * sockets) and the L1/L2/L3 sizes in bytes of the machine described by lscpu and /proc/cpuinfo, or the documented table value for a listed CPU model, for every well-formed machine description; values that the tools do not report fall back to the documented defaults. Repeating the query gives the same answer.",
 ["configurations","inputs"],
 "all lscpu/cpuinfo outputs of real machines (unit suffixes, fractional sizes, missing levels, model numbers)",
 "The tests run with one fake machine whose sizes are whole megabytes.",
 ["src/block_sizing.cpp","include/tiling.h"],
 [("lscpu parsing","src/block_sizing.cpp:get_cache_size, get_num_physical_cores"),("cake_query_cntx","src/block_sizing.cpp")],
 observe=["context fields and helper return values under substituted lscpu/grep"])

prop("C15","BLIS-derived pack kernels equal the reference tile packing",
 "The BLIS-derived Haswell 6xk/16xk and ARMv8 8xk/12xk pack kernels write, for every k and leading dimension, the same tile-major panel as packing the tile element by element, for both storage orders they accept, reading only the tile and writing only the panel. The helper that packs a whole matrix of panels in parallel (pack_test1) writes the concatenation of its panels.",
 ["inputs","configurations"],
 "all k, leading dimensions, contents, storage orders",
 "The default build never calls these kernels from a tested path.",
 ["src/kernels/haswell/blis_pack_haswell.cpp","src/kernels/armv8/blis_pack_armv8.cpp","include/packing.h"],
 [("assembly/intrinsics packing loops","src/kernels/*/blis_pack_*.cpp")],
 observe=["panel after the call, guard zones"])

prop("C16","Transpose is exact for every shape",
 "Transposing an R x S matrix gives the S x R matrix with element (j,i) equal, bit for bit, to the original (i,j), for every R,S >= 1, any contents (NaN payloads included) and any thread count; transposing twice restores the original and the source is untouched.",
 ["inputs","schedules"],
 "all shapes, contents, thread orders",
 "No stable test calls the transpose.",
 ["src/transpose.cpp","src/kernels/haswell/transpose_haswell.cpp"],
 [("8x8 in-register transpose with edge loop","src/kernels/haswell/transpose_haswell.cpp"),("parallel tile loop","src/transpose.cpp")],
 observe=["destination matrix"])

prop("C17","The built-in checkers accept correct results and reject wrong ones",
 "The library's self-checkers return success when the candidate equals the reference product (or sum, or matrix) and failure when any single element at any position differs by more than their tolerance, is NaN or is infinite, for every shape; they never modify their inputs. The random initialiser fills exactly the requested elements with finite values in [-1,1] and nothing else.",
 ["inputs"],
 "all shapes, all positions and kinds of corruption",
 "Every test passes through the checker and is expected to succeed; a checker that always says CORRECT passes the whole suite and blinds it.",
 ["src/util.cpp"],
 [("cake_sgemm_checker, mat_equals, add_checker, rand_init","src/util.cpp")],
 observe=["return values, argument bytes"])

prop("C18","Floating-point error stays within the standard bound, specials stay local",
 "For arbitrary finite float inputs every computed element is within gamma(K+2)*sum|a||b| of the exact product, for every schedule, tiling and entry point, and two executions that differ only in thread count or tiling agree within twice that bound. A NaN or infinity in row i of A or column j of B affects only row i or column j of C, and elements of C that IEEE arithmetic makes NaN or infinite are NaN or infinite.",
 ["inputs","configurations"],
 "all finite and special inputs over the full exponent range, all entry points and tilings",
 "The tests use values in [-1,1] with an absolute 1e-3 tolerance and no special values; reduced-precision accumulation or dropping tiny contributions passes them.",
 ["src/cake_sgemm_k_first.cpp","src/cake_sgemm_m_first.cpp","src/cake_sgemm_n_first.cpp","python/kernel_gen.py"],
 [("fp32 FMA accumulation","python/kernel_gen.py"),("zero padding of edge tiles","src/pack_ob.cpp")],
 observe=["C against a double-precision reference with running error bound"])

prop("C19","PyTorch linear forward and backward match their mathematical definition",
 "The extension's forward returns weights*input plus the bias broadcast over the batch for every shape, with or without bias, and backward returns the exact gradients of that map with respect to input, weights and bias in the layout the Python autograd function expects. Inputs are never modified and every returned tensor owns valid memory of the right shape.",
 ["inputs","configurations"],
 "all shapes, contents, cache sizes",
 "The extension and its Python caller are never compiled or imported by the tests.",
 ["src/linear.cpp","python/cake.py"],
 [("forward/backward on cake_sgemm","src/linear.cpp"),("LinearFunction","python/cake.py")],
 observe=["returned tensors against a double-precision reference, through a stub tensor class"])

prop("C20","Changing the register tile keeps every entry point correct",
 "After the register tile is changed to any size in the generated kernel table, every schedule and entry point still computes exactly A*B, the context's kernel index names that tile, and changing it back restores the original behaviour bit for bit.",
 ["configurations","histories","inputs"],
 "all kernel-table tiles, schedules, entry points, shapes, and sequences of changes",
 "The tests only use the default register tile.",
 ["src/block_sizing.cpp","include/kernel_wrapper.h","src/cake_sgemm_m_first.cpp","src/cake_sgemm_n_first.cpp","src/cake_sgemm_k_first.cpp","python/kernel_gen.py"],
 [("update_mr_nr and kernel_map","src/block_sizing.cpp, generated include/kernels.h")],
 observe=["C after the call"])

prop("C21","Calls are resource-neutral",
 "Every public call releases all memory, file descriptors and child processes it acquires, whatever entry point, schedule, flags and context (given or queried internally) are used, never frees caller memory, and leaves the process able to repeat the call any number of times.",
 ["histories","inputs","configurations"],
 "all sequences of calls",
 "Leaks and descriptor exhaustion need long histories; the tests exit after a few thousand calls and never look.",
 ["src/cake_sgemm.cpp","src/block_sizing.cpp","src/util.cpp","src/cake_sgemm_k_first.cpp"],
 [("malloc/free pairing","src/cake_sgemm.cpp"),("popen/pclose pairing","src/block_sizing.cpp")],
 observe=["allocation ledger, /proc/self/fd, child processes after each call"])

prop("C22","Reported time is the elapsed time of the work",
 "The time returned by a GEMM call is non-negative, expressed in seconds, and equals the elapsed clock time of the work it covers: never more than the duration of the call, and never less than the time spent in the multiplication itself (for cake_sgemm: from the start of packing to the end of the last parallel step), including when the clock's seconds roll over in between.",
 ["schedules","inputs"],
 "all clock readings and durations",
 "The tests ignore the return value.",
 ["src/cake_sgemm.cpp"],
 [("timespec arithmetic","src/cake_sgemm.cpp"),],
 observe=["return value under a simulated clock"])

prop("C23","The processor grid divides the threads for every core count",
 "For every core count the build can be configured for and every thread count (also more threads than cores, or a context describing another core count than the build's), the generated divisor table and the grid chooser give a grid pm x pn with pn a divisor of p, 1 <= pn <= p and pm*pn = p, with pn the divisor nearest (in the chooser's metric) to the square-ish optimum for the matrix shape; the choice is deterministic. The 2-D planners lay their blocks on the chosen grid: the small planner on all of it, the other one with fewer rows (columns) only when the matrix has no more register tiles than the grid has rows (columns).",
 ["configurations","inputs"],
 "all core counts of the generator, all p up to it and beyond, all M,N, contexts of other core counts",
 "The tests' machine has four cores, where every thread count in use is covered by a table of at most five rows; thread counts below a tenth of the cores or grids on many-core machines are never formed.",
 ["python/grid_gen.py","src/block_sizing.cpp"],
 [("divisor table generation","python/grid_gen.py"),("grid_dims_2d","src/block_sizing.cpp")],
 observe=["grid_dims_2d results on generated tables; pm and pn of 2-D plans"])

prop("C24","Concurrent calls on disjoint data are independent",
 "Host threads of one process that use the library at the same time (started by the program or threads of its own parallel region), each with its own context and its own outputs (inputs may be shared), get exactly the results each call gives alone: no call reads or writes memory that belongs to another, whichever entry points, schedules, helpers and thread counts are combined, and no call changes state of the library that a later or concurrent call depends on.",
 ["schedules","histories","inputs"],
 "all interleavings of all combinations of calls from any number of host threads",
 "The tests are single-threaded callers.",
 ["src/cake_sgemm.cpp","src/block_sizing.cpp","src/cake_sgemm_k_first.cpp","src/cake_sgemm_m_first.cpp","src/cake_sgemm_n_first.cpp","src/pack_helper.cpp","src/util.cpp"],
 [("calls keep their state on the stack and the heap","src/*.cpp"),("no writable globals","include/cake.h, generated include/kernels.h")],
 observe=["outputs of overlapping calls; accesses seen by ThreadSanitizer"])

prop("C25","Running out of memory or processes is never silent",
 "When a memory allocation inside the library is refused, or a child process it needs to query the machine cannot be started, a call either still delivers its right result or ends the process with a failure: no entry point returns normally with a wrong or incomplete C, no checker returns a wrong verdict, no query returns a wrong machine description, nothing hangs, and no memory outside the library's own buffers is touched on the way.",
 ["fault_sequences","inputs","configurations"],
 "all single failures, all runs of failures from some point on, all size limits, for all entry points, queries and checkers",
 "The tests never run out of memory or processes.",
 ["src/cake_sgemm.cpp","src/block_sizing.cpp","src/util.cpp"],
 [("posix_memalign failures end the process","src/cake_sgemm.cpp"),("popen failures end the process","src/block_sizing.cpp")],
 observe=["C, verdicts and contexts after the call; exit status of the process"])

prop("C26","Automatically chosen tiles fit, and use, the cache budgets",
 "Without a user tile the planners choose blocks for the caches described by the context: for the 1-D schedules two working sets (m_c x k_c of A, k_c x n_r of B, m_c x n_r of C) fit the L2 for the element size given, two CB blocks fit the L3 whenever its per-core share admits the L2 tile, a call on p of the cores plans for no more than p shares, and the 2-D planners' panel depth k_c is the largest whose register-tile panels fit the L1 and their m_c x n_c tile fits the L2; when the problem is large enough to fill the blocks, the tiles are also within one or two register tiles of the largest that fit, so the caches described are really used.",
 ["configurations","inputs"],
 "all cache sizes, core counts, register tiles, element sizes, shapes and thread counts",
 "The tests only compare products, which are right for any tile size.",
 ["src/block_sizing.cpp"],
 [("get_cache_dims","src/block_sizing.cpp"),("init_block_dims_2d","src/block_sizing.cpp"),("init_block_dims_2d_small","src/block_sizing.cpp")],
 observe=["the plan returned by the planners"])

prop("C27","Empty dimensions are handled",
 "A dimension of zero is a valid problem for every entry point, schedule, planner, packer, checker and kernel: with M = 0 or N = 0 nothing is read or written and the call returns, with K = 0 every element of C becomes exactly beta times its old value (zero when beta is 0, whatever C held), plans have no blocks and sizes of zero along the empty dimension, packing an empty operand touches nothing, a kernel of depth 0 leaves its tile unchanged, and the checkers judge empty products like any other.",
 ["inputs","configurations"],
 "all combinations of empty dimensions with all other sizes, thread counts, tiles, scalars and entry points",
 "The tests' smallest dimension is 1.",
 ["src/cake_sgemm.cpp","src/block_sizing.cpp","src/pack_k_first.cpp","src/pack_m_first.cpp","src/pack_n_first.cpp","src/util.cpp","python/kernel_gen.py"],
 [("block counts of zero","src/block_sizing.cpp"),("loops over blocks","src/cake_sgemm_k_first.cpp")],
 observe=["C after the call; accesses seen by AddressSanitizer; process survival"])

prop("C28","What the library prints is what it holds",
 "print_array and print_mat print every element once, in order (print_mat one row per line), as a number that is the element to six decimals (NaN and infinities recognisable as such), and print_schedule names the schedule it is given; the self-checkers print the verdict they return and, when they reject, the number of elements that are wrong. Printing never changes its argument.",
 ["inputs"],
 "all matrices (any shape, any values), schedules and candidates",
 "No test reads the output of these helpers.",
 ["src/util.cpp"],
 [("print_array, print_mat, print_schedule","src/util.cpp"),("CORRECT / WRONG messages of the checkers","src/util.cpp")],
 observe=["standard output of the call"])

prop("C29","A schedule that does not exist is refused",
 "A call that is given a schedule outside KMN, MKN, NKM (or the automatic choice, where the library chooses) ends the process unsuccessfully before it has written anything to its outputs: cake_sgemm, the 1-D planner, the packers and the unpacker, the size functions, the schedule dispatcher and print_schedule never treat such a value as some other schedule, never return as if the work were done, and never crash on it.",
 ["inputs","configurations"],
 "all values outside the enumeration, and the automatic choice where a concrete schedule is needed, for all shapes, thread counts, tiles and contexts",
 "The tests only name schedules that exist.",
 ["src/cake_sgemm.cpp","src/block_sizing.cpp","src/pack_helper.cpp","src/util.cpp"],
 [("default branches of the switches over the schedule","src/cake_sgemm.cpp, src/block_sizing.cpp, src/pack_helper.cpp, src/util.cpp")],
 observe=["exit status of the process; output buffers in shared memory"])

with open(os.path.join(os.path.dirname(__file__),"..","properties.jsonl"),"w") as f:
    for p in P: f.write(json.dumps(p)+"\n")
print(len(P))
