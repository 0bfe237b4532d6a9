"""Registry of the checks: which drivers decide which property, and how much they run.

'quick'/'thorough' are case counts (a check is bounded by cases, never by time); cases are split over processes that
differ in pool size (NT_THREADS) and code generation target (VERIF_TGT). Every process has a private HOME.
"""
CHECKS = {}

def check(pid, drivers, rule, explanation, assumptions=(), require=None, min=None, **kw):
    CHECKS[pid] = dict(drivers=drivers, rule=rule, explanation=explanation, assumptions=list(assumptions),
                       require=require or {}, min=min or {"quick": 1, "thorough": 1}, level=kw.pop("level", "exploration"), **kw)

def D(driver, variant, quick, thorough, *args, **kw):
    return dict(driver=driver, variant=variant, quick=quick, thorough=thorough, args=list(args), **kw)

def R(pid, variant="asan"):
    """Deterministic scenarios: the minimal history of every defect found so far, plus hand-written corner cases"""
    return D("regress", variant, 1, 1, "prop=" + pid, shards=1, timeout={"quick": 200, "thorough": 200}, targets=[0])

A_TOOL = "LLVM (system library) compiles the generated IR correctly; native AVX512-FP16 instruction selection is disabled (see DESIGN.md, Toolchain)"
A_POOL = "the nanothread submodule is absent; /verif/shim implements its documented contract (FIFO tasks, dependencies, workers) and injects delays"
A_FM = "FastMath is off while comparing values (it licenses rewrites that ignore NaN/inf/-0)"

PROG_RULE = ("a case is a generated program (inputs, statements, control flow, side effects) executed by the library; distinct_nontrivial "
             "counts distinct programs (hash of their text) of which more than four output elements were compared with a defined reference value")

check("C01", [D("prog", "plain", 900, 40000, "mode=arith"), D("prog", "asan", 160, 6000, "mode=arith"), D("lits", "plain", 800, 60000), D("lits", "asan", 120, 6000), R("C01")], PROG_RULE,
      "random traced arithmetic over all types and sizes against a per-element reference interpreter written independently of the library",
      [A_TOOL, A_POOL, A_FM], {"elements_compared": 10000, "presentations": 1000, "compositions": 100})
check("C02", [D("prog", "plain", 400, 16000, "mode=opt"), D("prog", "asan", 80, 3000, "mode=opt"), D("lits", "plain", 1600, 80000), R("C02")], PROG_RULE,
      "every program is executed four times with random optimisation flags, literal/opaque/array inputs and forced evaluations; all runs must equal the reference",
      [A_TOOL, A_POOL, A_FM], {"elements_compared": 10000, "evaluations_forced": 10, "presentations": 1000, "compositions": 100})
check("C03", [D("prog", "plain", 560, 24000, "mode=flow"), D("prog", "asan", 120, 5000, "mode=flow"), R("C03")], PROG_RULE,
      "random nests of symbolic loops and conditionals with side effects against the per-element interpreter",
      [A_TOOL, A_POOL, A_FM], {"elements_compared": 10000, "loop_iterations": 1000, "branches": 1000})
check("C04", [D("prog", "plain", 480, 20000, "mode=call"), D("prog", "asan", 120, 5000, "mode=call"), R("C04")], PROG_RULE,
      "random domains of callables with instance data, nested calls, masks and side effects against the per-element interpreter",
      [A_TOOL, A_POOL, A_FM], {"elements_compared": 10000, "callee_runs": 1000})

check("C15", [D("half_sw", "plain", 128, 128), D("half_hw", "plain", 128, 128), D("half_hw", "asan", 2, 16, base=64), D("half_sw", "asan", 2, 16, base=64)],
      "a case is one of 64 blocks of 2^26 float bit patterns (conversion; all 64 are always run) or one of 64 blocks of 1024 left operands; distinct_nontrivial counts distinct blocks per configuration",
      "both conversion paths on every float bit pattern, every half, and a large set of operand pairs against an integer-only reference of IEEE binary16",
      ["the host's float arithmetic (round to nearest even) is the reference for the float result that is rounded to half"], {"float_inputs": 1 << 32})
check("C24", [D("containers", "asan", 3600, 200000), D("containers", "plain", 3600, 200000), D("containers_mtx", "plain", 240, 4000), D("containers", "tsan", 48, 1000, "mode=lock"), D("containers_mtx", "tsan", 16, 500, "mode=lock")],
      "a case is a random operation history on one container/utility (or a multi-threaded run on the lock), compared with the std:: counterpart after every operation; distinct_nontrivial counts distinct histories",
      "model-based monitoring of the header-only containers with life-cycle tracking elements, block accounting, ASan/UBSan and TSan",
      ["rvalue arguments that alias an element, throwing element constructors and char* arguments into the string's own buffer are outside of the supported use"],
      {"vector_operations": 10000, "slot_operations": 10000, "lock_sections": 10000, "string_operations": 10000, "unique_ptr_operations": 10000, "hash_comparisons": 10000})

check("C08", [D("alloc", "plain", 800, 40000), D("alloc", "asan", 240, 8000), D("alloc", "tsan", 48, 1500)],
      "a case is a random history of allocator calls (1-5 threads, hand-over between threads), of code-memory-manager callbacks, or of kernels whose buffers are recycled under injected scheduling delays; distinct_nontrivial counts distinct histories",
      "interval-overlap, content, alignment and exact accounting monitors over the allocator; value monitors over recycled buffers while kernels are delayed",
      [A_POOL, "memory migrated asynchronously is not touched or released by its owner before synchronising (jit.h)"],
      {"allocator_operations": 10000, "memmgr_sections": 10000, "async_arrays_checked": 1000, "accounting_checks": 1000, "migrations": 100})

check("C05", [D("mem", "plain", 2400, 100000), D("mem", "asan", 400, 12000), D("mem", "tsan", 48, 1500), R("C05")],
      "a case is a random history of gathers, scatters, scatter-reductions (all modes), atomic increments, exchanges, compare-and-swaps and packet operations on up to three targets; distinct_nontrivial counts distinct histories",
      "every target, result and snapshot is compared with plain arrays updated by the same history; canaries around mapped targets; atomics are judged by conservation (multisets of values, unique tickets, one winner per slot)",
      [A_TOOL, A_POOL, "updates of different kinds to one array are separated by an evaluation; indices of active lanes are in bounds (out of bounds only in debug mode)"],
      {"elements_compared": 100000, "canaries_checked": 50, "exchanges": 1000, "increments": 1000, "swaps": 1000, "out_of_bounds": 10, "reductions_mode0": 10, "reductions_mode1": 10, "reductions_mode2": 10, "reductions_mode3": 10, "reductions_mode4": 10})

check("C09", [D("registry", "plain", 1200, 60000), D("registry", "asan", 400, 16000), D("registry", "plain", 160, 6000, "mode=threads"), D("registry", "tsan", 32, 1000, "mode=threads"), R("C09")],
      "a case is a random history of registry operations (put, get_id, get_ptr, peek, id_bound, remove, clear, shutdown) on up to 700 pointers in 7 domains, or a concurrent history on several threads; distinct_nontrivial counts distinct histories",
      "a map model is compared with every answer; concurrent histories are judged by uniqueness, stability and conservation of the identifiers; ASan/TSan",
      ["domain and variant names are string constants (the registry keeps the pointers)"], {"cases": 100})

check("C16", [D("larr", "plain", 1000, 60000), D("larr", "asan", 200, 8000), R("C16")],
      "a case is a random program on local arrays (creation, initialisation, reads, writes, copies, selects, evaluation, loops, conditionals, calls); distinct_nontrivial counts distinct programs whose contents were all compared",
      "per-element vectors with unknown-flags for uninitialised slots are updated by the same program and compared with every read and with the final contents of every version of every array",
      [A_TOOL, A_POOL, "masked reads may return zero or the slot; a fresh array is initialised at most once", "the state of a loop is not permuted between arrays"],
      {"elements_compared": 100000, "loops": 50, "conditionals": 50, "calls": 50, "selects": 20, "copies": 50})

check("C06", [D("red", "plain", 12000, 400000), D("red", "asan", 1600, 50000), R("C06")],
      "a case is one random reduction/scan/compaction/permutation/dot product/copy/fill request (type, op, size, block size, direction, data); distinct_nontrivial counts distinct requests with more than one element",
      "every request is executed by the library and compared with the sequential loop; guard zones surround the outputs; pool sizes and block sizes vary per process",
      [A_POOL, A_TOOL], {"reduction_results": 10000, "prefix_results": 100000, "permutations": 50, "compressions": 20, "dot_products": 10, "tile_repeat_elements": 10000})
check("C21", [D("gemm", "plain", 16000, 800000), D("gemm", "asan", 2400, 80000)],
      "a case is one batched matrix product request (types, extents, strides, transpositions, batch maps, accumulation); distinct_nontrivial counts distinct requests with at least one compared element",
      "every request is executed and compared with a naive triple loop in higher precision; guard zones surround the operands",
      [A_POOL], {"elements_compared": 100000, "raw_products": 100, "var_products": 100, "multi_panel": 5, "reduced_batches": 50})

check("C19", [D("strbuf", "plain", 64, 64, "mode=u32"), D("strbuf", "plain", 4000, 200000), D("strbuf", "asan", 2000, 60000), D("intro", "plain", 560, 30000), D("intro", "asan", 160, 6000)],
      "a case is one of 64 blocks of 2^26 32-bit numbers (all always run), a random history on one string buffer with unit formatting, or a random program with introspection (tables, graphs, strings, labels, log levels, history) inserted between its statements; distinct_nontrivial counts distinct blocks/histories/programs",
      "put_u32 on every 32-bit number; every builder directive against an independent expansion at all fill levels; parsed variable tables and graphs against the queried state; programs with introspection against the reference interpreter; state snapshots around read-only queries",
      [A_POOL, A_TOOL, "introspection strings are consumed before the next API call (they live in static buffers)"],
      {"u32_values": 1 << 32, "buffer_operations": 10000, "format_directives": 10000, "unit_strings": 10000, "rows_checked": 10000, "purity_checks": 1000, "strings_checked": 100, "log_messages": 1000})

check("C17", [D("vals", "plain", 1500, 80000), D("vals", "asan", 300, 12000), R("C17")],
      "a case is a random history of creations, copies, writes, scatters, resizes, shrinks, maps, migrations, reads and evaluations over a pool of variables; distinct_nontrivial counts distinct histories whose variables were all compared",
      "every variable has a plain array as its model; after each history (and at random points) the contents of all live variables are read back and compared; canaries around mapped memory",
      [A_TOOL, A_POOL], {"writes": 500, "scatters": 500, "shrinks": 200, "migrations": 100, "elements_compared": 100000})
check("C22", [D("scopes", "plain", 3000, 150000), D("scopes", "asan", 320, 12000), D("scopes", "plain", 200, 8000, "mode=threads"), D("scopes", "tsan", 32, 1000, "mode=threads"), R("C22")],
      "a case is a random history of prefix/mask/scope/self/flag/label operations interleaved with masked reads and writes (mode=threads: one such history per thread at the same time); distinct_nontrivial counts distinct histories",
      "explicit stacks are compared with every query after every few operations; masked gathers/scatters with an array model; value numbering across scopes; concurrent threads must not see each other's state; ASan/TSan",
      [A_TOOL, A_POOL, "pushed masks are formed with jit_var_mask_apply()/jit_var_mask_default(), as the recording functions do", "variables of an outer scope do not depend on variables of a later scope"],
      {"elements_compared": 100000, "masked_effects": 500, "masked_reads": 500, "merged": 500, "histories": 1000})

check("C07", [D("life", "plain", 9000, 400000, "mode=graph"), D("life", "asan", 800, 30000, "mode=graph"), D("life", "plain", 400, 20000, "mode=prog"), D("life", "asan", 80, 3000, "mode=prog")],
      "a case is a random history of creations, copies, evaluations, callbacks and releases (mode graph) or a generated program (mode prog); distinct_nontrivial counts distinct histories",
      "every audit compares the variable table with a reachability model (who must be alive, with how many references, whose release callbacks have run); after each case no variable and no memory may remain",
      [A_TOOL, A_POOL, "host-side bookkeeping memory that is released only at shutdown is outside the property"],
      {"audits": 1000, "rows_checked": 10000, "variables_freed": 1000, "callbacks": 50, "leak_checks": 100})
check("C10", [D("cache", "plain", 500, 25000, "mode=content"), D("cache", "asan", 80, 4000, "mode=content"), D("cache", "plain", 700, 30000, "mode=faults"), D("cache", "plain", 100, 4000, "mode=procs")],
      "mode=content: one kernel whose cache file is altered in 2-5 of 18 ways (bit flips, torn and zeroed tails, other kernels' files, stale versions, forged sizes with a valid checksum, directories, links) or requested for up to 6 compilation targets; mode=faults: one I/O call of a load or store fails, is cut short, or the file changes while it is read; mode=procs: processes killed at a random I/O call of the store, 2-5 concurrent processes sharing a directory (with a vandal altering files), or an eviction sweep; every case uses new random kernels",
      "kernel history: an altered or foreign file must never be reported as loaded, a pristine one must be, and is replaced after it was rejected; results are compared with a host evaluation; an independent implementation of the file checksum classifies what a failed store leaves behind; children report results of every kernel and must exit normally",
      [A_TOOL, A_POOL, "failing I/O is injected by wrapping fopen/read/write/link/... in the driver"],
      {"evaluations": 3000, "repairs_checked": 800, "target_switches": 200, "faults_injected": 200, "killed_processes": 15, "concurrent_processes": 30, "sweeps": 15})
check("C11", [D("freeze", "plain", 3000, 150000), D("freeze", "asan", 300, 15000), R("C11")],
      "a case is a random function of up to 16 operations (arithmetic, casts, gathers and scatters, packet operations, reductions, prefix sums, compress, loops, conditionals, calls, matrix products, opaque widths, pauses), recorded once and replayed 3-6 times with inputs of other contents and sizes, re-recorded when the dry run rejects them; distinct_nontrivial counts distinct functions",
      "a plain C++ evaluation of the same function on the inputs of every call; inputs and values derived from them are re-read after every replay; the variable table and the allocator must be empty afterwards; recordings are abandoned at random points; operations that cannot be replayed must raise (scenarios)",
      [A_TOOL, A_POOL, "outputs are listed once, as the language bindings do", "launch sizes can be inferred from arrays that are accessed directly (documented requirement)", "views created by jit_var_shrink() are excluded from the random functions (known finding)"],
      {"recordings": 1000, "replays": 3000, "replays_other_size": 1500, "recordings_abandoned": 40, "elements_compared": 1000000, "rejections_checked": 20})
check("C14", [D("errors", "plain", 4000, 200000), D("errors", "asan", 400, 16000), D("life", "plain", 400, 20000, "mode=abort"), D("life", "asan", 60, 3000, "mode=abort")],
      "a case is a sequence of invalid requests in a random context (errors) or a generated program abandoned by an exception at a random statement (life); distinct_nontrivial counts distinct requests/programs",
      "every invalid request must raise; variable table, flags, mask/prefix/self stacks and memory statistics are compared before/after; bystander arrays keep their values; later correct use works; nothing leaks",
      [A_TOOL, A_POOL, "argument checks that the library performs in debug builds only (operand type mismatches of plain arithmetic) are outside the property"],
      {"rejected": 2000, "bystanders_checked": 1000, "leak_checks": 500, "aborted": 200})
