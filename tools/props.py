import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    assert len(title)<=80,(id,len(title))
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})

p("C01","Traced arithmetic computes the reference value of every element",
"On the CPU (LLVM) backend, whatever sequence of arithmetic, comparison, logical, bit, min/max, rounding, select and cast operations is traced over scalars, literals and arrays, evaluating the variable yields for every element the value that executing the same operations one scalar at a time gives (two's complement wrap-around for integers, IEEE rounding for floats, fused rounding for fma, documented NaN behaviour of min/max/fmin/fmax). This holds for every element type including half precision and 8/16-bit integers, every array size (sizes that are not a multiple of the vector width or block size included), every supported vector width, block size and number of worker threads. Inputs for which the operation has no defined result (division by zero, out-of-range float-to-integer casts, oversized shifts) and the sign of a zero or payload of a NaN are outside the claim; rcp/rsqrt and floating point division by a constant (multiplication by a reciprocal) may differ from the exact quotient by rounding error, single and double precision subnormals may be flushed to zero, and the FastMath flag (which licenses more) is excluded.",
["programs","inputs","configurations","schedules"],"All operation DAGs, element types, input bit patterns, widths, LLVM vector widths, block sizes, thread counts.",
"The upstream tests exercise a handful of fixed expressions and sizes and cannot be linked here at all; vector remainders, constant folding corner cases and type-specific lowering depend on combinations no fixed test enumerates.",
["src/op.cpp","src/llvm_eval.cpp","src/eval.cpp","src/var.cpp","src/llvm_core.cpp"],
[("jitc_var_* tracing operations with literal folding","src/op.cpp"),("IR rendering per variable kind","src/llvm_eval.cpp: jitc_llvm_render"),("kernel assembly, parameter passing and block launch","src/eval.cpp: jitc_assemble, jitc_run")],
obs=["jit_var_read / jit_memcpy of evaluated variables"])

p("C02","Optimisations and evaluation points never change a result",
"Whether an input is a literal, an opaque (evaluated) scalar or an array, whether constant propagation, local value numbering, variable reuse, index reuse or launch fusion is switched on, and wherever in the program evaluation is forced, every observable result of the program is the same value. In particular merging two variables because they were judged to be the same computation, simplifying an operation because of a literal operand, or dropping unreferenced work never merges, alters or loses a computation that the program still observes, and a side effect is executed exactly once. Only the sign of zero, NaN payloads, flushed subnormals and the documented rounding of division by a constant may differ; FastMath is excluded.",
["programs","configurations"],"All programs, all subsets of optimisation flags, all placements of evaluation points, all literal/opaque/array presentations of equal inputs.",
"A unit test compares one expression under one flag set; this relates the result of the same program across every flag set and evaluation schedule.",
["src/op.cpp","src/var.cpp","src/eval.cpp","src/init.cpp"],
[("local value numbering table keyed by variable content","src/var.cpp: jitc_var_new"),("literal simplification rules","src/op.cpp"),("jit_set_flag handling","src/init.cpp")],
obs=["values of the same program executed under two configurations"])

p("C03","Symbolic loops and conditionals behave as element-wise control flow",
"A loop recorded symbolically leaves each element with the state that running the loop body for exactly that element while its own condition is true would leave (elements that never enter keep their initial state), and a symbolic conditional gives each element the outputs of the branch its condition selects. Side effects (scatters, scatter reductions) inside are applied exactly once per active element and iteration, and never by inactive elements. This holds for arbitrary nesting, for state that is constant, swapped, duplicated or unused, with loop optimisation on or off, for literal and scalar conditions, and for every array size.",
["programs","inputs","configurations"],"All loop/conditional nests, trip counts per element, loop-state shapes, optimisation flags.",
"Loop-invariant detection re-traces the loop body and removes or merges state variables; whether that is sound depends on the data flow of each program, and the tests cover some twenty programs.",
["src/loop.cpp","src/cond.cpp","src/eval.cpp","src/llvm_eval.cpp"],
[("loop recording and state-variable optimisation","src/loop.cpp: jitc_var_loop_start/cond/end"),("conditional recording","src/cond.cpp"),("phi/branch rendering and mask stack","src/llvm_eval.cpp, src/init.cpp")],
obs=["final state variables and scatter targets"])

p("C04","Indirect calls run each element's own callee and nothing else",
"A symbolic call over an array of instance ids gives each active element exactly the outputs computed by the callable registered for its id with that instance's data and that element's arguments; elements whose id is zero or whose mask is false receive zero outputs and cause no side effect. This holds for any number of instances and registered classes, with identical callables merged or not, with constant or dead outputs optimised away or not, with nested and self-referencing calls, with calls inside loops and conditionals, and for every combination of uniform, literal, constant-per-instance and varying inputs. Partitioning elements by callee (the evaluated call path) returns every element with a non-zero id exactly once, in the bucket of its own id, in ascending order of position.",
["programs","inputs","configurations"],"All callee sets, id distributions, masks, argument/return shapes, nesting and flags.",
"Call rendering deduplicates callables, packs per-instance data and elides inputs/outputs; correctness needs all combinations, the tests sample ~25.",
["src/call.cpp","src/llvm_eval.cpp","src/llvm_ts.cpp","src/registry.cpp"],
[("call recording, optimisation of inputs/outputs, data offsets","src/call.cpp: jitc_var_call"),("bucketing by callee","src/call.cpp: jitc_var_call_reduce, src/llvm_ts.cpp: mkperm")],
obs=["call outputs, scatter targets of callee side effects, returned buckets"])

p("C05","Gathers and scatters touch exactly the addressed, unmasked elements",
"A gather returns the element at its index where the mask is true and zero elsewhere; a scatter, scatter-reduction (add, mul, min, max, and, or), atomic increment, exchange or compare-and-swap updates exactly the elements addressed by unmasked lanes and no other memory. Reductions conserve: the final value equals the initial value combined once with every unmasked contribution in every reduction mode, increments and exchanges hand out each slot/old value exactly once across all threads, and packet variants equal the corresponding sequence of single-element operations. Reads that precede a write in program order see the old contents, reads that follow see the new ones, and other variables that share storage with the target are unaffected. Min/max reductions involving NaN and updates of different kinds to one array without an evaluation in between are outside the claim; in debug mode, out-of-bounds accesses of arrays are reported and suppressed.",
["inputs","programs","schedules","configurations"],"All index/mask distributions, types, reduce ops and modes, packet sizes, thread interleavings, interleavings of reads and writes.",
"Atomicity and conservation depend on the interleaving of worker threads and on index collisions; existing tests use a few patterns.",
["src/op.cpp","src/llvm_scatter.cpp","src/llvm_packet.cpp","src/var.cpp","src/eval.cpp"],
[("copy-on-write and dirty tracking of scatter targets","src/op.cpp: jitc_var_scatter; src/var.cpp"),("atomic/local/permuted scatter-reduction code","src/llvm_scatter.cpp"),("packet memory operations","src/llvm_packet.cpp")],
obs=["target arrays, returned old values/slots, guard pages around buffers"])

p("C06","Reductions, scans and compaction equal their sequential definition",
"Sum, product, min, max, and, or and fmin/fmax style reductions over whole arrays or fixed-size blocks, inclusive/exclusive forward/reverse block prefix reductions, dot products, all/any, compress, bucketing permutations and block copies return what the straightforward sequential loop over the elements returns (exactly for integers and for order-independent operations, within floating point reassociation error otherwise; min/max with NaN operands excluded). This holds for every supported element type, array size, block size (dividing the size or leaving a partial last block), aliasing of input and output where permitted, and number of worker threads, and nothing outside the output range is written.",
["inputs","configurations","schedules"],"All types, ops, sizes, block sizes, thread counts, chunkings.",
"Parallel chunking boundaries depend on size, block size, and pool size; the tests sample small sizes and a few types.",
["src/llvm_ts.cpp","src/llvm_red.h","src/util.cpp","src/var.cpp","src/llvm_core.cpp"],
[("chunked parallel reduce/scan/compress/mkperm","src/llvm_ts.cpp"),("per-type kernels","src/llvm_red.h"),("variable level wrappers, type promotion","src/var.cpp")],
obs=["outputs, guard zones"])

p("C07","Variables live exactly as long as they are referenced",
"A variable index stays valid and keeps its contents as long as any external reference, pending computation, side effect, symbolic region or recorded function still needs it, and once the last one is gone the variable, its device memory, its label and its user callback are released; the callback fires exactly once. After any history of operations that drops all its references (including ones that raised errors and histories interleaving evaluation), no variable remains and all device memory that was handed out has been returned to the allocator.",
["histories","programs"],"All interleavings of creation, reference changes, evaluation, scatters, calls, loops, stashing of reference counts and errors.",
"Reference-count errors show only after particular sequences, typically as a later wrong reuse; upstream tests check for leaks at exit of a few fixed programs only.",
["src/var.cpp","src/var.h","src/eval.cpp","src/call.cpp","src/loop.cpp","src/cond.cpp","src/malloc.cpp"],
[("external and internal reference counts, jitc_var_free","src/var.cpp"),("release of scheduled/consumed variables","src/eval.cpp")],
state=[("ref_count / ref_count_se","external+internal references and pending side effects","src/internal.h: Variable")],
obs=["jit_var_ref, jit_var_callback, variable counts at shutdown, allocator totals"])

p("C08","Allocations never overlap and are reused only after pending work",
"Memory returned by the allocator is at least as large as requested, suitably aligned, and disjoint from every other live allocation; freed memory is recycled only once all asynchronous work queued before the free that may touch it has finished, so no computation ever observes another allocation's data. Accounting is exact: usage equals the sum of live allocations, watermarks are never below usage, trimming releases only unused memory, and every allocation can be freed from any thread. The memory manager of the JIT compiler hands out aligned, disjoint, zero-padded sections inside its buffer and reports exhaustion instead of overrunning it.",
["histories","schedules"],"All allocation/free/flush/launch histories and thread interleavings, all sizes.",
"Premature reuse corrupts data only when a slow kernel overlaps a recycled block; tests run fast kernels and no adversarial schedule.",
["src/malloc.cpp","src/malloc.h","src/alloc.h","src/util.cpp"],
[("size-class free lists per stream/device, deferred release behind queued tasks","src/malloc.cpp: jitc_malloc/jitc_free/jitc_flush_malloc_cache")],
state=[("alloc_used, alloc_free","live and recyclable blocks","src/internal.h: State")],
obs=["returned pointers, block patterns, jit_malloc_* statistics"])

p("C09","The instance registry is a bijection between live pointers and ids",
"Within each (variant, domain) the registry maps every registered pointer to a distinct non-zero id and back until it is removed: lookups of a live id return exactly that pointer, ids never exceed the reported bound, removed ids return null until reused, and reusing a freed id never disturbs other entries. Domains do not interfere, and double registration or removal of an unknown pointer is rejected without changing anything. This holds for any history and for concurrent callers.",
["histories","schedules"],"All put/remove/query histories over any number of domains and pointers, all thread interleavings.",
"Id recycling order and domain bookkeeping only break after particular histories.",
["src/registry.cpp","src/registry.h","src/api.cpp"],
[("fwd/rev maps and free-id heap per domain","src/registry.cpp")],
obs=["jit_registry_put/remove/id/ptr/id_bound/peek/domain"])

p("C10","The on-disk kernel cache is never trusted blindly and survives crashes",
"A cached kernel is used only when it is complete, intact and was made for exactly the same program and compilation target; a missing, truncated, corrupted, foreign, stale-format or unreadable cache file, a full or read-only disk, and a crash or kill at any point while a cache file is being written lead at worst to recompilation, never to a wrong result, a crash or an exception. Several processes may use the same cache directory at once with the same guarantee. An intact entry is used instead of compiling again, a rejected one is replaced, and the periodic sweep evicts only cache entries, least recently used first, and only as far as the size limit requires.",
["crash_points","fault_sequences","inputs","schedules"],"All file corruptions and truncation points, all I/O faults and kill points, all concurrent writers.",
"The tests never damage a cache file nor inject an I/O fault.",
["src/io.cpp","src/io.h","src/eval.cpp","src/llvm_core.cpp"],
[("header, size and hash validation, temp file + atomic rename","src/io.cpp: jitc_kernel_load/jitc_kernel_write"),("cache lookup","src/eval.cpp: jitc_run")],
obs=["results, kernel history entries, files left in the cache directory"])

p("C11","Replaying a recorded function equals running it on the new inputs",
"A function recorded once and replayed with other inputs (other contents and other array sizes, including those that change launch sizes) produces the values that executing the original operations on those inputs would produce, including reductions, scatters into inputs, memory copies, and index/size-dependent quantities. Inputs that are not modified by the function are left untouched, replaying any number of times neither leaks nor alters the recording, a dry run accepts exactly the replays that the real run can perform, and what cannot be recorded faithfully is rejected with an error instead of being replayed wrongly. Recorded functions list every input and output once, and the launch sizes must be inferable from arrays that kernels access directly (documented requirements).",
["programs","inputs","histories"],"All recordable programs, input contents and sizes, numbers of replays, interleavings with ordinary code.",
"Size inference and slot renaming must be right for all input sizes and aliasing patterns; tests check a few functions at a few sizes.",
["src/record_ts.cpp","src/record_ts.h"],
[("operation capture, slot/lifetime analysis, size inference, replay","src/record_ts.cpp")],
obs=["replay outputs vs fresh execution, input contents, variable and memory counts"])

p("C12","The API may be used from many threads without races or lost updates",
"Any number of threads may concurrently trace, evaluate, allocate, copy, register instances, change their own flags and labels and drop references, each thread working on its own variables, without data races, deadlock, corrupted state or results that differ from a single-threaded execution. Per-thread state (flags, scopes, masks, prefixes, current backend stream, recordings) of one thread never affects another thread.",
["schedules","programs"],"All interleavings of API calls from several threads and worker pool schedules.",
"Races appear only under particular interleavings; the tests are single threaded.",
["src/api.cpp","src/lock.h","src/init.cpp","src/var.cpp","src/malloc.cpp","src/eval.cpp","src/registry.cpp","src/log.cpp"],
[("global state lock taken by each API entry point, released around waits","src/api.cpp, src/lock.h"),("separate lock for the allocator and evaluation","src/malloc.cpp, src/eval.cpp")],
obs=["ThreadSanitizer reports, results, watchdog"])

p("C13","Valid API use never causes memory errors or undefined behaviour",
"As long as the caller obeys the documented API contract, neither the library's own code nor the machine code it generates reads or writes outside live allocations, uses freed or uninitialised memory, or executes undefined behaviour, for any sequence of API calls, any array size (zero, one, and odd sizes included) and any fill of user memory that was handed to the library. Zero-sized (empty) operands are handled by every operation without a crash.",
["programs","inputs","histories","configurations"],"All API call sequences, sizes, types, backend configurations.",
"Tests run without instrumentation, on a few programs, and only one test binary runs here.",
["src/var.cpp","src/op.cpp","src/eval.cpp","src/llvm_eval.cpp","src/llvm_ts.cpp","src/call.cpp","src/array.cpp","src/io.cpp"],
[("size and bound computations throughout; masked loads/stores for remainders","src/llvm_eval.cpp, src/llvm_ts.cpp, src/llvm_packet.cpp")],
obs=["AddressSanitizer/UBSan reports, guard pages adjacent to mapped arrays"])

p("C14","A failed operation reports an error and leaves everything as it was",
"An API call with invalid arguments (incompatible sizes or types, masked/empty misuse, wrong nesting of symbolic regions, evaluation inside a symbolic region, out-of-range packet sizes, and similar; type checks that only exist in debug builds excluded) raises an error rather than returning a wrong result, and afterwards all existing variables, pending side effects, scopes, masks, flags and memory accounting are what they were before the call, so that subsequent correct use works and nothing is leaked. Aborting a symbolic loop, conditional, call or recording at any point restores the state of the thread that was in effect before it started.",
["histories","fault_sequences"],"All invalid calls at any point of any history, all abort points of symbolic regions.",
"Error paths are combinatorial and almost untested.",
["src/op.cpp","src/var.cpp","src/loop.cpp","src/cond.cpp","src/call.cpp","src/array.cpp","src/record_ts.cpp","src/api.cpp"],
[("argument checks that raise before mutating state","src/op.cpp: jitc_var_check"),("jit_var_loop_end/jit_var_cond_end abort, jit_record_abort, jit_record_checkpoint/jit_record_end cleanup","src/loop.cpp, src/cond.cpp, src/record_ts.cpp, src/var.cpp")],
obs=["exceptions, values of bystander variables, leak counters"])

p("C15","Half precision conversions and arithmetic are correctly rounded",
"Converting float or double to half precision rounds to the nearest representable value with ties to even, saturating to infinity and flushing only what rounds to zero, converting half to a wider type is exact, and NaN, infinities, signed zeros and subnormals are preserved as such, on the software path and the hardware path alike; the two agree bit for bit on all non-NaN inputs. Other arithmetic types convert as if through single precision. Arithmetic, comparison and mathematical operators of the half type return the correctly rounded float result of the operands, and type queries (limits, traits) describe the format truthfully.",
["inputs","configurations"],"All 2^16 half values, all 2^32 float inputs, all double inputs, pairs of half values, with and without hardware support.",
"The one runnable test compares hardware and software conversions only where the compiler enables F16C, and neither checks operators nor doubles.",
["include/drjit-core/half.h","include/drjit-core/traits.h"],
[("software conversion routines and operator overloads","include/drjit-core/half.h")],
obs=["bit patterns returned"])

p("C16","Variable-indexed local arrays behave like private per-element arrays",
"A local array variable gives every element its own private array: after any history of initialisations, writes at constant or per-element indices under a mask, reads at constant or per-element indices under a mask, and selections between arrays, a read returns the most recent unmasked write to that slot by the same element (or the initial value), and masked or inactive elements change nothing (a masked read returns zero or the contents of the slot). Copies are independent values, and this holds within loops, conditionals and calls, for every type, length and array size, before and after evaluation.",
["programs","inputs"],"All read/write/select histories, lengths, types, sizes, enclosing control flow.",
"Copy elision of array writes depends on the order of uses; tests sample a few sequences.",
["src/array.cpp","src/llvm_array.cpp","src/eval.cpp"],
[("array state machine and copy-on-write","src/array.cpp"),("memory layout, loads and stores","src/llvm_array.cpp")],
obs=["values read back"])

p("C17","Variables have value semantics across copies, views and host access",
"Modifying one variable (through writes of single entries, scatters, resizes, shrinks or in-place migration) never changes any other variable, even when they share storage or the same computation (views copy on write); data copied in or mapped is returned unchanged by reads, copies and migrations for every type and size. Literals, counters, pointers-to-literals and size-one variables expand to the documented contents when resized, shrunk, read or evaluated, and mapping, freeing or migrating keeps ownership and contents right.",
["histories","inputs"],"All histories of creation, copy, resize, shrink, write, read, migrate, map and evaluation.",
"Sharing bugs show only when a particular aliasing pattern precedes a particular write.",
["src/var.cpp","src/malloc.cpp","src/util.cpp","src/op.cpp"],
[("jitc_var_write/read/copy/resize/shrink/migrate/mem_map/mem_copy","src/var.cpp"),("jitc_malloc_migrate","src/malloc.cpp")],
obs=["contents of all live variables against a model"])

p("C18","Asynchronous work takes effect in program order and sync waits for it",
"Kernels, reductions, copies, fills, host callbacks and frees issued by a thread take effect as if executed in program order although they run asynchronously on a thread pool; when a synchronisation, read or event wait returns, everything issued before it has completed. Each enqueued host function runs exactly once, after preceding and before following work, and an event is reported complete only after the work preceding its recording has completed.",
["schedules","histories"],"All task schedules of the pool, all sequences of asynchronous calls.",
"Ordering violations need adversarial delays between tasks; tests run with a natural schedule.",
["src/llvm_ts.cpp","src/util.cpp","src/init.cpp","src/eval.cpp"],
[("task chaining (each task depends on its predecessor) and barriers","src/eval.cpp, src/llvm_ts.cpp: jitc_task handling"),("events","src/llvm_ts.cpp, src/init.cpp: jit_event_*")],
obs=["host-callback log, buffer contents at callback time, event state"])

p("C19","Formatting and introspection are exact and free of side effects",
"The string builder produces exactly the documented expansion of each format directive (integers of every width, hexadecimal, floating point literals that parse back to the same value, type and variable placeholders), independent of the current buffer fill, and never truncates (NaN payloads of literals excepted). Converting variables to strings, listing variables, rendering the computation graph, querying kernel IR or history and logging at any level report the true state and never change results, reference counts or pending work.",
["inputs","histories"],"All format strings/arguments at all buffer fill levels; introspection inserted at any point of any history.",
"Buffer growth boundaries and large values are not enumerated by tests.",
["src/strbuf.cpp","src/strbuf.h","src/log.cpp","src/var.cpp","src/init.cpp"],
[("StringBuffer::fmt/fmt_cuda/fmt_llvm/put*","src/strbuf.cpp"),("jitc_var_str/jitc_var_whos/jitc_var_graphviz","src/var.cpp")],
obs=["produced strings, program results with and without introspection"])

p("C20","Cooperative vectors equal their element-wise definition",
"Packing, unpacking, element-wise unary/binary/ternary operations, literals, casts, matrix-vector products with optional bias and transposition, outer-product and reduce accumulation over cooperative vectors return for each element the values given by the plain component-wise formulas (within floating point accumulation error for products), for every vector length, matrix shape, offset, stride, packed layout and array size. Packing matrices into and out of the optimal layout preserves every entry and writes nothing else.",
["programs","inputs","configurations"],"All lengths, shapes, layouts, ops, types, sizes.",
"Shapes and offsets span a large space; upstream tests for this live in another repository.",
["src/coop_vec.cpp","src/llvm_coop_vec.cpp","src/coop_vec.h"],
[("tracing of coop-vec operations and matrix views","src/coop_vec.cpp"),("IR generation","src/llvm_coop_vec.cpp")],
obs=["unpacked components, packed matrices"])

p("C21","Batched matrix products equal the triple loop",
"The batched GEMM entry point computes alpha-free C = op(A) op(B) (with broadcasting and summed batch dimensions as documented) for every supported combination of transposition, element type, matrix extents, batch strides and index maps exactly as the naive triple loop does, within floating point accumulation error, for any number of threads, without touching memory outside C.",
["inputs","configurations","schedules"],"All shapes including 0/1 and non-multiples of the tile size, strides, batches, transpositions, types.",
"Tile remainders make many shape classes; no runnable test covers it.",
["src/llvm_gemm.h","src/llvm_ts.cpp","src/record_ts.cpp"],
[("tiled GEMM micro-kernels and batching","src/llvm_gemm.h")],
obs=["C and guard zones"])

p("C22","Thread-local scopes, masks, labels and flags nest and restore",
"Scopes, label prefixes, mask stacks, self pointers and flags are per thread and strictly nested: after pushing and popping in any order permitted, the previous value is in effect again, new variables carry the prefix and scope in effect at their creation, and a pushed mask (which includes the enclosing one, as documented) restricts exactly the side effects and memory reads traced while it is active. Labels survive evaluation, replacing or removing a label never affects another variable, and variables with different scopes are never merged although equal ones in the same scope may be.",
["histories","programs"],"All nesting histories of scopes, prefixes, masks, flags and labels.",
"Nesting histories are unbounded and the interplay with value numbering and evaluation is untested.",
["src/init.cpp","src/var.cpp","src/api.cpp","src/internal.h"],
[("thread-state stacks","src/api.cpp, src/init.cpp"),("label storage","src/var.cpp: jitc_var_set_label")],
obs=["jit_prefix, jit_var_label, jit_scope, jit_var_mask_peek, results"])

p("C23","Identical computations reuse one kernel; the history counts every launch",
"Tracing a computation again with the same structure (only input contents, literal-free array sizes or memory addresses differ) reuses the previously compiled kernel instead of compiling again, whereas computations that differ never share a kernel in a way that changes results. The kernel history lists every launch and backend operation performed while it was enabled exactly once, in order, with its true size, type and cache status, and reading it clears it.",
["programs","histories"],"All programs, all re-tracings, all histories of enabling, launching and reading.",
"Kernel identity depends on deterministic naming/ordering in generated code for every program.",
["src/eval.cpp","src/init.cpp","src/llvm_eval.cpp","src/hash.h"],
[("kernel hashing and cache","src/eval.cpp: jitc_run"),("KernelHistory","src/init.cpp")],
obs=["jit_kernel_history"])

p("C24","The bundled containers and utilities match their standard counterparts",
"The header-only containers and helpers shipped with the library (vector, unique_ptr, pair/tuple, functional hashing, free-slot list, half-aware traits, aligned host allocator, lock) behave as the standard-library counterparts they imitate under every operation sequence: contents, order, size, capacity growth, element construction/destruction balance, move/copy/self-assignment semantics, lookups, uniqueness of handed-out slots, mutual exclusion. No element is leaked, destroyed twice or accessed after destruction (constructors that throw and appending a string's own characters to itself are outside the claim).",
["histories","schedules"],"All operation sequences on the containers with throwing-free element types; all interleavings for the lock.",
"Only used indirectly by tests.",
["include/drjit-core/nanostl.h","include/drjit-core/hash.h","include/drjit-core/traits.h","src/free_slots.h","src/lock.h","src/alloc.h","src/hash.h"],
[("drjit::vector, unique_ptr, tuple ...","include/drjit-core/nanostl.h"),("FreeSlots","src/free_slots.h"),("Lock","src/lock.h")],
obs=["model comparison, instance counters"])

p("C25","Ray-tracing calls hand lanes to the callback and back unchanged",
"A traced CPU ray-intersection call invokes the user supplied intersection routine once per packet with exactly the per-lane inputs (origin, direction, limits, time, masks, coherence and shadow settings) of the lanes in that packet and with inactive lanes disabled, and returns to each lane exactly the outputs the routine wrote for it; disabled lanes come back as 'no hit' with untouched inputs. This holds for every array size, vector width, float precision handling and surrounding control flow.",
["programs","inputs","configurations"],"All ray inputs, masks, sizes, vector widths, shadow/coherent variants.",
"No test exercises it (it needs Embree).",
["src/llvm_core.cpp","src/llvm_eval.cpp","src/api.cpp","src/var.cpp"],
[("ray packet marshalling","src/llvm_eval.cpp: jitc_llvm_ray_trace")],
obs=["arguments seen and values returned by a stub intersection routine"])

p("C26","GPU backends (CUDA, OptiX, Metal) give the same results as the CPU one",
"Everything stated for the CPU backend also holds when the same program is executed by the CUDA, OptiX or Metal backend, including textures and green contexts.",
["programs","configurations"],"All programs on all GPU devices.",
"Needs devices.",
["src/cuda_eval.cpp","src/cuda_ts.cpp","src/optix_core.cpp","src/metal_eval.cpp","src/cuda_tex.cpp"],
[("PTX and Metal code generation","src/cuda_eval.cpp, src/metal_eval.cpp")])
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
