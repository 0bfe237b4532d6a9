"""technique / level_note per property (MANIFEST.json), and the properties that are not claimed."""
_S = "Exploration: holds on the executions observed (counts in the evidence file), no claim beyond them. "
_T = "Trusts the system LLVM library, the nanothread stand-in in /verif/shim and the harness's reference model."
NOTES = {
 "C01": ("reference-model monitor over randomly traced programs, repeated under AddressSanitizer/UBSan", _S + _T),
 "C02": ("differential runtime monitor: the same random program under varied optimisation flags, operand kinds and evaluation points", _S + _T),
 "C03": ("reference-model monitor over random symbolic loops/conditionals with side effects, repeated under ASan/UBSan", _S + _T),
 "C04": ("reference-model monitor over random indirect calls, repeated under ASan/UBSan", _S + _T),
 "C08": ("runtime monitors for overlap, contents, alignment and exact accounting of every allocation; delay injection; ASan/TSan", _S + _T),
 "C05": ("array-model monitor over random gather/scatter/atomic histories (canaries, conservation laws, snapshots), repeated under ASan/UBSan and TSan", _S + _T),
 "C06": ("sequential reference monitor with guard zones over random reduction/scan/permutation requests, repeated under ASan/UBSan", _S + _T),
 "C09": ("map-model monitor over random registry histories; conservation and uniqueness over concurrent histories; ASan/UBSan/TSan", _S),
 "C16": ("per-element vector model over random programs with local arrays, loops, conditionals and calls, repeated under ASan/UBSan", _S + _T),
 "C17": ("array-model monitor over random histories of copies, views, writes and host access, repeated under ASan/UBSan", _S + _T),
 "C22": ("explicit-stack monitor over random nesting histories, on one and several threads; ASan/UBSan and TSan", _S + _T),
 "C15": ("exhaustive and randomized comparison of the executed conversions/operators with an integer-only reference, on the software and hardware paths, plus UBSan", "Conversions from float are exhaustive (2^32 inputs on both paths); operator pairs are sampled in the quick tier."),
 "C19": ("model monitor over the string builder (put_u32 exhaustive), parsed introspection output against queried state, snapshots around queries; ASan/UBSan", _S + _T),
 "C21": ("triple-loop reference monitor with guard zones over random batched products, repeated under ASan/UBSan", _S + _T),
 "C07": ("reachability-model monitor over the variable table (references, release callbacks, leaks) of random histories and programs; ASan/UBSan", _S + _T),
 "C10": ("fault injection (altered files, failing I/O calls, killed and concurrent processes) under a monitor of kernel history, results and file validity; ASan/UBSan", _S + _T),
 "C11": ("differential runtime monitor: recorded functions are replayed on other inputs and compared with a plain evaluation of the same function; leak and input monitors; ASan/UBSan", _S + _T),
 "C14": ("before/after state monitor over a catalog of invalid requests and over programs aborted by exceptions; ASan/UBSan", _S + _T),
 "C24": ("model-based runtime monitors (std:: counterparts, life-cycle tracking elements, block accounting) under ASan/UBSan, TSan for the lock", _S),
}
NOT_APPLICABLE = {
 "C26": "GPU backends need a CUDA/OptiX/Metal device and driver; none exists in the sandbox, so no execution of them can be observed.",
}
