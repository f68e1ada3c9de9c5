NOTES = "All checks are static: they compile /repo's current source to LLVM IR and decide on the IR; nothing of /repo is executed. No hooks."
DRV = "static analysis of LLVM IR: whole-driver abstract interpretation into closed-form event summaries (guards, offsets, trip counts per buffer), dataflow composition of packing, micro-kernel tiles and unpacking, and a deterministic counterexample search over the derived relations"
DRVN = "Summaries are derived from the compiler's IR of the current source on every run, with no bound on the loops; a violation is a concrete instance of the derived relation. Obligations not proved in closed form are searched over a deterministic, condition-directed set of shapes and tiles (counts in the evidence)."
CLAIMS = {
    **{c: (DRV, DRVN) for c in ("C01", "C02", "C03", "C04", "C05", "C17", "C20", "C21")},
    "C07": ("static analysis of LLVM IR: interprocedural write/release effect analysis of every pointer argument, plus the driver event summaries", DRVN),
    "C09": ("static analysis of LLVM IR: definite assignment as value flow through the interpreted functions (pre-CSE SSA, memory cells, returned context fields), path conditions refuted over BDDs and intervals; plus poison propagation through the driver summaries", DRVN),
    "C13": ("static analysis of LLVM IR: dispatch-table and tile-selector enumeration, call-site composition of packing and micro-kernel tiles over the driver event summaries", DRVN),
    "C14": ("static analysis of LLVM IR: alignment demands of every access traced to allocation roots through callers, congruence/divisibility domain over the event offsets", DRVN),
    "C15": ("static analysis of LLVM IR: per-schedule specialisation of every dispatching entry point, comparison of the events reached; default branch must diagnose and end", "Each entry point is analysed once per schedule value and once for a value outside the enumeration."),
    "C16": ("static analysis of LLVM IR: mutable-global and static inventory, effect analysis of context arguments over every entry point", "Global and static objects of the library that any function may write are enumerated from the IR; writes through context pointers are traced interprocedurally."),
    "C06": (DRV + "; plus a capture/effect rule over every outlined OpenMP region", DRVN),
    "C18": ("static analysis of LLVM IR: closed-form summary of the tiled transposition and its in-register kernel, index-map composition", DRVN),
    "C08": ("static analysis of LLVM IR: path-sensitive typestate of every acquisition site and of every caller-owned pointer, with calls inlined; array-of-blocks release rule; allocation/release events of the driver summaries", "Paths are the control-flow paths of each library function with its callees inlined, joined on typestate and correlated branch conditions; heap blocks that escape into an argument are the caller's."),
    "C10": ("static analysis of LLVM IR: path-sensitive typestate (untested / held / missing) of every allocation result", "An allocation result must be compared with null (or the posix_memalign code with zero) on every path before it is read, written, cleared or passed on."),
    "C19": ("static analysis of LLVM IR: typestate of pipes, definite-initialisation and extent analysis of text buffers, interval and linear reasoning over the closed-form values of the probes", "The output of a probed command is unconstrained: any bytes, any length, or nothing."),
    "C12": ("static analysis of LLVM IR (x86-64 and AArch64) of the generator's output: closed-form lane-wise data flow; local rule for every accumulation site, order rule searched in the derived relation", "ARMv8 IR is produced by clang --target=aarch64; the sparse format's precondition (empty columns last in the uncompressed kernels) is assumed."),
    "C25": ("static analysis of LLVM IR: ordered walk of the whole-driver summaries: thread-count setters (omp_set_num_threads, num_threads, serialised regions) and the parallel regions they reach, path conditions over BDDs", "Every region of an entry point is an obligation; the count in force at it, as a term, must be the parameter p on every path."),
    "C26": ("static analysis of LLVM IR: abstract machine over the checkers' control flow with the comparison outcome as an unconstrained atom (ordered, greater, NaN), closed-form loop summaries for coverage and the reference", "Verdicts are enumerated over the outcomes of the comparison, not over values."),
    "C27": ("static analysis of LLVM IR: reachability conditions of process ends, continuation conditions of loops from the closed forms of their counters, divisors; refuted by a sign domain over BDD path conditions, the rest searched in the derived relation", "About nine in ten conditions are refuted for all arguments at once; the remaining ones (block remainders, pm*pn grids) are searched over bounded valuations of the closed forms."),
    "C11": ("static analysis of LLVM IR: closed-form loop summaries of every kernel plus a certified linear-arithmetic prover",
            "Every obligation is decided for all m,n,k at once over the compiler's IR; trusts clang's lowering of the intrinsics and the x86 semantics encoded in tools/interp.py."),
}
NA = {
    "C22": "Rounding error is a quantitative property of floating-point runtime values; no static rule here bounds it. What is static in it (each product taken once, single accumulation) is decided by C01, C02, C11 and C12.",
    "C23": "DRAM traffic is a runtime quantity of caches and replacement; the code contains no contract for it that could be checked against its source.",
    "C24": "Sizes and offsets are 32-bit ints throughout, so the property fails for large enough arguments by design; it holds only under an input bound (M*K, K*N, M*N < 2^31) that is nowhere stated in the code and no static argument can supply.",
}
