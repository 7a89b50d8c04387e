"""What each check explores: budgets and the wording of its evidence."""

REAL_LIB = ["packed_simd, compiled from /repo's working tree in every listed build, called through its public API",
            "the Rust core library it is compiled with"]
TF = ("caller threads (real OS threads, one running at a time, the scheduler decides which and may change its mind "
      "after every machine instruction, through the x86 trap flag)")
HANDLER = "signal handlers (library calls placed between two machine instructions of an interrupted library call)"
ASSUME = [
    "x86_64; three builds of the library: opt-level 0 with debug assertions, opt-level 3, opt-level 3 with AVX2 (if the CPU has it)",
    "interleavings are sequentially consistent at machine-instruction granularity on one CPU: weak-memory effects are not explored",
    "sampling: a clean run is evidence over the explored seeds, not a proof",
]

PROPS = {
    "C01": dict(
        faults=["switches", "nested_ops", "bursts", "dirty_frames"],
        rule="one run = a seeded choice of library operations and operands for 1-3 caller threads, interrupted at seeded "
             "instructions by thread switches or by other library operations in a signal handler, or preceded by seeded "
             "bursts of calls and stale stack contents; the result of every call is compared with the same call made "
             "alone in a fresh process. Non-trivial: distinct decision sequence and workload.",
        real=REAL_LIB, stub=[TF, HANDLER, "stale stack and register contents"]),
    "C02": dict(
        faults=["switches", "stalls", "nested_ops"],
        rule="as C01, but a preempted thread stays suspended for good until all others finish, or an operation is "
             "interrupted by a stepped signal handler; every call must finish within 20 times its solo instruction "
             "count plus 30000, without heap allocation and without a system call instruction. Non-trivial: distinct "
             "decision sequence and workload.",
        real=REAL_LIB, stub=[TF, HANDLER, "the heap (every allocation request is a violation)"]),
    "C03": dict(
        faults=["switches", "nested_ops", "mxcsr_nondefault"],
        rule="as C01, with a seeded floating-point control word (rounding mode, flush-to-zero, denormals-are-zero) per "
             "call; the SSE control bits, the x87 control and tag words and the direction flag must be unchanged after "
             "every call. Non-trivial: distinct decision sequence and workload.",
        real=REAL_LIB, stub=[TF, HANDLER, "the floating-point environment set by the caller"]),
    "C04": dict(
        faults=["neighbour_writes", "neighbour_lib_stores"],
        rule="one run = 1-2 slice stores of seeded type, kind, address and length in a simulated memory of four pages "
             "between guard pages; between any two instructions of the store other owners rewrite bytes next to the "
             "destination (directly or with library stores); after every instruction and at the end no byte outside the "
             "destination differs from what its owner last wrote and the destination holds the lanes. Non-trivial: "
             "distinct decision sequence and workload.",
        real=REAL_LIB, stub=["memory (guard pages, model of every byte)", "the other owners of memory"]),
    "C05": dict(
        faults=["neighbour_writes", "neighbour_lib_stores", "unmaps", "readonly_maps"],
        rule="as C04 with slice loads; the source is often read-only, pages it does not touch are unmapped and remapped "
             "in flight, bytes next to it change in flight; the result must be the lanes and nothing else may be "
             "written or faulted on. Non-trivial: distinct decision sequence and workload.",
        real=REAL_LIB, stub=["memory (guard pages, protections, model of every byte)", "the other owners of memory"]),
    "C06": dict(
        faults=["neighbour_writes", "unmaps", "readonly_maps", "masked_dangling"],
        rule="one run = 1-2 masked gathers of seeded pointer, element and mask type; disabled lanes point to null, guard, "
             "non-canonical, unmapped or misaligned addresses; other owners change and unmap memory in flight. "
             "Non-trivial: distinct decision sequence and workload.",
        real=REAL_LIB, stub=["memory (guard pages, protections, model of every byte)", "the other owners of memory"]),
    "C07": dict(
        faults=["neighbour_writes", "unmaps", "masked_dangling", "overlap_lanes"],
        rule="as C06 with masked scatters, including lanes that share an address (the last enabled lane wins). "
             "Non-trivial: distinct decision sequence and workload.",
        real=REAL_LIB, stub=["memory (guard pages, protections, model of every byte)", "the other owners of memory"]),
    "C08": dict(
        faults=["neighbour_writes", "short_slice", "misaligned", "bad_index"],
        rule="one run = an invalid call (slice too short, misaligned, lane index out of range) at a seeded place next to "
             "guard pages, with other owners writing around it in flight: it must unwind, must not have written "
             "anything, and the next valid call must work. Non-trivial: distinct decision sequence and workload.",
        real=REAL_LIB + ["the Rust panic runtime"], stub=["memory (guard pages, model of every byte)", "the other owners of memory"]),
    "C09": dict(
        faults=["sink_errors", "sink_panics", "sink_reentry", "preempt_in_callback", "switches"],
        rule="one run = 1-3 caller threads formatting seeded vectors in seeded styles into simulated sinks which at "
             "seeded writes accept only part and fail, unwind, format another vector, or are preempted; threads are also "
             "preempted between instructions of the formatting code. Non-trivial: distinct decision sequence and workload.",
        real=REAL_LIB + ["core::fmt"], stub=["the sinks", TF]),
    "C10": dict(
        faults=["hash_panics", "sink_reentry", "preempt_in_callback", "switches"],
        rule="one run = 1-3 caller threads hashing seeded vectors into simulated hashers which at seeded calls unwind, "
             "hash another vector, or are preempted. Non-trivial: distinct decision sequence and workload.",
        real=REAL_LIB + ["core::hash"], stub=["the hashers", TF]),
    "C11": dict(
        faults=["iter_panics", "iter_nonfused", "iter_lying_hint", "sink_reentry", "preempt_in_callback", "switches"],
        rule="one run = 1-3 caller threads summing or multiplying seeded vectors drawn from simulated iterators which "
             "unwind, lie about their length, resume after their end, fold other vectors inside next, or are preempted. "
             "Non-trivial: distinct decision sequence and workload.",
        real=REAL_LIB + ["core::iter"], stub=["the iterators", TF]),
    "C12": dict(
        faults=["migrations", "node_crashes", "duplicates", "redeliveries"],
        unit="library operations executed by the nodes",
        rule="one run = a job of 16 library operations, results feeding later operands, on a cluster of nodes that run "
             "the library compiled for different instruction sets and optimisation levels; the job migrates, steps are "
             "re-executed after a crash, delivered twice or late, and at the end every node catches up from the durable "
             "log; all executions of a step must agree. Non-trivial: distinct decision sequence and workload.",
        real=REAL_LIB + ["one loaded build of the library per node"],
        stub=["the cluster: message delivery, node crashes, the durable log (in one process)"]),
}
for p in PROPS.values():
    p["assumptions"] = ASSUME

# (opt3, opt0, opt3-avx2) runs in the quick tier
QUICK = {
    "C01": (18000, 6000, 6000),
    "C02": (6000, 1500, 3000),
    "C03": (8000, 3000, 4000),
    "C04": (96000, 32000, 48000),
    "C05": (96000, 32000, 48000),
    "C06": (96000, 32000, 48000),
    "C07": (96000, 32000, 48000),
    "C08": (36000, 15000, 18000),
    "C09": (8000, 4000, 3000),
    "C10": (96000, 48000, 48000),
    "C11": (24000, 8000, 8000),
    "C12": (30000, 0, 0),
}


def runs_for(prop, tier, variant):
    k = {"opt3": 0, "opt0": 1, "opt3-avx2": 2}[variant]
    n = QUICK[prop][k]
    if tier == "thorough":
        return n * 60, 3600
    return n, 150
