#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run by hand)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
def P(id, title, statement, over, qtext, why, files, mech, observe, hook=None):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], observe_at=[observe], hook_needed=hook))
SCHED = "the unit tests call each operation once at a time on one thread; they sample no interleaving, no signal handler and no history of earlier calls"
claimed = [
P("C01", "Vector operations are reentrant and independent of other callers",
  "The result of every vector operation depends only on its operands: it is the same whether the operation runs alone in a fresh process, is preempted between any two machine instructions while other threads run operations on other data, is interrupted by a signal handler that itself runs vector operations, or follows any history of earlier calls. No operation shares mutable state with another call, and none reads stale stack or register contents. This holds in optimised and unoptimised builds and with extended instruction sets enabled.",
  ["schedules", "histories", "inputs"], "every operation and operand values, every interleaving of several threads at instruction granularity, every nesting in signal handlers, every preceding call sequence",
  SCHED, ["src/lib.rs", "src/api.rs", "src/codegen.rs", "src/api/shuffle1_dyn.rs", "src/codegen/shuffle1_dyn.rs", "src/api/bitmask.rs", "src/codegen/reductions/mask.rs"],
  [("stateless lane-wise operations", "src/api/ops"), ("dynamic shuffles through local memory", "src/codegen/shuffle1_dyn.rs"), ("mask reductions with target-specific paths", "src/codegen/reductions/mask"), ("bit casts through local unions and arrays", "src/sealed.rs, src/api/cast.rs, src/api/hash.rs")],
  "results of public vector operations"),
P("C02", "Vector operations finish alone, with no lock, heap or system call",
  "Every vector operation, formatting and hashing into caller buffers included, completes within a bounded number of its own instructions even if every other thread is suspended forever at an arbitrary instruction inside a vector operation, and even when it runs in a signal handler that interrupted a vector operation. It never blocks or spins on another caller, never allocates heap memory and never enters the operating system.",
  ["schedules", "fault_sequences", "inputs"], "every operation, every suspension point of every other caller, every interrupted operation",
  "a test never suspends a thread in the middle of an operation for ever, so a lock or a wait looks harmless", ["src/lib.rs", "src/api.rs", "src/codegen.rs", "src/codegen/math.rs", "src/codegen/shuffle1_dyn.rs"],
  [("no_std, allocation-free operations", "src/lib.rs"), ("loops over lanes only", "src/api, src/codegen")], "return of the call; allocator; system-call instructions"),
P("C03", "Vector operations leave the floating-point environment as they found it",
  "Whatever rounding mode, flush-to-zero or denormals-are-zero setting the caller has installed, every vector operation returns with the same setting, with the legacy floating-point and vector register state usable, and with the direction flag clear. This holds also when the operation is preempted in favour of other threads or interrupted by handlers that use other settings.",
  ["schedules", "histories", "inputs"], "every operation, operand values, floating-point setting, interleaving and nesting",
  "tests run under the default setting only and never read it back", ["src/codegen/math/float", "src/api/math/float", "src/codegen/reductions", "src/codegen/v64.rs", "src/api/cast.rs"],
  [("math functions implemented by intrinsics or per-lane calls", "src/codegen/math/float"), ("64-bit vectors that could use legacy registers", "src/codegen/v64.rs, src/codegen/reductions/mask/x86.rs")],
  "control registers before and after public operations"),
P("C04", "A slice store writes exactly its lanes and touches nothing else",
  "Storing a vector into a slice, aligned or unaligned, checked or unchecked, changes exactly the first elements of the slice, one per lane, to the lanes in order. At no instant does it write any other byte of memory, even transiently, so bytes next to the destination can be owned and updated concurrently by other threads, or be unmapped; a valid store never fails.",
  ["schedules", "inputs", "fault_sequences"], "every vector type, store kind, address, slice length and placement next to unmapped memory; every instant at which another owner updates neighbouring bytes",
  "the tests store once into a roomy array and look at it afterwards; a read-modify-write of a neighbour or an access past the end is invisible to them", ["src/api/slice/write_to_slice.rs"],
  [("aligned and unaligned stores", "src/api/slice/write_to_slice.rs")], "memory around the destination at every instant"),
P("C05", "A slice load reads exactly its lanes, whatever surrounds the slice",
  "Loading a vector from a slice, aligned or unaligned, checked or unchecked, yields the first elements of the slice in order. It writes no memory other than the result, works on read-only memory, and reads no page the slice does not occupy, so the surroundings may be unmapped or be changed by other threads while it runs; a valid load never fails.",
  ["schedules", "inputs", "fault_sequences"], "every vector type, load kind, address, slice length and placement; every instant at which surrounding memory changes or disappears",
  "the tests load from writable arrays surrounded by mapped, quiet memory", ["src/api/slice/from_slice.rs"],
  [("aligned and unaligned loads", "src/api/slice/from_slice.rs")], "result; page protections; memory around the source"),
P("C06", "A masked gather touches only the enabled lanes",
  "Reading through a vector of pointers under a mask returns the pointed-to element in every enabled lane and the given default in every other lane. Disabled lanes are never dereferenced: they may be null, dangling, misaligned, or point to memory that other threads unmap or change while the read runs. Nothing but the result is written.",
  ["schedules", "inputs", "fault_sequences"], "every element, pointer and mask type, every mask, every placement of lanes, every instant at which other memory changes or disappears",
  "the tests use all-valid pointers into one array, so an access through a disabled lane is harmless there", ["src/api/ptr/gather_scatter.rs"],
  [("masked read through pointer vectors", "src/api/ptr/gather_scatter.rs")], "result; page protections"),
P("C07", "A masked scatter writes only the enabled lanes, last lane winning",
  "Writing through a vector of pointers under a mask stores each enabled lane to its address, and when enabled lanes share an address the highest such lane's value remains. Disabled lanes are never dereferenced, and no byte outside the enabled elements is written at any instant, so other threads may own, change or unmap everything else while the write runs.",
  ["schedules", "inputs", "fault_sequences"], "every element, pointer and mask type, every mask, every placement and overlap of lanes, every instant at which other owners act",
  "the tests scatter into one array with distinct valid lanes and inspect it afterwards", ["src/api/ptr/gather_scatter.rs"],
  [("masked write through pointer vectors", "src/api/ptr/gather_scatter.rs")], "memory at every instant"),
P("C08", "An invalid slice or lane index is refused before anything is touched",
  "The checked slice loads and stores panic, in every build, when the slice has fewer elements than the vector has lanes, and the aligned ones also when the slice is not aligned to the vector; checked lane reads and replacements panic for every index not below the lane count. A refused call reads or writes nothing through the slice, not even transiently, leaves the vector and all memory as they were, and the library remains fully usable after the panic is caught.",
  ["inputs", "fault_sequences", "schedules"], "every type, every short length and misalignment, every out-of-range index of the whole index range, next to unmapped memory, with neighbours active",
  "the tests try one or two invalid calls per type and only that they panic, in one build", ["src/api/slice/write_to_slice.rs", "src/api/slice/from_slice.rs", "src/api/minimal/iuf.rs", "src/api/minimal/mask.rs", "src/api/minimal/ptr.rs"],
  [("length and alignment assertions", "src/api/slice"), ("index assertions", "src/api/minimal")], "unwinding, and memory at every instant"),
P("C09", "Formatting reports sink errors, stops, and never garbles a sink's text",
  "Formatting a vector, in debug, hexadecimal, octal or binary style with any flags, writes the type name, an opening parenthesis, the lanes in order each formatted as the scalar with the same style and flags and separated by a comma and a space, and a closing parenthesis. If the sink fails or unwinds at any write, formatting stops there: the sink has received a prefix of that text and nothing more is written, an error is returned as an error and a panic propagates; a sink that accepts everything never sees an error. Sinks that format other vectors while being written to, and several threads formatting at once, all get exactly their own text.",
  ["fault_sequences", "schedules", "inputs"], "every type, value, style, failing write position, re-entry and preemption point",
  "the tests format default vectors into a buffer that never fails", ["src/api/fmt/debug.rs", "src/api/fmt/lower_hex.rs", "src/api/fmt/upper_hex.rs", "src/api/fmt/octal.rs", "src/api/fmt/binary.rs"],
  [("lane-by-lane formatting", "src/api/fmt")], "bytes reaching the sink, returned result"),
P("C10", "Hashing feeds the caller's hasher exactly the lanes, once, even re-entrantly",
  "Hashing a vector feeds the hasher the same bytes as hashing the array of its lanes, each exactly once and in order, whatever the hasher does meanwhile: hash other vectors, be preempted in favour of other threads that hash, or unwind. After a hasher unwinds, the panic propagates, the hasher has received a prefix of those bytes and is not called again, and hashing the same vector again works.",
  ["fault_sequences", "schedules", "inputs"], "every hashable type and value, every call at which the hasher re-enters, unwinds or is preempted",
  "the tests hash one vector into a default hasher that never fails or re-enters", ["src/api/hash.rs", "src/api/ptr.rs", "src/v128.rs"],
  [("hash through an array of lanes", "src/api/hash.rs")], "bytes reaching the hasher"),
P("C11", "Sum and product consume the caller's iterator exactly once, in order",
  "Summing or multiplying vectors from an iterator, by value or by reference, equals the lane-wise wrapping left-to-right fold from zero or one over the items up to the iterator's first end. Each item is requested exactly once and none after the first end, whatever the iterator claims about its length, and whether it folds other vectors inside itself or is preempted; if it unwinds, the panic propagates, the iterator is not called again, and a later fold is unaffected.",
  ["fault_sequences", "schedules", "inputs"], "every type, item sequence, iterator behaviour and call at which it unwinds, re-enters or is preempted",
  "the tests fold two well-behaved arrays", ["src/api/reductions/integer_arithmetic.rs", "src/api/reductions/float_arithmetic.rs", "src/api.rs"],
  [("Sum and Product implementations", "src/api/reductions")], "calls of the iterator, result"),
P("C12", "Nodes built for different processors agree on every result",
  "A computation that moves between nodes, or runs on several of them, gives the same result whether a node's copy of the library is compiled with or without optimisation and debug assertions and with whichever instruction-set extensions (SSE2 baseline, SSSE3/SSE4, AVX, AVX2): every operation on the same operands yields the same lanes, masks, formatted text, hash bytes and panics on all of them, for every chain of operations and every point of migration, re-execution after a crash, or repeated delivery. This covers conversions of any float to integers, rotations by any amount, and reductions; it leaves open only the estimates (sqrte, rsqrte, recpre, mul_adde), the bits of a NaN, the sign of a zero minimum or maximum, and calls outside an operation's domain (shifts by the lane width or more, division by zero or overflowing division, dynamic shuffle indices out of range).",
  ["inputs", "histories", "configurations", "fault_sequences"], "every operation and operand values, every chain of operations, every assignment of its steps to differently compiled nodes, every re-execution",
  "the tests run in one build with the baseline instruction set: target-specific paths are never executed, and never against another build", ["src/codegen/reductions/mask", "src/codegen/shuffle1_dyn.rs", "src/codegen/math/float", "src/api/cast/macros.rs", "src/api/ops/vector_rotates.rs", "src/api/reductions"],
  [("target-specific mask reductions", "src/codegen/reductions/mask/x86"), ("target-specific dynamic shuffles", "src/codegen/shuffle1_dyn.rs"), ("numeric casts", "src/api/cast/macros.rs"), ("rotations", "src/api/ops/vector_rotates.rs")],
  "results of public vector operations in differently compiled copies of the library"),
]
PURE = "a pure function of its operands: no schedule, clock, I/O, fault or history takes part, so a simulation has nothing to decide (that the result does not depend on schedule, history or environment is C01-C03)"
na = [
("N01", "Lane-wise arithmetic, bitwise and shift operators equal the scalar operators", "Every vector arithmetic, bitwise and shift operator, vector-vector and vector-scalar, computes in each lane what the scalar operator computes with wrapping semantics.", ["src/api/ops"]),
("N02", "Comparisons and lexicographic ordering agree with the lanes", "Vector comparisons produce a mask whose lanes are the scalar comparisons, and equality and the lexicographic orders agree with comparing the arrays of lanes.", ["src/api/cmp"]),
("N03", "Horizontal reductions equal the fold of the lanes", "Sum, product, minimum, maximum, and, or, xor, all, any and none over the lanes equal the corresponding scalar fold.", ["src/api/reductions", "src/codegen/reductions"]),
("N04", "Casts and bit casts convert every lane as the scalar conversion does", "Lane-wise casts behave like scalar casts and bit casts preserve the bits.", ["src/api/cast", "src/api/into_bits"]),
("N05", "Static and dynamic shuffles select the requested lanes", "Every output lane of a shuffle is the input lane its index names.", ["src/api/shuffle.rs", "src/api/shuffle1_dyn.rs", "src/codegen/shuffle1_dyn.rs"]),
("N06", "Bit counting, rotation, byte swapping and endian conversion are lane-wise exact", "Bit-manipulation and byte-order operations equal the scalar ones in every lane.", ["src/api/bit_manip.rs", "src/api/swap_bytes.rs", "src/api/ops/vector_rotates.rs"]),
("N07", "Floating-point functions meet their documented precision in every lane", "Vector math functions agree with the scalar functions within the documented error.", ["src/api/math", "src/codegen/math"]),
("N08", "Masks, selection and bitmasks are consistent lane by lane", "Selection picks per lane by the mask and a bitmask has bit i set exactly when lane i is true.", ["src/api/select.rs", "src/api/bitmask.rs"]),
("N09", "Vector layout matches the array of lanes", "Vectors have the size of, and convert losslessly to and from, arrays of their lanes.", ["src/api/from", "src/testing"]),
("N10", "Construction and lane access round-trip", "Reading lane i of a constructed or replaced vector yields the value put there.", ["src/api/minimal", "src/api/from"]),
]
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in claimed:
        f.write(json.dumps(p) + "\n")
    for (i, t, s, files) in na:
        f.write(json.dumps(P(i, t, s, ["inputs"], "every type and every operand value", "tests sample a handful of values per type", files,
                             [("implementation", files[0])], "result of the operation")) + "\n")
TECH = {"C12": "seeded search over jobs, migrations, crashes and deliveries in a simulated cluster of nodes running differently compiled copies of the real library"}
LNOTE = {"C12": "Seeded sampling of jobs and fault sequences; up to five builds of the library (opt0 with debug assertions, opt3 baseline, SSSE3/SSE4, AVX, AVX2, as the CPU allows) loaded as nodes of one simulated process. Agreement between builds is decided, not correctness of a value all builds share."}
checks = []
for p in claimed:
    i = p["id"]
    checks.append(dict(property=i, quick_cmd="python3 check.py run %s" % i, thorough_cmd="VERIF_TIER=thorough python3 check.py run %s" % i,
        technique="deterministic simulation with fault injection (%s)" % TECH.get(i, "seeded schedule and fault search over the real library, instruction-granular"),
        level="exploration",
        level_note=LNOTE.get(i) or "Seeded sampling of schedules and faults over the real compiled library in three builds (opt0 with debug assertions, opt3, opt3+AVX2) on x86_64; a clean run is evidence for the explored seeds, not a proof. Interleavings are sequentially consistent. Trusted: the simulator, rustc, the CPU's trap flag."))
m = dict(version=1, setup_cmd="python3 check.py setup",
         hooks=dict(guard="none: the public API and caller-supplied arguments are the seams", enable="not needed", source_commits=[]),
         checks=checks, not_applicable=[dict(property=i, reason="%s is %s" % (t, PURE)) for (i, t, s, f) in na],
         notes="Replay a violation: python3 check.py replay <file>. Design and limits: DESIGN.md.")
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
