#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
X86 = "src/arch/x86/intrin/"
INT = "src/intrin/"
def p(id, title, statement, over, qtext, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") <= 2, id
    P.append(d)
IC = ["inputs", "configurations"]
LANEQ = "every value of every lane of the input vectors, for every vector type that offers the operation (128-, 256- and 512-bit, all ten element types), under every x86 target-feature configuration that selects different code"
LANEW = "The unit tests use a few hand-picked vectors, mostly splats and repeating patterns (which cannot see two lanes swapped), on three target CPUs; the code differs per vector type and per feature level and must be right for all lane values."

p("C01", "Widening a vector keeps every value and every position",
  "Upcasting a vector to the next wider element type returns two vectors which, read one after the other, hold exactly the numeric values of the source lanes in source order (signed lanes sign-extended, unsigned lanes zero-extended, conversions between 32-bit integers or floats and 64-bit floats value-preserving). This holds for all lane values and for every feature level.",
  IC, LANEQ, LANEW, [INT+"upcast.rs", X86+"upcast.rs"],
  [("per-type widening impls, fallback and intrinsic", X86+"upcast.rs")], ["returned pair of vectors"])
p("C02", "Narrowing two vectors saturates each lane and keeps lane order",
  "Saturating downcast of two vectors returns one vector whose first half is the first operand's lanes in order and whose second half is the second operand's lanes in order. Each integer lane is its source value if the narrow type can represent it and otherwise the nearest representable bound, with the source read in its own signedness; float lanes are the correctly converted value.",
  IC, LANEQ, LANEW, [INT+"downcast.rs", X86+"downcast.rs"],
  [("per-type narrowing impls, fallback and pack intrinsics", X86+"downcast.rs")], ["returned vector"])
p("C03", "Horizontal add and subtract combine adjacent lanes in the documented order",
  "Horizontal addition (subtraction) returns the interleaved sums (differences, left minus right) of adjacent lane pairs: even result lanes come from the first operand's pairs in order and odd result lanes from the second operand's, so the result begins with the first pair of the first operand and ends with the last pair of the second. Integer results wrap modulo the lane width. Every lane takes part exactly once.",
  IC, LANEQ, LANEW, [INT+"hadd.rs", INT+"hsub.rs", INT+"macros.rs", X86+"hadd.rs", X86+"hsub.rs"],
  [("hop! fallback and phadd/phsub/haddp intrinsics with unpack", X86+"hadd.rs, "+X86+"hsub.rs")], ["returned vector"])
p("C04", "Saturating horizontal add and subtract clamp instead of wrapping",
  "The saturating horizontal operations pair and order lanes exactly like the wrapping ones, and each pairwise result is the exact sum or difference clamped to the lane type's range.",
  IC, LANEQ, LANEW, [INT+"saturating_hadd.rs", INT+"saturating_hsub.rs", X86+"saturating_hadd.rs", X86+"saturating_hsub.rs"],
  [("hop! fallback and phadds/phsubs intrinsics", X86+"saturating_hadd.rs, "+X86+"saturating_hsub.rs")], ["returned vector"])
p("C05", "Reductions use every lane exactly once and do not truncate",
  "Reducing a vector to a scalar (sum, product, generic scalar reduction) combines every lane exactly once: integer sum and product are the exact result modulo the lane width, the generic reduction visits lanes in ascending order, and floating-point sum and product use each lane once in some order. The widening sum returns the exact 64-bit sum of the lane values, without intermediate truncation.",
  IC, LANEQ, LANEW, [INT+"sum.rs", X86+"sum.rs", "src/vecs.rs"],
  [("sum / sum_upcast impls", X86+"sum.rs"), ("product, scalar_reduce loops", "src/vecs.rs impl_packed!")], ["returned scalar"])
p("C06", "Merging two vectors takes each lane from the documented operand",
  "Merging by halves, by interleaving or at an offset returns, at each lane index, the lane of the same index of exactly one operand: the first operand for the first half, the even indices, or the indices below the offset respectively, and the second operand otherwise. The offset may be anything from zero to the lane count. An offset beyond the lane count panics.",
  IC, LANEQ + "; every offset", LANEW, [INT+"merge.rs", X86+"merge.rs", "src/arch/x86/vec_patterns.rs"],
  [("blend with generated masks, or lane rebuild fallback", INT+"merge.rs impl_packed_merge!")], ["returned vector"])
p("C07", "Patterned vectors hold the documented pattern",
  "The pattern constructors build vectors whose lanes are exactly as documented for every argument: halves, interleaved, split at any offset from zero to the lane count, all bits set, all bits clear, and the split bit mask whose lanes below the offset are all-zero and whose remaining lanes are all-one. A split beyond the lane count panics.",
  IC, "every pair of lane values and every offset for every vector type and feature level", LANEW,
  ["src/vec_patterns.rs", "src/arch/x86/vec_patterns.rs"],
  [("generated constructors and mask table", "src/arch/x86/vec_patterns.rs")], ["constructed vector"])
p("C08", "De-striding gathers every second or fourth element",
  "De-striding two (four) vectors returns two (four) vectors in which output k holds, in order, the elements at positions k, k+2, k+4, … (k, k+4, …) of the concatenated inputs. Every input element appears in exactly one output place.",
  IC, LANEQ, LANEW, [INT+"destride.rs", X86+"destride.rs"],
  [("shuffle/unpack implementations and polyfills", X86+"destride.rs")], ["returned vectors"])
p("C09", "Byte-order conversions reverse bytes within each lane only",
  "Byte swapping a vector reverses the bytes inside every lane and leaves lane positions alone, so applying it twice is the identity; conversions to and from big-endian on a little-endian target are that swap, and to and from little-endian are the identity.",
  IC, LANEQ, LANEW, [INT+"endian.rs", X86+"endian.rs"],
  [("pshufb with constant index vectors, or per-lane fallback", INT+"endian.rs impl_packed_swap_bytes!")], ["returned vector"])
p("C10", "Reinterpreting a vector keeps every bit in place",
  "Viewing a vector as lanes of another element type of the same total size preserves the bit pattern: lane and bit positions follow little-endian memory order, and converting back gives the original bits.",
  IC, LANEQ, "Nothing in the test suite checks most of the 30x10 source/target pairs; the property must hold for all bit patterns.",
  [INT+"transmute.rs", X86+"transmute.rs"], [("transmute-based views", INT+"transmute.rs impl_packed_transmute!")], ["returned vector"])
p("C11", "Equality masks are all-ones or all-zeroes per lane",
  "The equality mask of two vectors has, at every lane, all bits set if the two lanes compare equal and no bits set otherwise, and the inequality mask is its exact complement. Floating-point lanes compare as numbers: a not-a-number lane equals nothing and positive zero equals negative zero.",
  IC, LANEQ, LANEW, [INT+"eq.rs", X86+"eq.rs"], [("compare intrinsics and scalar fallback", INT+"eq.rs, "+X86+"eq.rs")], ["returned mask vector"])
p("C12", "Absolute value is lane-wise and total",
  "Taking the absolute value of a vector returns, lane by lane and in place, the magnitude of the source lane; for signed integers it is returned as the unsigned lane of the same width, so the most negative value maps to its true magnitude, and for floats only the sign bit is cleared.",
  IC, LANEQ, LANEW, [INT+"abs.rs", X86+"abs.rs"], [("pabs / sign-mask / scalar fallback", X86+"abs.rs")], ["returned vector"])
p("C13", "Lane-wise minimum and maximum pick the right operand lane",
  "The vector minimum and maximum return at every lane the smaller or larger of the two operand lanes at that index, comparing in the lane type's own signedness. For floats this is required whenever neither lane is a not-a-number.",
  IC, LANEQ, LANEW, ["src/intrin/cmp.rs", X86+"cmp.rs"], [("pmin/pmax intrinsics and scalar fallback", X86+"cmp.rs")], ["returned vector"])
p("C14", "Saturating lane-wise arithmetic clamps to the lane type's range",
  "Saturating addition and subtraction return at every lane the exact sum or difference of the operand lanes at that index clamped to the lane type's range.",
  IC, LANEQ, LANEW, [INT+"saturating_add.rs", INT+"saturating_sub.rs", X86+"saturating_add.rs", X86+"saturating_sub.rs"],
  [("padds/psubs intrinsics and scalar fallback", X86+"saturating_add.rs, "+X86+"saturating_sub.rs")], ["returned vector"])
p("C15", "Bit counts are exact",
  "Counting the set bits of a vector returns the exact number of one bits over all lanes, and counting the clear bits returns the total number of bits minus that.",
  IC, LANEQ, "The tests of this operation are not even compiled by the pinned build, and would use splats only.", [INT+"popcnt.rs", X86+"popcnt.rs"],
  [("popcnt and lookup implementations", X86+"popcnt.rs")], ["returned count"])
p("C16", "Float rounding, roots and reciprocals act on each lane in place",
  "Square root, floor, ceiling, truncation, rounding to nearest, reciprocal estimate and reciprocal-square-root estimate each return, at every lane, the named function of the source lane at the same index and of no other lane. Floor, ceiling, truncation and square root are exact; rounding goes to the nearest integer (either neighbour at a tie).",
  IC, LANEQ, LANEW, [INT+"round.rs", INT+"sqrt.rs", INT+"rsqrt.rs", INT+"recip.rs", X86+"round.rs", X86+"sqrt.rs", X86+"rsqrt.rs", X86+"recip.rs"],
  [("round/sqrt/rcp/rsqrt intrinsics and scalar fallback", X86)], ["returned vector"])
p("C17", "Basic vector access reads and writes exactly the addressed lanes",
  "Whether called through the Packed trait or on the vector type itself, loading a vector from a slice at an offset reads exactly the next lane-count elements in order, storing writes exactly those elements and nothing else, wherever in memory the slice starts, extracting returns the addressed lane, and replacing changes the addressed lane only. The checked forms panic whenever offset plus lane count exceeds the slice or the lane index is out of range; a splat has all lanes equal, the default vector is the element default in all lanes, coalescing a splat returns its value, and the advertised lane count and element size match the type.",
  IC, "every lane value, every lane index and offset, every vector type and feature level", LANEW, ["src/vecs.rs", "src/arch/x86/vecs.rs", "src/arch/unknown/vecs.rs"],
  [("load/store/extract/replace/splat/default/coalesce", "src/vecs.rs impl_packed!"), ("access to the portable vectors", "src/arch/unknown/vecs.rs impl_packed_type!")], ["returned values", "target slice", "panics"])
p("C18", "No instruction is used that the build's target does not have",
  "Code compiled for a given set of CPU features only uses vector instructions that those features provide. So a program built for a baseline or mid-range CPU can never hit an illegal-instruction fault inside the library, whichever operation and vector type it uses.",
  ["configurations", "programs"], "every public operation on every vector type under every x86 feature level from no SSE to AVX2",
  "The tests run on one machine that has every instruction, so a missing feature test never faults there; and they sample three of the feature levels.",
  [X86, INT, "src/arch/x86/vec_patterns.rs"], [("cfg(target_feature) gates on each intrinsic path", X86+"*.rs and macros in "+INT)], ["instructions selected per configuration"])
p("C19", "Every operation is available in every supported configuration",
  "The library builds, and offers the same operations for the same vector types, at every x86 feature level, with its tracing feature on or off and with or without the standard library, and a program that compiles for one feature level compiles for all of them. It also builds for targets that are not x86, where it offers the same operations on the default vector of each element type.",
  ["configurations", "programs"], "feature levels from no SSE to AVX2 and the portable sources, crossed with the tracing and standard-library features and every operation/vector-type pair",
  "The tests are compiled for three CPUs with default features only; gaps between complementary conditional-compilation branches show only in the others.",
  ["src/lib.rs", "src/debug.rs", "src/arch/mod.rs", "src/arch/unknown/", "src/intrin/scalar.rs", X86, INT], [("complementary cfg branches", X86+"*.rs")], ["compiler accept/reject"])
p("C20", "Accelerated and portable implementations agree",
  "For every operation on every vector type, the result lanes computed by the code selected at any two x86 feature levels, or on other targets, are the same function of the input lanes, so moving a program between CPUs does not change its results. Reciprocal and reciprocal-square-root estimates, the association order of float sums, and not-a-number handling of minimum and maximum are exempt.",
  IC, "all input values, all pairs of feature levels, and the portable code other targets compile", "The tests never compare two feature levels with each other and use few values.",
  [X86, INT], [("sibling implementations behind complementary cfg gates", X86+"*.rs"), ("portable fallbacks", "src/arch/unknown/vecs.rs, "+INT+"*.rs")], ["returned vectors across configurations"])
p("C21", "Safe iteration never reads or writes outside the given slices",
  "No sequence of safe calls on a vector iterator - advancing, finishing with the tail, mapping, reducing, collecting, filling, zipping, striding - reads or writes memory outside the slices it was given or the buffers it allocated, requires an address to be more aligned than slices of that element type are, or exposes uninitialised memory, for any slice length, alignment and position.",
  ["inputs", "histories"], "every slice length and iterator position (including partially consumed iterators) and every safe call sequence",
  "Out-of-bounds vector accesses past the end usually read adjacent memory silently, so tests pass; only particular length/width residues or call orders trigger them.",
  ["src/iters.rs", "src/zip.rs", "src/stride.rs", "src/stride_zip.rs", "src/into_iters.rs", "src/vecs.rs"],
  [("length guards before unchecked vector loads and stores", "src/iters.rs next/end/scalar_collect/scalar_fill/simd_for_each")], ["memory accesses"],
  [("position", "scalars consumed so far", "src/iters.rs SIMDIter")])
p("C22", "Vector iteration yields consecutive full blocks, then a padded tail",
  "Advancing a slice iterator yields consecutive, non-overlapping vectors of the slice's elements in order as long as a whole vector is left, and then reports exhaustion forever. Finishing an exhausted iterator then yields one further vector if any elements are left, holding those elements in order at its end, the corresponding lanes of the user's default vector before them, together with the exact number of padding lanes; it yields nothing if no elements are left. A finalized iterator yields nothing more, a clone continues where its original stands, and an iterator, stride or zip reports the default vectors it was given.",
  ["inputs", "histories"], "every slice length, element type, lane count, default vector and iterator position",
  "Tests use a handful of lengths and defaults with equal lanes, so wrong tail alignment or lane order for other residues goes unseen.",
  ["src/iters.rs", "src/into_iters.rs"], [("next / end of the slice iterator", "src/iters.rs SIMDIterator for SIMDIter")], ["yielded vectors"],
  [("position", "scalars consumed so far", "src/iters.rs SIMDIter")])
p("C23", "Mapping and collecting equals the scalar loop",
  "Collecting a vector iterator mapped with a lane-wise function returns a buffer of exactly the source length whose i-th element is the function of the i-th source element, for any length including zero and lengths that are not a multiple of the lane count. Chained maps compose in order.",
  ["inputs"], "every slice length, content, element type, default vector and lane count", "Tests use a few fixed lengths, mostly with constant data; the residue classes and orders are not covered for each type and feature level.",
  ["src/iters.rs"], [("scalar_collect and SIMDMap", "src/iters.rs IntoScalar, SIMDMap")], ["collected buffer"])
p("C24", "Reducing and visiting apply the function once per vector, in order",
  "Reducing or visiting a vector iterator calls the user's function exactly once for each full vector in order and once for the padded tail if there is one, and never for an empty remainder; the reduction threads its accumulator through those calls from the start value and returns the last one.",
  ["inputs", "histories"], "every slice length, default and accumulator", "Tests sum constant data with zero padding, which hides repeated, skipped or reordered calls and wrong padding.",
  ["src/iters.rs"], [("simd_reduce, simd_do_each", "src/iters.rs SIMDIterator")], ["sequence of calls", "returned accumulator"])
p("C25", "In-place iteration rewrites each element exactly once",
  "Running a function in place over a mutable slice replaces every element by the function's result for it, calls the function once per vector in order (the tail padded with the default), and changes nothing outside the slice, for any length.",
  ["inputs"], "every slice length, content, default and lane count", "A few lengths with constant data are tested; stale or doubly processed elements at a tail boundary need specific residues.",
  ["src/iters.rs"], [("simd_for_each", "src/iters.rs SIMDIteratorMut")], ["slice contents after the call"])
p("C26", "Filling an existing buffer writes exactly the mapped elements",
  "Filling a caller's buffer from a mapped vector iterator writes the mapped elements in order at the front, returns that buffer, and leaves any bytes beyond the source length unchanged or overwritten only within the buffer; a buffer shorter than the data is never overrun.",
  ["inputs"], "every source and target length", "Tests only fill targets of the same length as the source.", ["src/iters.rs"],
  [("scalar_fill", "src/iters.rs IntoScalar")], ["target slice", "panics"])
p("C27", "Zipped iterators advance in lockstep and reject unequal lengths",
  "Zipping two to twelve or more vector iterators over slices of equal length yields tuples whose k-th members are the k-th iterators' vectors at the same element offset, with each tail padded from its own default, and mapping, reducing and collecting the zip behave like the scalar loop over the zipped slices. Zipping sources of different lengths or lane widths is refused with a panic rather than misaligned.",
  ["inputs", "histories"], "every tuple arity, combination of lengths, element types and positions", "Tests zip two or three equal-length slices of constant data and check only the sums.",
  ["src/zip.rs"], [("impl_iter_zip!, SIMDZipMap", "src/zip.rs")], ["yielded tuples", "collected buffer", "panics"])
p("C28", "Strided iteration yields the documented sub-sequences",
  "Splitting a slice into n strided iterators yields, for the k-th, the elements at positions k, k+n, k+2n, … packed into vectors in order with the tail padded from the k-th default; together they cover each element exactly once. Zipping strided iterators, and collecting them, preserves that correspondence. A stride zip pairs the even and odd elements from where its iterator stands, stays in step when advanced, exhausted or finalized, and reports the user's default vector.",
  ["inputs", "histories"], "every slice length, stride count, starting offset and lane count", "Tests stride slices whose length is a multiple of stride times lane count and check few values.",
  ["src/stride.rs", "src/stride_zip.rs"], [("PackedStride next/end, stride_into", "src/stride.rs"), ("StrideZip", "src/stride_zip.rs")], ["yielded vectors"])
p("C29", "Scalar-view and unrolling adaptors neither lose, repeat nor reorder data",
  "Presenting a vector iterator element by element, wrapping a scalar iterator as a vector iterator, and batching vectors into unrolled groups each present every source element exactly once and in order, with the remainder handled as the tail rule says. An unrolled iterator's chunk position is the number of whole groups consumed; an unroll factor above eight is refused with a panic.",
  ["inputs", "histories"], "every length, unroll factor and position", "Few lengths are tested, with constant data.", ["src/iters.rs"],
  [("Unpacked, Unrolled, SIMDAdapter", "src/iters.rs")], ["yielded elements"])
p("C30", "Every supported container iterates like the slice it holds",
  "Making a vector iterator from an array, slice, vector or box, by shared, exclusive or owning conversion, starts at the first element, covers the container's full length and content, reports that length, and uses the caller's default vector for the tail.",
  ["inputs", "programs"], "every container kind, element type and length", "Tests construct from slices and vectors of a few lengths; most array sizes and the exclusive and owning forms are unused.",
  ["src/into_iters.rs", "src/iters.rs"], [("impl_array_intos! and trait impls", "src/into_iters.rs")], ["iterator behaviour"])
p("C31", "Iterating allocates nothing and performs no input or output",
  "Outside of collecting into a new buffer and building a list of strided iterators, no iteration or vector operation allocates heap memory, and none performs input or output unless the tracing feature is on.",
  ["programs", "configurations"], "every public iterator and vector operation", "Allocation and hidden output do not change results, so no test observes them.",
  ["src/iters.rs", "src/zip.rs", "src/stride.rs", "src/debug.rs"], [("absence of allocator and I/O calls in the call graph", "src/")], ["call graph"])
p("C32", "Borrowed data stays exclusively or immutably borrowed while iterated",
  "A program that uses safe code to modify, move or drop a container while a vector iterator over it is live, to hold two iterators over one mutably borrowed slice, or to let an iterator, or a slice it hands out, outlive the data behind it, does not compile; the same programs without the offending line do.",
  ["programs"], "every program using the safe iterator API", "Tests contain no programs that must be rejected.", ["src/into_iters.rs", "src/iters.rs"],
  [("lifetimes on iterator types", "src/into_iters.rs, src/iters.rs")], ["compiler accept/reject"])
p("C33", "Vector operations never panic on in-range arguments in any build profile",
  "No lane-wise, horizontal, conversion, merge or reduction operation panics for any lane values, with overflow checks on or off, at any feature level; only out-of-range lane indices and offsets may panic.",
  IC, "all lane values; overflow checks on and off; all feature levels", "Tests run with overflow checks but with small values only.", [INT+"macros.rs", X86, "src/vecs.rs"],
  [("choice of wrapping or intrinsic arithmetic in each implementation", X86+"*.rs")], ["panics"])
p("C34", "Iterators report consistent lengths and positions",
  "At every point of an iteration the reported number of remaining full vectors, total element count, position and lane count are consistent: the position starts at zero and grows by one lane count per yielded vector, and element and vector counts follow from the slice length and lane count and survive mapping and zipping. The standard size hint is exactly the number of remaining full vectors, and the methods every standard iterator has (nth, last, count, fold, skip, zip) agree with calling next repeatedly.",
  ["histories", "inputs"], "every slice length and number of steps taken", "Tests never read these after partial consumption.", ["src/iters.rs", "src/zip.rs", "src/stride.rs"],
  [("len/scalar_len/scalar_pos/width accessors", "src/iters.rs")], ["reported lengths and positions"])
p("C35", "Vector code is at least as fast as the scalar loop it replaces",
  "Processing a slice through vector iterators takes no longer than the equivalent scalar loop on the same CPU.",
  ["inputs", "configurations"], "all workloads and CPUs", "Performance is measured by benchmarks, not decided by tests.", ["benches/lib.rs", "README.org"], [("use of vector instructions", "src/")], ["run time"])
p("C36", "Estimates and float reductions stay within their documented error",
  "Reciprocal and reciprocal-square-root estimates, and floating-point sums and products, are within the documented relative error of the exact result.",
  ["inputs", "configurations"], "all finite inputs", "The tests check single values.", [X86+"recip.rs", X86+"rsqrt.rs", X86+"sum.rs"], [("hardware estimate instructions", X86)], ["returned values"])
p("C37", "Vector operators act lane by lane and wrap",
  "The arithmetic, bitwise and shift operators on vectors, and their assigning forms, return at every lane the operator applied to the operand lanes at that index and to no others. Integer addition, subtraction and multiplication wrap modulo the lane width whether or not overflow checks are on, and floating-point operators round as the scalar ones do. Two vectors compare equal exactly when all their lanes do, and on targets without SIMD vectors, converting between equally wide integer vectors keeps every bit, and the numeric casts convert each lane as Rust's as does.",
  IC, "every value of every lane, for every vector type, operator and x86 feature level, and for the portable vectors other targets use", LANEW,
  ["src/arch/unknown/vecs.rs", "src/arch/x86/vecs.rs", "src/vecs.rs"], [("operator, comparison, From and as_* impls of the portable vectors", "src/arch/unknown/vecs.rs"), ("choice of vector types", "src/arch/x86/vecs.rs")], ["returned vector"])
p("C38", "Turning tracing on does not change any result",
  "With the tracing feature on, every vector operation returns the same lanes and reaches no other panics than with it off, as long as standard output can be written: tracing reports which implementation ran, and nothing else.",
  IC, "every operation on every vector type for every lane value, with tracing on, at every feature level and on other targets", "No test is compiled with the tracing feature; the traced code is different code in every operation.",
  ["src/debug.rs", X86, INT], [("fallback! and optimized! in each implementation", "src/debug.rs, "+X86+"*.rs, "+INT+"*.rs")], ["returned values", "panics"])
p("C39", "Results depend on the arguments alone",
  "With tracing off, no vector operation and no sequence of iterator calls reads anything but its arguments and what it allocated itself: no global or thread-local variable that can change, no environment, clock, random source or floating-point mode. The same calls on the same values therefore give the same results whatever was called before and whatever other threads do. Iterators and their adaptors can be sent to and shared with other threads exactly when the data and callbacks they hold can.",
  ["histories", "schedules", "programs"], "every vector operation and iterator call sequence, after every history of earlier calls and under every schedule of threads", "Tests call each operation a few times from a fresh process and never share an iterator between threads.",
  ["src/iters.rs", "src/zip.rs", "src/stride.rs", X86, INT], [("absence of mutable statics and system calls in the call graph", "src/"), ("auto traits of the iterator types", "src/iters.rs, src/zip.rs, src/stride.rs")], ["returned values", "compiler accept/reject"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl"), "w") as f:
    for d in P: f.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
