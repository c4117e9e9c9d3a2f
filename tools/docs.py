#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below (run by hand; the outputs are committed)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
IRNOTE = ("Each obligation instantiates the library's public API from /repo's current headers on symbolic lane values and states the expected value "
          "of every result lane; the type-checked program is lowered to LLVM IR and normalised by dataflow passes (SROA, GVN, SCCP, instcombine). "
          "Proved only if the normal form is the constant true, i.e. for all values of the inputs; nothing is executed. ")
TRUST = "Trusted: clang 18 front end and LLVM passes, the obligations' reference formulas, two's complement wrap-around and no FP contraction. Obligations that do not normalise are listed as undecided and never alarm."
IRT = "value-equivalence dataflow analysis over compiler IR (GVN/SCCP normal form of per-API obligations)"
P = []
def prop(id, title, statement, over, text, why, files, mech, technique=IRT, note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique,
                  note=note if note else IRNOTE + TRUST, na=na))

prop("C01", "Element-wise operators of simd act on every lane like the scalar operator",
  "For every element type and width, each unary, binary, compound, shift, increment and comparison operator of simd yields in lane i exactly what the corresponding scalar operator yields for lane i of the operands, converted to the element type. Operands that are not assigned to keep their value, and every lane depends only on the same lane of the operands. Operators that the element type does not support are not available.",
  ["inputs", "configurations"], "every element value (edge values, NaN, signed zero, wrap-around), every vectorizable type, every width, both backends' user-visible API",
  "The tests check a handful of values for some types and widths; a wrong lane, a missing promotion/truncation or an aliasing bug for one type/operator/width is not sampled.",
  ["vir/simd.h"], [("operators of simd<T, scalar> and simd<T, fixed_size<N>>", "vir/simd.h class simd")])
prop("C02", "Mask operators act per lane; mask reductions agree with the set of true lanes",
  "Logical, bitwise and comparison operators of masks act per lane; broadcast, load, store and subscript move exactly the addressed lanes. all_of, any_of, none_of, some_of, popcount, find_first_set and find_last_set equal the count or position of the true lanes for every mask. Converting a mask to the mask of another element type keeps every lane.",
  ["inputs", "configurations"], "every mask value of every width, for every element type and both one-lane spellings (bool, scalar)",
  "2^N mask values per width; tests sample few, and only a few element types.",
  ["vir/simd.h"], [("simd_mask", "vir/simd.h class simd_mask"), ("reductions", "vir/simd.h all_of ... find_last_set")],
  technique=IRT + "; exhaustive case split over masks in the obligation")
prop("C03", "where-expressions modify exactly the selected lanes and access only their memory",
  "A masked assignment, compound assignment, increment or masked load changes exactly the lanes whose mask element is true, to the value the unmasked operation gives; all other lanes keep their value. Masked-off lanes are not evaluated, and masked loads and stores neither read nor write the memory of masked-off elements.",
  ["inputs", "configurations"], "every mask, every operand value, every element type and width, including aliasing between operand and target",
  "Tests check selected masks with in-bounds memory; they cannot see an access to a masked-off element or a lane that is wrong only for one mask.",
  ["vir/simd.h"], [("where_expression", "vir/simd.h const_where_expression, where_expression")])
prop("C04", "Loads, stores, generators and broadcasts move every element to its own lane",
  "Loading from memory, constructing from a generator, broadcasting, converting, subscripting and storing put element i into lane i and back, converted like a scalar conversion, and write nothing else. Implicit conversions between simd types and from scalars exist exactly when they are value-preserving (or from int/unsigned as documented).",
  ["inputs", "configurations"], "every pair of element types, every width, every alignment flag, every element value",
  "The type pairs x widths x flags space is far larger than the tests' instantiations; conversions are tested for small values only.",
  ["vir/simd.h"], [("constructors, copy_from, copy_to", "vir/simd.h class simd")])
prop("C05", "Casts convert lane by lane to the documented type",
  "Every cast yields lane i converted like a scalar static_cast of lane i, in the documented result type. The value-preserving cast is available exactly for value-preserving conversions, and no cast changes the number of elements.",
  ["inputs", "configurations"], "every pair of element types, every width, every value", "Only a few casts are instantiated by the tests.",
  ["vir/simd.h", "vir/simd_cast.h"], [("static_simd_cast, simd_cast, to_*", "vir/simd.h")])
prop("C06", "split and concat partition and join lanes in order",
  "split yields parts whose lanes, read in order, are exactly the lanes of the argument; concat yields the lanes of all arguments in order; they are mutually inverse. This holds for simd and mask arguments and for all combinations of part sizes.",
  ["inputs", "configurations"], "every partition of every width into parts, every element type, every value", "Tests use a few even partitions.",
  ["vir/simd.h"], [("split, concat", "vir/simd.h")])
prop("C07", "Reductions use every selected lane exactly once; min/max/clamp act per lane",
  "reduce, hmin and hmax combine every lane (with a mask: every selected lane) exactly once, and give the documented identity when no lane is selected. min, max, minmax and clamp act on every lane independently.",
  ["inputs", "configurations"], "every mask and lane value, every width, every operation incl. user-defined ones", "A lane used twice or dropped for one width, mask or extremum position is invisible to sampled values.",
  ["vir/simd.h"], [("reduce, hmin, hmax, min, max, minmax, clamp", "vir/simd.h")])
prop("C08", "Math functions apply the corresponding scalar function to every lane",
  "Every math function of the portable implementation applies the C++ standard library function of the same name to each lane, with all lanes' arguments and results in the same position, including out-parameters and functions with several arguments or mixed simd/scalar arguments.",
  ["inputs", "configurations"], "every math function, floating-point type and width, every lane value", "The functions are generated by macro and most are never instantiated by the tests.",
  ["vir/simd.h"], [("math overloads", "vir/simd.h VIR_*_MATH macros")])
prop("C09", "Violated preconditions act exactly as the selected checking level documents",
  "For each documented checking level, an operation whose precondition is violated does exactly what the documentation says (nothing, trap, abort, or print and abort/trap), and an operation whose precondition holds behaves normally. Violations visible at compile time are diagnosed at the levels that promise it; the default level is the documented one, and every level compiles with all compilers.",
  ["inputs", "configurations"], "every checking level, every operation with a precondition, every argument value that violates or satisfies it, both backends, both compilers",
  "A violated precondition ends the process, so the tests never reach it; they are compiled at one level only.",
  ["vir/simd.h", "vir/detail.h", "vir/simd_execution.h"], [("precondition macros", "vir/simd.h:90-160"), ("assume_matching_size checks", "vir/simd_execution.h")],
  technique="control-flow and call-graph rule on compiler IR per checking level; compile-time diagnostic witnesses with g++ and clang",
  note="For every site and level the IR of violating and satisfying wrappers is inspected: presence/absence of trap, abort, print on the paths and of the normal return. Diagnostics are compile-fail witnesses. Trusted: compiler front ends, call-graph extraction.")
prop("C10", "Permutations and shift-in move exactly the requested lanes",
  "A permutation result's lane i is the source lane the index function names (negative indexes count from the end, the documented special values give zero or leave it unspecified). The predefined permutations and the shift-in function implement exactly their documented index mapping (for shift-in, positions below zero count from the end of the first argument and positions outside of all arguments give zero), for every width, element type, offset and target architecture, also for masks where supported.",
  ["inputs", "configurations"], "every width, every element size, every offset (also negative and larger than the size), every target instruction set, every value",
  "Special-cased instruction sequences exist per width/ISA; the tests build for few targets and sample few offsets.",
  ["vir/simd_permute.h"], [("simd_permute and special cases per permutation", "vir/simd_permute.h"), ("simd_shift_in", "vir/simd_permute.h")])
prop("C11", "Resizing keeps leading lanes and appends value-initialised ones",
  "Resizing a simd or mask to any other number of elements (by number or by target type) keeps lane i for every i that exists in both and gives zero/false in all other lanes; the result type is the documented one.",
  ["inputs", "configurations"], "every source and target width, element type, value and target instruction set", "Width pairs are sampled sparsely by the tests, and intrinsic paths depend on the target.",
  ["vir/simd_resize.h"], [("simd_resize, simd_size_cast", "vir/simd_resize.h")])
prop("C12", "Bit-level views: bitset, bit cast and floating-point bitwise operators are exact",
  "Conversion between masks and bitsets maps lane i to bit i in both directions and round-trips. A simd bit cast reproduces exactly the bytes of all lanes; bitwise operators on floating-point simd combine exactly the bits of each lane.",
  ["inputs", "configurations"], "every bit pattern, width and element type pair, both backends", "2^N patterns; NaN payloads and sign bits are not sampled.",
  ["vir/simd_bitset.h", "vir/simd_bit.h", "vir/simd_float_ops.h"], [("to_bitset, to_simd_mask", "vir/simd_bitset.h"), ("simd_bit_cast", "vir/simd_bit.h"), ("float operators", "vir/simd_float_ops.h")])
prop("C13", "iota constants count from zero and cvt converts like an explicit cast",
  "The iota constant of a simd, array or arithmetic type has value i in element i. The conversion helper yields, in whatever type the context requires, exactly the explicit conversion of its argument, and cannot outlive its argument by copying.",
  ["inputs", "configurations"], "every type pair, width and value", "Few types and widths are instantiated.",
  ["vir/simd_iota.h", "vir/simd_cvt.h"], [("iota_v", "vir/simd_iota.h"), ("cvt", "vir/simd_cvt.h")])
prop("C14", "for_each visits every element of the range exactly once, whatever the policy",
  "For every range length, start alignment and combination of policy modifiers, for_each passes every element of the range to the callable exactly once, as part of a chunk, and a callable that takes its argument by reference modifies exactly those elements. Nothing outside of the range is modified or visited.",
  ["inputs", "configurations"], "every length (0, shorter than a chunk, multiples, remainders), alignment offset, chunk size, unrolling, matching-size/alignment modifier, element type, size-optimised builds",
  "Prologue, unrolled body and epilogue interact by length modulo chunk and address modulo vector size; tests use a few lengths with one alignment.",
  ["vir/simd_execution.h"], [("for_each with prologue/epilogue", "vir/simd_execution.h for_each, detail::prologue, simd_for_each_epilogue")],
  note=IRNOTE + "Lengths and offsets are enumerated (0 to ~2.5 chunks), element values are universally quantified and the callable is an uninterpreted function. Unbounded lengths are not covered. " + TRUST)
prop("C15", "transform writes op of the corresponding inputs to every output element",
  "For every length, alignment and policy, transform stores op(x[i]) (op(x[i], y[i]), or op of all zipped elements) to output element i, modifies nothing else and returns the end of the output. In-place use and differing input/output element types work alike.",
  ["inputs", "configurations"], "every length, alignment offset of the output, policy, number of inputs, element type pair", "As for_each; the tests sample few lengths and alignments.",
  ["vir/simd_execution.h"], [("transform", "vir/simd_execution.h simd_transform*, prologue, epilogue")],
  note=IRNOTE + "Lengths and offsets enumerated, values and the operation universally quantified. " + TRUST)
prop("C16", "reduce, transform_reduce and count_if use init and every element exactly once",
  "For every length, alignment and policy, the reduction equals the combination of init and (transformed) elements, each used exactly once, for one or two input ranges; counting returns the number of elements satisfying the predicate. Empty ranges return init or zero.",
  ["inputs", "configurations"], "every length, alignment offset, policy, element type", "As for_each; additionally the number of accumulators and the reduction tree depend on length.",
  ["vir/simd_execution.h"], [("transform_reduce, reduce, count_if", "vir/simd_execution.h")],
  note=IRNOTE + "Lengths and offsets enumerated; integer values universally quantified, floating-point sums on exactly representable values. " + TRUST)
prop("C17", "Execution policy modifiers compose, exclude each other, select the chunk size",
  "Policy modifiers can be combined in any order with the same result; each can be applied at most once and mutually exclusive ones cannot be combined. The preferred size and unrolling select exactly the chunk sizes passed to callables, never a wider chunk, and algorithms accept exactly simd policies with contiguous ranges.",
  ["programs", "configurations"], "every sequence of modifiers and every range type", "The tests use a few fixed policies; rejected programs cannot be tested at run time.",
  ["vir/simd_execution.h"], [("simd_policy", "vir/simd_execution.h execution::simd_policy")],
  technique="type-level encoding: concept/requires witnesses over all modifier sequences; IR dataflow for chunk counts")
prop("C18", "simdize maps types as documented; AoS <-> SoA conversion is lossless",
  "Simdizing an arithmetic type, tuple-like or aggregate yields the documented type with a common number of lanes. Loading puts member j of element i into lane i of simd j, storing is the exact inverse and writes nothing else, for every member count, type mix, memory order of members and width; per-element access agrees with it.",
  ["inputs", "configurations", "programs"], "every aggregate shape (member count, types, nesting, order), every width and target ISA, every value", "Interleaved load/store special cases exist per member count/size/width/ISA; the tests cover few shapes on one ISA.",
  ["vir/simdize.h", "vir/simd_permute.h"], [("simdize, simd_tuple load/store", "vir/simdize.h")])
prop("C19", "Struct reflection enumerates exactly the data members of an aggregate, in order",
  "The reported number, types, references and values of an aggregate's members are exactly its direct non-static data members in declaration order, for const and non-const objects; conversions to tuple and pair copy or refer to every member. Types that are not decomposable are reported as such.",
  ["programs"], "every aggregate with any number and mix of member types supported", "Each member count has its own code; the tests use few counts.",
  ["vir/struct_reflect.h"], [("struct_get and per-size code", "vir/struct_reflect.h")])
prop("C20", "constexpr_wrapper arithmetic and literals denote exactly the wrapped value",
  "Every operator, call, subscript and member access on compile-time-constant wrappers yields a wrapper of exactly the value (and type) the same operation gives on the wrapped values, and falls back to the plain value with run-time operands. An integer literal with the suffix denotes its value in every base with digit separators in the smallest sufficient type, and out-of-range or non-integer literals are rejected.",
  ["programs", "inputs"], "every literal spelling, every operator, every wrapped type", "Literal spellings are unbounded; only a few are tested, and rejection cannot be tested at run time.",
  ["vir/constexpr_wrapper.h"], [("operators, literal parser", "vir/constexpr_wrapper.h")],
  technique="type-level obligations over operators and generated literals; compile-fail witnesses")
prop("C21", "Type traits, ABI tags, concepts and version comparison describe types exactly",
  "Each trait, concept and ABI tag answers for every type exactly what its documentation defines (simd or not, number of elements, alignment, rebinding, validity of unsupported specialisations, comparable version numbers).",
  ["programs", "configurations"], "every vectorizable and non-vectorizable type, every width up to the limit, both backends", "Traits for rarely used types/widths are not instantiated by tests.",
  ["vir/simd.h", "vir/simd_concepts.h", "vir/simd_version.h"], [("traits", "vir/simd.h"), ("concepts", "vir/simd_concepts.h")],
  technique="type-level obligations (traits/concepts evaluated over the type grid in the type-checked program)")
prop("C22", "Constant-evaluated calls give the same results as run-time calls",
  "Every operation usable in constant expressions gives there the value its run-time specification demands: operators, masks, loads and stores, reductions, permutations, resizing, bit casts, iota constants, simdized loads/stores and the algorithms. In particular the separate constant-evaluation branches process every element exactly once and stay within the range.",
  ["programs", "configurations"], "every constant-evaluable operation, length, policy and width; both backends; both compilers", "Separate constant-evaluation branches are only exercised by very few static assertions in the tests.",
  ["vir/simd_execution.h", "vir/simdize.h", "vir/simd_permute.h", "vir/simd.h"], [("is_constant_evaluated branches", "vir/simd_execution.h, vir/simdize.h, vir/simd_permute.h")],
  technique="compile-time obligations: static assertions decided by the type checker of two compilers over the current headers",
  note="Each obligation is a static assertion on API use in a constant expression (the compiler additionally rejects undefined behaviour such as out-of-range pointers). A violation is a false assertion on any compiler, or rejection as non-constant by all compilers. Values are fixed patterns; types/lengths/policies are enumerated.")
prop("C23", "Every header works alone, in any order and in every supported configuration",
  "Every public header compiles on its own, in any inclusion order and in several translation units of a program, with both compilers, every supported language standard, instruction set and backend selection, and announces its features by the documented macros exactly when they are usable. Both backends offer the same documented interface.",
  ["configurations", "programs"], "every header x language standard x backend x instruction set x compiler x inclusion order", "The test suite compiles a fixed inclusion order in one configuration.",
  ["vir/*.h"], [("feature macros and include structure", "vir/*.h")],
  technique="compile obligations (header self-sufficiency, feature-macro agreement, API presence witnesses) over the configuration matrix",
  note="Each obligation is one header/use in one configuration; violated if a supported configuration rejects it. Trusted: front ends of g++-13 and clang-18; the list of supported configurations is the one that holds on the documented requirements.")
prop("C24", "Benchmark helpers hide values from the optimiser without changing them",
  "After the modify helper the optimiser can assume nothing about any part of any argument's value; the read helper forces every part of every argument's value to be computed. Neither emits an instruction that changes a value nor touches anything else.",
  ["programs", "configurations"], "every argument type (scalar, simd, mask of any width), any number of arguments, both backends", "Optimiser behaviour is not observable from a test's result.",
  ["vir/simd_benchmarking.h"], [("fake_modify, fake_read", "vir/simd_benchmarking.h")],
  technique="def-use (dataflow) rule over inline-asm operands in optimised compiler IR",
  note="IR of clang is inspected: every byte of the argument flows into / out of a side-effecting empty inline asm. Trusted: clang front end. ")
prop("C25", "Memory accesses stay inside the elements and within the promised alignment",
  "Loads, stores, masked accesses, simdized loads/stores and the algorithms access exactly the bytes of the elements they are specified to process, for every pointer, and never assume a stricter alignment than the given flag, element type or policy guarantees. Stores never write bytes of other elements, not even with their old value.",
  ["inputs", "configurations"], "every pointer value, alignment flag, element type, width, mask, length", "Over-reads, read-modify-write of neighbours and over-aligned accesses give correct values in tests whose buffers are larger and aligned.",
  ["vir/simd.h", "vir/simdize.h", "vir/simd_execution.h"], [("copy_from/copy_to", "vir/simd.h"), ("interleaved load/store", "vir/simdize.h"), ("prologue/epilogue", "vir/simd_execution.h")],
  technique="effect analysis on compiler IR: byte footprint and alignment of every memory access through a symbolic pointer",
  note="For each access API the IR is reduced to accesses at constant offsets of an opaque pointer argument; the byte set read/written and each access's alignment are compared with the specification. Lengths, widths, masks enumerated; the pointer is universally quantified. Trusted: clang front end, LLVM SROA/GVN.")
prop("C26", "No hidden effects: no allocation, no global state, user exceptions propagate",
  "No operation of the library allocates memory, throws, prints or reads or writes mutable global state while its preconditions hold, so all operations are reentrant and thread-compatible. An exception thrown by a callable passed to an algorithm propagates to the caller.",
  ["schedules", "programs", "fault_sequences"], "every operation and every call site in the library; every point at which a callable may throw", "Tests are single-threaded and their callables never throw.",
  ["vir/simd.h", "vir/simd_execution.h", "vir/simdize.h", "vir/simd_permute.h"], [("noexcept specifications, static data", "vir/*.h")],
  technique="effect analysis over the compiler IR call graph (globals, calls, landing pads)",
  note="All library functions instantiated by the obligations are inspected in unoptimised IR: only whitelisted external calls, no mutable globals, no throw/allocation, no terminate on the unwinding path of callables.")
prop("C27", "Math functions are accurate to the standard library's error bounds",
  "Numerical error (ULP) of math functions on simd stays within that of the scalar functions of the platform.", ["inputs"], "every floating-point argument",
  "2^32..2^64 arguments per function.", ["vir/simd.h"], [("math overloads", "vir/simd.h")],
  na="Accuracy is a numerical property of libm's run-time results; no static argument here bounds it. What can be decided statically (each lane calls the scalar function of the same name) is C08.")
prop("C28", "Simd code is not slower than the scalar formulation",
  "Operations compile to vector instructions and the algorithms run no slower than their sequential counterpart.", ["configurations"], "every target and operation", "Tests do not measure time.",
  ["vir/simd_execution.h", "vir/simd_permute.h"], [("intrinsic special cases", "vir/simd_permute.h")],
  na="Execution time is a run-time quantity that source or IR inspection cannot decide without a machine model and without alarming on legitimate refactorings.")
prop("C29", "Algorithm guarantees hold for ranges of unbounded length",
  "The guarantees of the algorithms hold for ranges of unbounded length, up to the address-space limit.", ["inputs"], "every length up to PTRDIFF_MAX", "Unbounded.",
  ["vir/simd_execution.h"], [("main loops", "vir/simd_execution.h")],
  na="Needs an inductive loop invariant relating pointers, chunk counters and accumulators for symbolic lengths; dataflow normalisation cannot discharge it. C14-C16 and C25 decide it for all enumerated lengths (0 to about 2.5 unrolled chunks, every alignment), which exercise every branch combination of the prologue/body/epilogue.")

props, checks, na = [], [], []
for p in P:
    assert len(p["title"]) <= 80, p["id"]
    have = os.path.exists(os.path.join(HERE, "checks", p["id"].lower() + ".py"))
    if not have and not p["na"]:
        continue
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]},
                  "why_tests_cant": p["why"], "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}})
    if p["na"]:
        na.append({"property": p["id"], "reason": p["na"]})
    else:
        checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s quick" % p["id"], "thorough_cmd": "python3 run.py %s thorough" % p["id"],
                       "technique": "static analysis: " + p["technique"], "level": "other", "level_note": p["note"]})
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 --version && clang++-18 --version && g++-13 --version", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo; /repo carries only fix: commits (see known-findings.txt)."}, f, indent=1)
    f.write("\n")
