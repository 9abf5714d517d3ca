#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that the text stays readable)."""
import json, os
B = "experimental/bits/"
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=text), why_tests_cant=why,
             anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                          observe_at=observe, hook_needed=None))
    if state: d["anchors"]["state"] = [dict(name=n, meaning=m, where=w) for n, m, w in state]
    P.append(d)

CFG = ("all element types, all ABI tags (scalar, the native/compatible/partially filled "
       "register ABIs, AVX-512 bitmask ABIs, fixed_size<1..max>), and all x86 feature sets from "
       "SSE2 to AVX-512")
EX = ("The stable tests execute almost no simd code (they check ABI disassembly, default-constructor "
      "code generation and linking); ")

p("A01", "Element-wise arithmetic equals the scalar operators",
  "For every simd type and every pair of operand vectors, +, -, *, /, %, unary + and -, ++, -- and the compound "
  "forms (also with a scalar operand on either side) yield in every element exactly the value the built-in "
  "operator yields for that element pair, including unsigned wrap-around, wrap-around of 8/16-bit types, "
  "signed zeros, infinities and NaNs. No element's result depends on any other element.",
  ["inputs", "configurations"],
  "Every operand value for which the scalar operation is defined, in every lane, over " + CFG + ".",
  EX + "no arithmetic result is ever compared, and 8/16-bit multiply, division and % take different code paths per ISA.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h", B+"simd_scalar.h"],
  [("arithmetic of register ABIs", B+"simd_builtin.h _SimdImplBuiltin::_S_plus.._S_modulus, _S_increment"),
   ("x86 multiply/divide via conversion and integer division via float/double", B+"simd_x86.h _SimdImplX86::_S_multiplies/_S_divides/_S_modulus"),
   ("chunked application on tuples", B+"simd_fixed_size.h _SimdTuple::_M_apply_per_chunk, _SimdImplFixedSize")],
  ["values returned by the operators"])

p("A02", "Bitwise operators and shifts equal the scalar operators",
  "For every simd of integral type, &, |, ^, ~, << and >> (by a vector, by a run-time scalar, by a literal; and the "
  "compound forms) yield in every element the value of the scalar expression converted back to the element type, "
  "for every shift count that is defined for that scalar expression. Right shift of signed types is arithmetic; "
  "the optional bitwise operators for floating-point simds act on the object representation.",
  ["inputs", "configurations"],
  "Every value and every defined shift count (for sub-int types counts up to the width of int), independently per lane, over " + CFG + ".",
  EX + "shifts of 8/16-bit elements are emulated differently on SSE2, SSE4.1, AVX2, XOP and AVX-512BW and with literal counts.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h"],
  [("emulated shifts", B+"simd_x86.h _SimdImplX86::_S_bit_shift_left/_S_bit_shift_right"),
   ("generic bit operations", B+"simd_builtin.h _S_bit_and/_S_bit_or/_S_bit_xor/_S_complement"),
   ("float bitwise operators", B+"simd.h __float_bitwise_operators")],
  ["values returned by the operators"])

p("A03", "Comparisons produce exactly the element-wise truth values",
  "For every simd type, ==, !=, <, <=, >, >= (and the floating-point isgreater, isgreaterequal, isless, islessequal, "
  "islessgreater, isunordered functions) give a mask whose element i is true iff the scalar comparison of the two i-th "
  "elements is true; NaN compares unordered, -0 equals +0, unsigned types compare as unsigned.",
  ["inputs", "configurations"],
  "Every pair of element values over " + CFG + ".",
  EX + "comparisons are emulated per ISA (unsigned via sign flips, 64-bit integers on SSE2) and never executed by the tests.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h", B+"simd_scalar.h"],
  [("comparison implementations", B+"simd_x86.h _S_equal_to/_S_less/_S_less_equal"),
   ("generic comparisons", B+"simd_builtin.h _S_equal_to/_S_less/...")],
  ["mask elements, bitset of the mask"])

p("M01", "Masks behave as fixed-length arrays of bool",
  "A mask built by broadcast, element assignment, load from or store to bool memory, where-assignment, or any of "
  "!, &, |, ^, &&, ||, the compound forms, == and != holds exactly the booleans the same element-wise operation on a bool "
  "array gives, through every way of reading it back (operator[], copy_to, reductions).",
  ["inputs", "configurations", "histories"],
  "Every mask value (all 2^N for small N, random for large N) and every sequence of mask operations over " + CFG + ".",
  EX + "mask representations (vector masks, bitmasks with and without padding bits, std::bitset, bool) differ per ABI.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h", B+"simd_scalar.h"],
  [("mask logic", B+"simd_builtin.h _MaskImplBuiltin; "+B+"simd_x86.h _MaskImplX86; "+B+"simd_fixed_size.h _MaskImplFixedSize"),
   ("bit-mask value type", B+"simd.h _BitMask, _SanitizedBitMask")],
  ["mask elements through operator[] and copy_to"])

p("M02", "Mask reductions count exactly the N elements of the mask",
  "all_of, any_of, none_of, some_of, popcount, find_first_set and find_last_set on a simd_mask (and on bool) return the value defined by "
  "its N booleans, no matter how the mask was produced or what the unused (padding) bits of its register contain; "
  "find_first_set and find_last_set return the smallest and largest index of a true element whenever one exists.",
  ["inputs", "configurations", "histories"],
  "Every mask value, every producing operation (comparison, negation, logic, load, conversion, broadcast) over " + CFG + ".",
  EX + "each reduction has separate movemask/ptest/kortest paths per width, N and ISA.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h", B+"simd_scalar.h"],
  [("reductions", B+"simd_x86.h _MaskImplX86::_S_all_of.._S_find_last_set"),
   ("generic reductions", B+"simd_builtin.h _MaskImplBuiltin::_S_all_of..")],
  ["return values"])

p("M03", "Mask conversions preserve every element",
  "Converting a mask to another mask type with the same element count (implicitly, explicitly, static_simd_cast, simd_cast), to a wider or "
  "narrower mask (resizing cast), to fixed_size, native or compatible masks (to_*), to and from std::bitset, and iterating over the set elements of a mask keeps element i of the "
  "source as element i of the result; elements beyond the source are false.",
  ["inputs", "configurations"],
  "Every mask value and every convertible pair of mask types over " + CFG + ".",
  EX + "conversions between vector masks, bitmasks, bitsets and bools are specialised per size and ISA.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_converter.h", B+"simd_fixed_size.h"],
  [("mask conversion", B+"simd_builtin.h _MaskImplBuiltinMixin::_S_to_maskvector/_S_to_bits, _S_convert; "+B+"simd_x86.h _MaskImplX86Mixin"),
   ("mask iteration", B+"simd.h __proposed::where_range")],
  ["mask elements before and after"])

p("W01", "where() changes exactly the selected elements",
  "For every value, mask and operand, where(k, v) = x, the compound assignments, ++ and -- change element i to the value "
  "the unmasked operation gives iff k[i] is true and leave every other element bit-identical; -where(k,v) "
  "returns the negation at selected elements and the original value at the others; nothing observable (trap, wrong value) comes from operands at elements that "
  "are not selected. The same holds for assignment to masks, for negation of a const simd, and for the bool overloads.",
  ["inputs", "configurations"],
  "Every value vector, operand and mask, including all-false and all-true, over " + CFG + ".",
  EX + "masked assignment uses blends, masked instructions, and constant-folded shortcuts which no test executes.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h", B+"simd_scalar.h"],
  [("masked assignment", B+"simd_builtin.h _S_masked_assign/_S_masked_cassign/_S_masked_unary"),
   ("where_expression interface", B+"simd.h where_expression/const_where_expression"),
   ("AVX-512 masked forms", B+"simd_x86.h _S_masked_cassign/_S_masked_unary, _CommonImplX86::_S_blend")],
  ["the simd object after the operation", "return values"])

p("W02", "Masked loads and stores touch only the selected elements",
  "where(k, v).copy_from(p, f) sets element i to the converted p[i] iff k[i] and keeps the others; where(k, v).copy_to(p, f) writes the "
  "converted v[i] to p[i] iff k[i] and leaves every other byte of memory unchanged; both also for masks. Neither reads (load) nor writes "
  "(store) memory of an unselected element, so they do not fault when such memory is inaccessible.",
  ["inputs", "configurations"],
  "Every mask, value vector, memory element type, alignment flag, and placement of unmapped or read-only memory over " + CFG + ".",
  EX + "the masked memory paths (maskmov, AVX-512 masked load/store, scalar loops, converting paths) are never run.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h", B+"simd_scalar.h"],
  [("masked load/store", B+"simd_builtin.h _S_masked_load/_S_masked_store; "+B+"simd_x86.h _S_masked_load/_S_masked_store_nocvt"),
   ("mask load/store", B+"simd_builtin.h _MaskImplBuiltin::_S_masked_load/_S_masked_store")],
  ["memory before and after", "signals on guard pages", "the simd object"])

p("L01", "Loads and stores convert every element like static_cast",
  "copy_from(p, f), the load constructor and copy_to(p, f) transfer exactly N elements in order, converting each between the memory "
  "type and the element type as static_cast does, for every arithmetic memory type and every alignment flag whose alignment requirement the pointer fulfils.",
  ["inputs", "configurations"],
  "Every element value whose conversion is defined, every (element type, memory type) pair, every alignment flag, over " + CFG + ".",
  EX + "conversions are built from multi-step vector conversions whose paths depend on sizes and ISA.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86_conversions.h", B+"simd_fixed_size.h", B+"simd_scalar.h"],
  [("load/store", B+"simd_builtin.h _SimdImplBuiltin::_S_load/_S_store"),
   ("vector conversion", B+"simd_x86_conversions.h __convert_x86; "+B+"simd.h __convert_all")],
  ["loaded elements, stored memory"])

p("L02", "Loads and stores stay within the N addressed elements",
  "An unmasked load reads and an unmasked store reads or writes no byte outside the N elements at the given address, "
  "for every element count including those that do not fill a register: the memory before and after is unchanged, and no fault occurs when it is inaccessible. "
  "The same holds for mask loads and stores of N bools.",
  ["inputs", "configurations"],
  "Every simd and mask type, memory type, alignment flag and position relative to a page boundary over " + CFG + ".",
  EX + "over-reads and over-writes by one register are invisible to value tests.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h"],
  [("partial load/store", B+"simd_builtin.h _CommonImplBuiltin::_S_load/_S_store, _S_store_bool_array"),
   ("x86 partial store", B+"simd_x86.h _CommonImplX86::_S_store, _S_store_bool_array")],
  ["guard pages", "sentinel bytes around the buffer", "AddressSanitizer reports"])

p("V01", "Construction and element access address the right element",
  "The broadcast, generator, load and conversion constructors, copy construction and assignment, operator[] read and write through the reference type (including compound assignment, "
  "++/--, swap in every form) read and write exactly element i with the value the scalar operation gives, and leave all other elements unchanged; "
  "the generator is called exactly once per index.",
  ["inputs", "configurations", "histories"],
  "Every index, value and sequence of element operations over " + CFG + ".",
  EX + "no element is ever read back.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_fixed_size.h", B+"simd_scalar.h"],
  [("element reference", B+"simd.h _SmartReference"),
   ("generator", B+"simd_builtin.h _S_generator; "+B+"simd_fixed_size.h __generate_from_n_evaluations"),
   ("element access in tuples", B+"simd_fixed_size.h _SimdTuple::operator[], _M_set")],
  ["elements through operator[], copy_to"])

p("R01", "Reductions combine all selected elements exactly once",
  "reduce(v, op) equals op applied over all N elements in some order, and reduce over where(k, v) combines exactly the selected elements with the "
  "identity element returned when none is selected, for plus, multiplies, bit_and, bit_or, bit_xor and user-provided operations; hmin and hmax (also masked) return the "
  "smallest and largest (selected) element.",
  ["inputs", "configurations"],
  "Every value vector and mask for which the operation is associative and commutative, over " + CFG + ".",
  EX + "reduction trees are permute sequences specialised per width, partial fill and fixed_size composition.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h", B+"simd_scalar.h"],
  [("reduction trees", B+"simd_builtin.h _S_reduce; "+B+"simd_x86.h _S_reduce; "+B+"simd_fixed_size.h _S_reduce"),
   ("masked reductions", B+"simd.h reduce/hmin/hmax(const_where_expression)")],
  ["returned scalar"])

p("R02", "min, max, minmax and clamp are element-wise",
  "min, max, minmax and clamp on simds return in every element the value std::min, std::max, std::minmax, std::clamp return for the corresponding elements (NaN excluded).",
  ["inputs", "configurations"],
  "Every tuple of element values over " + CFG + ".",
  EX + "these use blends or min/max instructions depending on type and ISA.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h", B+"simd_scalar.h"],
  [("algorithms", B+"simd.h min/max/minmax/clamp"), ("implementation", B+"simd_builtin.h _S_min/_S_max/_S_minmax")],
  ["returned simds"])

p("K01", "Value conversions equal static_cast per element",
  "static_simd_cast, simd_cast, to_fixed_size, to_native, to_compatible and the converting constructors yield in element i the value static_cast gives for element i of the source, "
  "for every pair of element types and every pair of ABI tags of equal element count.",
  ["inputs", "configurations"],
  "Every value representable in the target type, every (from, to) type pair, over " + CFG + ".",
  EX + "conversions between all type pairs are hand-written per ISA over up to 2000 lines and never executed.",
  ["experimental/bits/simd.h", B+"simd_converter.h", B+"simd_x86_conversions.h", B+"simd_fixed_size.h"],
  [("converters", B+"simd_converter.h _SimdConverter"), ("x86 conversions", B+"simd_x86_conversions.h __convert_x86"),
   ("casts", B+"simd.h static_simd_cast/simd_cast/to_*")],
  ["elements before and after"])

p("K02", "split, concat and resizing casts neither lose nor reorder elements",
  "split<...> and split<V> of simds (split<V> also of masks), concat of simds and of arrays of simds, and resizing casts of simds distribute or join elements in order without loss, duplication or modification, so that "
  "concat(split(x)) equals x; elements beyond the source of a resizing cast are zero.",
  ["inputs", "configurations"],
  "Every value vector and every partition of the element count over " + CFG + ".",
  EX + "split and concat are built from per-ISA extract/insert code with many special cases and never executed.",
  ["experimental/bits/simd.h", B+"simd_fixed_size.h"],
  [("split/concat", B+"simd.h split, concat, __extract_part, __split_wrapper"),
   ("tuple assembly", B+"simd_fixed_size.h __simd_tuple_concat, _M_forward, __extract_part")],
  ["elements before and after"])

p("F01", "Exactly specified math functions are exact in every element",
  "abs, fabs, ceil, floor, trunc, round, rint, nearbyint, lrint/llrint/lround/llround, sqrt, fma, fmod, remainder, remquo, copysign, fmin, fmax, fdim, "
  "frexp, ldexp, scalbn, scalbln, modf, logb, ilogb, nextafter, fpclassify, isfinite, isinf, isnan, isnormal, signbit and the quiet comparisons isgreater..isunordered on simds give in every element the value the std:: function "
  "gives for that element, bit for bit (any NaN for NaN; either zero from fmin, fmax, remainder), including zeros, subnormals, infinities and NaN.",
  ["inputs", "configurations"],
  "Every element value (every 32-bit float pattern class, in every lane) over " + CFG + ".",
  EX + "these functions are re-implemented with bit tricks per ABI; the math tests need a test framework that is missing.",
  [B+"simd_math.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h", B+"simd_scalar.h"],
  [("math front end", B+"simd_math.h"), ("implementations", B+"simd_builtin.h _S_abs.._S_signbit; "+B+"simd_x86.h _S_sqrt, _S_floor, _S_isnan..")],
  ["returned simds, output arguments"])

p("F02", "Transcendental and special functions match std:: per element",
  "Every other <cmath> overload for simd (trigonometric, hyperbolic, exponential, logarithmic, power, hypot with two and three arguments, error and gamma functions, the special functions) returns "
  "in every element the result of the same std:: function for the same arguments within a few ULP, with the same special-value results "
  "(NaN, infinities, zeros), also when some arguments are scalars that convert to the simd type. (For sin and cos of arguments above 100 the error is a few epsilon relative to 1, not to the result.)",
  ["inputs", "configurations"],
  "Every argument value and every mixture of simd and scalar arguments over " + CFG + ".",
  EX + "sin, cos and hypot are own implementations, the rest is dispatched per element and per fixed_size chunk; none is executed.",
  [B+"simd_math.h", B+"simd_builtin.h", B+"simd_fixed_size.h"],
  [("own sin/cos with quadrant folding", B+"simd_math.h __fold_input, cos, sin, _S_cosSeries/_S_sinSeries"),
   ("own hypot", B+"simd_math.h __hypot"), ("fallback dispatch", B+"simd_math.h _GLIBCXX_SIMD_MATH_CALL*; "+B+"simd_fixed_size.h _S_apply-like math wrappers")],
  ["returned simds"])

p("T01", "ABI tags and type traits describe the actual types",
  "For every ABI tag and element type the size, alignment, trivial copyability, default/copy constructibility, memory_alignment, is_simd/is_simd_mask/is_abi_tag, simd_size, rebind_simd, resize_simd and "
  "deduce results are mutually consistent and consistent with sizeof and the objects: size() elements fit, deduce<T,N> has N elements, register ABIs occupy one register, "
  "invalid combinations are not constructible, and a fixed_size object can be exchanged through memory between translation units compiled for different feature sets.",
  ["configurations", "programs"],
  "All element types, all element counts 1..max, all ABI tags and feature sets.",
  "The ABI tests cover a handful of (type, ABI) pairs for float and one mask; traits for other types, counts and feature sets are never evaluated.",
  ["experimental/bits/simd.h", B+"simd_detail.h", B+"simd_fixed_size.h", B+"simd_builtin.h"],
  [("ABI selection", B+"simd.h __deduce_impl, simd_abi::native/compatible, _AbiList"),
   ("validity", B+"simd.h _S_is_valid_v, __is_vectorizable; "+B+"simd_fixed_size.h _Fixed")],
  ["type traits observed at run time, sizeof, addresses of objects"])

p("T02", "Implicit conversions are accepted iff they preserve values",
  "A broadcast, generator, converting constructor, simd_cast or binary operator with a scalar participates in overload resolution for exactly those source types that "
  "the specification allows: arithmetic types only when every value is representable in the element type (or the type is int, or unsigned int for unsigned elements), and fixed_size conversions only when value-preserving; "
  "vectorizable types exclude bool, and ill-formed uses are rejected without a hard error.",
  ["programs", "configurations"],
  "All pairs of arithmetic types and ABI tags.",
  "The SFINAE tests need a missing test framework; stable tests only compile a few valid uses.",
  ["experimental/bits/simd.h", B+"simd_detail.h", B+"simd_fixed_size.h"],
  [("value-preserving concept", B+"simd.h _ValuePreserving, __is_narrowing_conversion, _ValuePreservingOrInt"),
   ("conditional members", B+"simd.h simd constructors, _SimdIntOperators")],
  ["results of overload-resolution probes"])

p("P01", "Compile-time evaluation equals run-time evaluation",
  "An operation on simds or masks whose operands are compile-time constants (constexpr evaluation where supported, or operands the optimiser can see) "
  "produces the same elements as the same operation on the same values unknown at compile time, at every optimisation level and inlining setting.",
  ["inputs", "configurations", "programs"],
  "All operations and constant operands, -O0 to -O3, GCC and clang, with and without forced inlining.",
  EX + "constant operands take separate branches guarded by constant-propagation checks that no test reaches.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_math.h"],
  [("constprop branches", B+"simd.h _M_is_constprop, _SimdWrapper::_M_is_constprop_*"),
   ("compile-time shortcuts", B+"simd_x86.h __builtin_constant_p / __builtin_is_constant_evaluated branches")],
  ["values of both evaluations"])

p("P02", "Padding elements have no observable effect",
  "Operations on simds that do not fill their register produce results that do not depend on the content of the padding (unused) elements and never trap because of it, "
  "whatever earlier operations left there; and as long as the padding holds only what loads, generators, element-wise writes, casts and ordinary arithmetic on finite values leave there, arithmetic, division, comparison, "
  "conversion, reduction and square root raise only the floating-point exception flags that the N real elements raise.",
  ["inputs", "configurations", "histories"],
  "Every operation, value vector and padding content (as left by any previous operation) for all partially filled types, and every x86 feature set.",
  EX + "FP status flags and traps are never inspected.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h"],
  [("padding protection", B+"simd.h __make_padding_nonzero; _S_masked of the ABI tags"),
   ("trap-free division", B+"simd_x86.h _S_divides/_S_modulus")],
  ["fetestexcept after each operation", "SIGFPE", "results under dirty padding"])

p("P03", "No API use triggers undefined behaviour or uninitialised reads",
  "Using any simd or mask operation within its preconditions executes without undefined behaviour, out-of-bounds or misaligned access and without a result depending on uninitialised memory, "
  "and the library's own undefined-behaviour self-checks never fire.",
  ["inputs", "configurations", "programs"],
  "All API operations, valid inputs and feature sets.",
  EX + "no test runs under a sanitizer or executes the operations.",
  ["experimental/bits/simd.h", B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h", B+"simd_math.h", B+"simd_detail.h"],
  [("self-check", B+"simd.h __invoke_ub, _GLIBCXX_DEBUG_UB"), ("type punning", B+"simd.h __bit_cast, _SmartReference, may_alias")],
  ["sanitizer reports (ASan, UBSan, MSan)", "__invoke_ub"])

p("P04", "Operations touch only their own objects across threads",
  "Threads that operate on distinct simd objects, or load, store and masked-store disjoint elements of one array, never race with each other and never lose or "
  "overwrite another thread's elements; the library keeps no shared mutable state.",
  ["schedules", "inputs", "configurations"],
  "All interleavings of threads using disjoint objects or disjoint (selected) array elements, all element types and ABIs.",
  "All tests are single-threaded.",
  [B+"simd_builtin.h", B+"simd_x86.h", B+"simd_fixed_size.h", B+"simd_scalar.h"],
  [("partial and masked stores", B+"simd_builtin.h _S_store/_S_masked_store; "+B+"simd_x86.h _S_masked_store_nocvt"),
   ("stateless implementation classes", B+"simd_builtin.h, "+B+"simd_fixed_size.h")],
  ["ThreadSanitizer reports", "array contents after concurrent disjoint stores"])

p("N01", "Numeric traits agree with std::numeric_limits and the type",
  "The library's numeric traits (finite min/max, infinity, NaN, denorm_min, norm_min, epsilon, digits, radix, exponents, round error, reciprocal overflow threshold) "
  "have the values of the type they describe, exist exactly for the types for which they are defined, and match std::numeric_limits where both define a value.",
  ["configurations", "inputs"],
  "All arithmetic types and traits.",
  "No stable test evaluates a numeric trait.",
  [B+"numeric_traits.h"],
  [("traits", B+"numeric_traits.h")],
  ["values of the traits"])

p("X01", "Code paths for other targets obey the same element-wise semantics",
  "Compiled for AArch64/ARM NEON, POWER or a target with no SIMD support at all, operators, comparisons, mask reductions, where, loads, stores, casts and exact math functions produce the same element-wise "
  "results as on x86.",
  ["inputs", "configurations"],
  "All element types and ABI tags of the non-x86 configurations.",
  "The build only syntax-checks the headers for the other targets; none of their code is ever instantiated or run.",
  [B+"simd_neon.h", B+"simd_ppc.h", B+"simd_builtin.h", "experimental/bits/simd.h"],
  [("NEON implementation", B+"simd_neon.h"), ("PPC implementation", B+"simd_ppc.h"), ("generic fallback", B+"simd_builtin.h, "+B+"simd_scalar.h")],
  ["values of operations executed through emulated target intrinsics"])

p("X02", "The installed package behaves like the source tree",
  "install.sh with an include directory places there every header the library needs and nothing outside it, so that a program including <experimental/simd> from that directory alone behaves as with the source tree; "
  "--uninstall removes exactly these files; and the debug-printing header prints element values faithfully.",
  ["configurations", "programs", "histories"],
  "All sequences of install and uninstall into arbitrary directories, and printed values.",
  "The installer is never run and the debug header is only syntax-checked.",
  ["install.sh", "experimental/simd", B+"simd_debug.h"],
  [("installer", "install.sh"), ("top-level header", "experimental/simd"), ("debug printing", B+"simd_debug.h")],
  ["directory content", "program output"])

p("C01", "Language standard, build mode and floating-point mode options do not change results",
  "Operators, comparisons, reductions, where, loads, stores, casts and math functions give the specified element-wise results whichever supported language standard (C++17, C++20, C++23), "
  "optimisation level, inlining, exception, RTTI, char signedness, assertion or LTO option the program is compiled with; with -frounding-math, -fno-trapping-math and -fno-signed-zeros results still "
  "match the scalar operation, and with -ffast-math they stay correct for operands that are neither infinite nor NaN up to the rounding error of a reciprocal.",
  ["configurations", "inputs"],
  "All compiler option combinations the headers branch on, all element types, ABI tags and inputs.",
  "The build syntax-checks C++17 at one option set; code guarded by the language level and by floating-point macros (__FINITE_MATH_ONLY__, __GCC_IEC_559, __cpp_lib_*) is never run.",
  [B+"simd_x86.h", B+"simd_math.h", B+"simd_builtin.h", B+"simd.h", B+"simd_fixed_size.h"],
  [("C++20 shift semantics", B+"simd_x86.h _S_bit_shift_left/_S_bit_shift_right"), ("integer division through floating point", B+"simd_x86.h _S_divides"),
   ("fast-math branches", B+"simd_math.h ldexp/logb/frexp/hypot/copysign, "+B+"simd_builtin.h classification")],
  ["element values of operations in programs compiled with each option set"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for d in P: f.write(json.dumps(d) + "\n")
print(len(P), "properties")
