#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the text is easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = None
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

DET = ["Vc/scalar/vector.h", "Vc/sse/vector.h", "Vc/sse/vector.tcc", "Vc/sse/detail.h", "Vc/avx/vector.h", "Vc/avx/vector.tcc", "Vc/avx/detail.h"]

p("C01", "Vector arithmetic, bitwise and shift operators act lane by lane like scalars",
  "For every Vector<T, Abi>, the operators + - * / %, unary + - ~ !, & | ^, << >>, ++ -- and their compound forms give in every lane exactly the value that the built-in scalar operator on T gives for that lane's operands (wrap-around modulo 2^bits for integers, IEEE-754 for floating point), independently of the other lanes and of the instruction set. Nothing outside the result object is written.",
  ["inputs", "configurations"],
  "all lane values of all operands (division: all with non-zero divisors and no INT_MIN/-1), all six entry types, the Scalar, SSE and AVX ABIs, and the SSE2/SSE4/AVX/AVX2 code paths",
  "Tests try a handful of values per type on one instruction set; the stable tests here evaluate no arithmetic at all. Emulated operations (integer multiplication before SSE4.1, division and modulo through float, 16-bit shifts) differ from the scalar result only on rare operand values.",
  DET + ["Vc/common/operators.h", "Vc/scalar/detail.h", "Vc/sse/intrinsics.h", "Vc/avx/intrinsics.h"],
  [("per-type add/sub/mul/div/mod/bit/shift helpers and the operator members built on them", "Vc/sse/detail.h, Vc/avx/detail.h, Vc/sse/vector.tcc, Vc/avx/vector.tcc, Vc/scalar/vector.h")])
p("C02", "Comparison operators yield exactly the per-lane scalar comparison",
  "For every Vector<T, Abi>, ==, !=, <, <=, >, >= and the isnan/isfinite/isinf/isnegative predicates return a mask whose lane i is set exactly when the scalar comparison or predicate on lane i holds, with unsigned types compared as unsigned and with IEEE-754 rules for NaN, infinities and signed zeros. The returned mask is well formed: each of its lanes is entirely set or entirely clear.",
  ["inputs", "configurations"],
  "all lane values including NaN, infinities, denormals, signed zeros and integers with the top bit set; all entry types, ABIs and code paths",
  "Tests compare small non-negative integers; unsigned values above INT_MAX, NaN ordering and partially filled masks are per-value facts that sampling does not settle.",
  DET + ["Vc/sse/math.h", "Vc/avx/math.h", "Vc/scalar/math.h", "Vc/sse/intrinsics.h", "Vc/avx/intrinsics.h"],
  [("comparison helpers and sign-flip emulation of unsigned compares", "Vc/sse/intrinsics.h, Vc/avx/intrinsics.h, Vc/sse/detail.h, Vc/avx/detail.h")])
p("C03", "Masks behave as a vector of booleans",
  "A Mask converts losslessly from and to bool arrays, single bools, the Zero/One tags and integers (toInt), and its logical operators, element access, all_of/any_of/none_of/some_of, isFull/isEmpty/isNotEmpty/isMix, count, firstOne, equality and shifts return exactly what the same operation on the vector of its boolean lanes returns. Conversions between mask types of equal size preserve every lane.",
  ["inputs", "configurations"],
  "all 2^Size mask values (every bool array content), all lane indices, all mask types, ABIs and code paths",
  "Tests look at a few mask patterns on the one instruction set they are built for; a wrong movemask, testc or shuffle constant shows only for particular patterns and paths.",
  ["Vc/common/mask.h", "Vc/scalar/mask.h", "Vc/sse/mask.h", "Vc/sse/mask.tcc", "Vc/avx/mask.h", "Vc/avx/mask.tcc", "Vc/common/bitscanintrinsics.h", "Vc/sse/detail.h", "Vc/avx/detail.h", "Vc/common/maskbool.h"],
  [("mask storage invariant (all-ones/all-zero lanes), movemask/testc based queries, mask_cast, mask_store/mask_load", "Vc/sse/detail.h, Vc/avx/detail.h, Vc/sse/mask.tcc, Vc/avx/mask.tcc")])
p("C04", "Masked assignment changes exactly the active lanes",
  "v(mask) op= x, where(mask, v) op= x, where(mask) | v op= x, masked ++/--, assign, setZero/setZeroInverted and iif(mask, a, b) give every active lane the value of the unmasked operation and leave every inactive lane bit-identical to its previous value.",
  ["inputs", "configurations"],
  "all masks, all lane values, all compound operators, entry types, ABIs and code paths",
  "An inactive lane that is disturbed or an active lane that is missed shows only for particular masks and values; tests use two or three masks with constant vectors.",
  ["Vc/common/writemaskedvector.h", "Vc/common/where.h", "Vc/common/iif.h", "Vc/common/vector.h", "Vc/scalar/vector.h", "Vc/sse/vector.h", "Vc/avx/vector.h", "Vc/sse/vectorhelper.h", "Vc/avx/vectorhelper.h", "Vc/sse/intrinsics.h", "Vc/avx/intrinsics.h"],
  [("WriteMaskedVector / WhereMask::MaskedLValue dispatch to blend based assign", "Vc/common/writemaskedvector.h, Vc/common/where.h")])
p("C05", "Vector loads and stores touch exactly their Size elements",
  "Loading from memory gives lane i the value of element i (converted as static_cast would convert it when the element type differs), and storing writes to element i the (converted) value of lane i, for the aligned, unaligned, streaming and prefetching flavours. No byte outside the Size addressed elements is read or written, a masked store leaves elements of inactive lanes unchanged, and the unaligned flavours require no alignment beyond that of the element.",
  ["inputs", "configurations"],
  "all memory contents, all supported (vector type, memory type) pairs, all load/store flags, all addresses allowed by the flag, all masks, ABIs and code paths",
  "Over-reads, over-writes and wrong alignment assumptions are invisible to tests whose buffers are padded and aligned; converting loads differ for few values.",
  ["Vc/common/loadinterface.h", "Vc/common/storeinterface.h", "Vc/common/loadstoreflags.h", "Vc/scalar/vector.tcc", "Vc/sse/vector.tcc", "Vc/avx/vector.tcc", "Vc/sse/detail.h", "Vc/avx/detail.h", "Vc/sse/vectorhelper.h", "Vc/avx/vectorhelper.h"],
  [("detail::load overloads, VectorHelper::load/store, maskStore", "Vc/sse/detail.h, Vc/avx/detail.h, Vc/sse/vectorhelper.h, Vc/avx/vectorhelper.h")])
p("C06", "Gather and scatter access exactly the addressed elements",
  "A gather gives lane i the value of the addressed element (array element, structure member or nested sub-array element) and a scatter stores lane i there (when indexes collide, one of the colliding lanes is stored: the last one, except with the POPCNT/BSF loop strategies). With a mask, lanes that are not active keep their value and their elements are neither read nor written; no memory other than the addressed elements of active lanes is accessed, whatever the (also negative) index values.",
  ["inputs", "configurations"],
  "all index vectors and index types, all memory contents, all masks, all value types, ABIs, code paths and gather/scatter implementation strategies",
  "Tests gather from one table with a few regular index patterns; accesses past the addressed element, inactive lanes that fault and duplicate indexes need adversarial addresses.",
  ["Vc/common/gatherinterface.h", "Vc/common/scatterinterface.h", "Vc/common/gatherimplementation.h", "Vc/common/scatterimplementation.h", "Vc/common/subscript.h", "Vc/sse/vector.tcc", "Vc/avx/vector.tcc", "Vc/avx/detail.h"],
  [("gather/scatter strategies, SubscriptOperation index arithmetic, AVX2 gather instructions", "Vc/common/gatherimplementation.h, Vc/common/scatterimplementation.h, Vc/common/subscript.h, Vc/avx/vector.tcc")])
p("C07", "simd_cast and vector conversions equal static_cast per lane",
  "simd_cast, the converting constructors and static_cast between vector types give lane i of the result the value static_cast<To>(lane i of the source) whenever that conversion is defined, joining several sources and selecting the offset-th part in order, and with zero in lanes for which there is no source. Casts of masks preserve the boolean value of each lane under the same lane mapping, and reinterpret_components_cast keeps the bit pattern.",
  ["inputs", "configurations"],
  "all values representable in the target, all (source, target) pairs of entry types and ABIs, all numbers of sources and all offsets, all code paths",
  "There are several hundred specialisations; tests visit a few values each and only those of the instruction set they are built for.",
  ["Vc/scalar/simd_cast.h", "Vc/sse/simd_cast.h", "Vc/avx/simd_cast.h", "Vc/sse/casts.h", "Vc/avx/casts.h", "Vc/common/simd_cast.h", "Vc/sse/detail.h", "Vc/avx/detail.h"],
  [("simd_cast overload set and detail::convert", "Vc/sse/simd_cast.h, Vc/avx/simd_cast.h, Vc/sse/casts.h, Vc/avx/casts.h")])
p("C08", "Reductions combine every selected lane exactly once",
  "sum, product, min, max, partialSum and their masked forms combine exactly the lanes the mask selects (all lanes without mask), each once: integer results equal the wrapped scalar result, min/max equal the extreme of the selected lanes, and floating-point sums and products are some association of exactly those lanes. When nothing is selected, sum is 0 and product is 1. minIndex and maxIndex name a lane that holds the extreme.",
  ["inputs", "configurations"],
  "all lane values, all masks, all entry types, ABIs and code paths",
  "A lane combined twice or dropped, or a wrong neutral element under a mask, is masked by the symmetric constant data tests use.",
  ["Vc/sse/vectorhelper.h", "Vc/avx/vectorhelper.h", "Vc/avx/detail.h", "Vc/sse/vector.tcc", "Vc/avx/vector.tcc", "Vc/sse/vector.h", "Vc/avx/vector.h", "Vc/scalar/vector.h"],
  [("horizontal shuffles in VectorHelper/detail and the masked overloads that blend a neutral element", "Vc/sse/vectorhelper.h, Vc/avx/detail.h, Vc/sse/vector.tcc, Vc/avx/vector.tcc")])
p("C09", "Lane rearranging functions are the permutations they document",
  "shifted (with and without fill vector), rotated, reversed, interleaveLow/interleaveHigh, broadcast construction, element reads and writes by index, generate, apply, call and IndexesFromZero place in every lane exactly the documented source lane or value, for every shift or rotate amount including negative ones and ones larger than the vector (with a fill vector: amounts from -Size to Size, as documented). Lanes shifted in are zero or come from the fill vector. The masked forms of apply and call act on exactly the active lanes.",
  ["inputs", "configurations"],
  "all lane values, all amounts, all lane indices, all entry types, ABIs and code paths",
  "Switch tables over the amount and per-type shuffle constants have one entry per amount and path; tests do not enumerate them on all paths.",
  ["Vc/sse/vector.tcc", "Vc/avx/vector.tcc", "Vc/scalar/vector.tcc", "Vc/sse/shuffle.h", "Vc/avx/shuffle.h", "Vc/sse/detail.h", "Vc/avx/detail.h", "Vc/common/vector.h", "Vc/common/elementreference.h", "Vc/common/indexsequence.h"],
  [("shifted/rotated/reversed/interleave implementations", "Vc/sse/vector.tcc, Vc/avx/vector.tcc, Vc/sse/detail.h, Vc/avx/detail.h")])
p("C10", "sorted() returns an ascending permutation of its lanes",
  "For every Vector and SimdArray value without NaN, sorted() returns the same multiset of lane values (as compared with ==) in non-descending order.",
  ["inputs", "configurations"],
  "all lane values (no NaN), all entry types, ABIs and code paths",
  "A sorting network with one wrong comparator sorts almost all inputs; tests sort a few dozen random vectors.",
  ["src/sse_sorthelper.cpp", "src/avx_sorthelper.cpp", "Vc/sse/vector.tcc", "Vc/avx/vector.tcc", "Vc/sse/vector.h"],
  [("SortHelper bitonic/odd-even networks built from min, max and shuffles", "src/sse_sorthelper.cpp, src/avx_sorthelper.cpp")])
p("C11", "SimdArray behaves as an array of N scalar lanes for every N",
  "For every entry type and every N, SimdArray<T, N> arithmetic, comparison, masked assignment, load/store, element access, shifts, rotations, reductions, gathers and conversions between SimdArray types give lane i what the scalar operation on element i gives, and SimdMaskArray behaves as N booleans. Exactly N elements take part: no padding lane influences a result and no memory beyond N elements is accessed.",
  ["inputs", "configurations", "programs"],
  "all N the library instantiates (powers of two, odd and mixed decompositions), all lane values, all masks, all code paths",
  "How N splits into native vectors gives a different recursion for each N; tests pick a few N, and faults sit in the last, partial part.",
  ["Vc/common/simdarray.h", "Vc/common/simdarrayhelper.h", "Vc/common/simdmaskarray.h", "Vc/common/simdarrayfwd.h", "Vc/common/operators.h", "Vc/common/simd_cast_caller.tcc", "Vc/common/macros.h"],
  [("recursive split into storage_type0/storage_type1 and Split/Operations helpers", "Vc/common/simdarray.h, Vc/common/simdarrayhelper.h, Vc/common/simdmaskarray.h")])
p("C12", "Memory containers keep element, vector and padding views consistent and in bounds",
  "Memory<V, Size, Size2> and Memory<V> hold entriesCount() elements in vectorsCount()*V::Size suitably aligned slots; scalar access, vector(i), vectorAt(i, shift), lastVector, firstVector, row access, fill, copy and arithmetic/comparison operators all refer to the same elements in order, and every access made through them for a valid index stays inside the container. Copying or assigning between containers, and from plain arrays, transfers every element and nothing else.",
  ["inputs", "histories", "configurations"],
  "all sizes (dynamic: every size_t), all valid indexes and shifts, all contents",
  "Tests use a few sizes; padding and last-vector arithmetic depends on the size modulo the vector width, and over-reads are hidden by padding.",
  ["Vc/common/memory.h", "Vc/common/memorybase.h", "Vc/common/memoryfwd.h", "Vc/Memory"],
  [("size rounding, alignment, and the pointer arithmetic of MemoryBase / MemoryDimensionBase", "Vc/common/memory.h, Vc/common/memorybase.h")])
p("C13", "Aligned allocation returns enough suitably aligned memory or fails",
  "Vc::malloc<T, Alignment>(n) and Vc::Allocator<T>::allocate(n) return null/throw or memory aligned as requested (vector alignment, cache line, page, or alignof(T)) that can hold n objects of T, for every n including those for which the byte count does not fit into size_t; malloc with the vector alignments additionally pads to a whole number of vectors. Freed or deallocated pointers reach the underlying allocator as exactly the pointer it returned.",
  ["inputs", "fault_sequences"],
  "all n, all addresses the underlying allocator may return, allocation failure, all alignment modes",
  "Tests allocate small sizes from the one allocator on the machine; overflow in the size computation and unlucky addresses are not reachable that way.",
  ["Vc/Allocator", "Vc/common/malloc.h", "Vc/common/memory.h", "Vc/common/alignedbase.h"],
  [("size rounding, over-allocation and back-pointer arithmetic", "Vc/Allocator, Vc/common/malloc.h")])
p("C14", "CPU feature detection reports exactly what the CPU and OS support",
  "For every possible set of CPUID/XGETBV answers, CpuId's queries decode the architecturally documented fields; isImplementationSupported(impl) is true exactly when the CPU has the instructions (and the OS has enabled the register state) that impl needs, bestImplementationSupported is the most capable supported one, and extraInstructionsSupported contains exactly the reported extensions.",
  ["inputs", "configurations"],
  "all register values the cpuid and xgetbv instructions can return, all Implementation values",
  "A test runs on one machine and sees one CPUID answer; the others (older CPUs, OS without AVX state, AMD leaves) cannot be produced.",
  ["src/cpuid.cpp", "src/support_x86.cpp", "Vc/cpuid.h", "Vc/support.h"],
  [("CpuId::init and the implementation tables", "src/cpuid.cpp, src/support_x86.cpp, Vc/cpuid.h")],
  state=[("CpuId static members", "decoded feature words and cache geometry", "src/cpuid.cpp")])
p("C15", "Exact math functions return the IEEE-specified value for every input",
  "abs, floor, ceil, trunc, round (halfway cases to even), sqrt, min, max, copysign, frexp, ldexp, exponent and fma return in every lane the exactly specified result of the corresponding scalar function: rounding functions, abs and sqrt for every bit pattern including signed zeros, infinities, NaN, denormals and values too large for integers; frexp, ldexp and exponent for normal arguments and results (and for zero, infinity and NaN arguments where the scalar function defines the result); min and max for arguments that are not NaN; fma rounds once wherever the target has FMA instructions, and for float on every target.",
  ["inputs", "configurations"],
  "all bit patterns of float and double in every lane, all ABIs and code paths",
  "Tests sample ranges on one path; the emulations used before SSE4.1 and on AVX go wrong for large values, halfway cases and signed zeros only.",
  ["Vc/scalar/math.h", "Vc/sse/math.h", "Vc/avx/math.h", "Vc/common/math.h", "Vc/sse/vectorhelper.h", "Vc/avx/vectorhelper.h", "Vc/sse/detail.h", "Vc/avx/detail.h"],
  [("bit-mask and round-instruction based implementations and their emulations", "Vc/sse/math.h, Vc/avx/math.h, Vc/scalar/math.h, Vc/sse/vectorhelper.h")])
p("C16", "Interleaved memory access (de)interleaves without loss",
  "Reading struct members or array-of-structure columns through InterleavedMemoryWrapper or deinterleave gives lane i of the k-th vector the k-th member of the i-th addressed structure, and writing through it stores exactly those members back; for indexed and successive access and any number of members supported (indexes must be unique when writing). Structures that are not addressed stay unchanged and nothing outside them is accessed, and transpose is the matrix transpose.",
  ["inputs", "configurations"],
  "all contents, all index vectors, 2 to 8 members, all entry types, ABIs and code paths",
  "Each member count has its own shuffle network per type and path; a single misplaced lane or an over-wide final access needs every network checked with distinct data.",
  ["Vc/common/interleavedmemory.h", "Vc/common/deinterleave.h", "Vc/sse/deinterleave.tcc", "Vc/avx/deinterleave.tcc", "Vc/common/transpose.h", "Vc/sse/vector.tcc", "Vc/avx/vector.tcc", "Vc/avx/detail.h", "Vc/sse/detail.h"],
  [("InterleaveImpl, HelperImpl::deinterleave, transpose_impl", "Vc/common/interleavedmemory.h, Vc/sse/vector.tcc, Vc/avx/vector.tcc, Vc/sse/detail.h, Vc/avx/detail.h")])
p("C17", "simd_for_each visits every element exactly once for any length",
  "For every range length and every alignment of its first element, Vc::simd_for_each and simd_for_each_n apply the callable to every element of the range exactly once, in order, write modified values back to the same element, and access no memory outside the range.",
  ["inputs"],
  "all range lengths and start addresses, all range contents, an arbitrary callable",
  "The prologue and epilogue lengths depend on address and length modulo the vector size; tests use a few containers.",
  ["Vc/common/algorithms.h"],
  [("scalar prologue up to alignment, vector body, scalar epilogue", "Vc/common/algorithms.h")])
p("C18", "Iterating vectors and mask bits visits each lane once, in order",
  "Range-for over a vector (begin/end) reads and writes lanes 0 to Size-1 in order, and iterating where(mask) yields exactly the indexes of the set lanes in ascending order, each once.",
  ["inputs", "configurations"],
  "all masks and lane values, all entry types, ABIs and code paths",
  "Bit-scan iteration depends on the whole mask value; tests use a few masks.",
  ["Vc/common/iterators.h", "Vc/common/bitscanintrinsics.h", "Vc/common/mask.h", "Vc/common/elementreference.h"],
  [("Iterator and BitmaskIterator", "Vc/common/iterators.h")])
p("C19", "simdize keeps structure members and lanes consistent",
  "For a simdized structure, assigning a scalar structure to lane i (or inserting one) and extracting lane i are inverse to each other, leave all other lanes unchanged, treat every member (also nested ones) alike, and shifted/swap act on every member in the same way.",
  ["inputs", "programs"],
  "all member values, all lanes, structures of several members including nested and non-type template parameters",
  "Each structure shape instantiates its own recursion over members; tests look at few structures with constant data.",
  ["Vc/common/simdize.h"],
  [("SimdizeAdapter recursion over tuple elements: assign, extract, shifted, swap", "Vc/common/simdize.h")])
p("C20", "Library/header compatibility check rejects exactly incompatible versions",
  "At start-up the library aborts if and only if the program was compiled against headers with a different ABI number or a newer version than the library, and passes silently for every compatible combination; version macros order versions lexicographically.",
  ["inputs", "configurations"],
  "all pairs of library ABI and version numbers",
  "A build links one header version against one library version, so a test sees one pair.",
  ["src/const.cpp", "Vc/version.h"],
  [("checkLibraryAbi and the version macros", "src/const.cpp, Vc/version.h")])
p("C21", "Random() stays in its documented range in every state",
  "Vector::Random() returns in each lane a value in [0, 1) for floating-point types, and for integer types the pseudo-random state bits themselves, for every state of the generator; every call advances exactly the consumed state words by the linear-congruential step x * 0xdeece66d + 11 (floating-point double: x * 0x5deece66d + 11 on 64 bits) and leaves the other state words unchanged.",
  ["inputs", "histories", "configurations"],
  "all generator states",
  "A test draws some numbers from one fixed start state; a value equal to 1.0 or an overflowing conversion needs particular states.",
  ["Vc/sse/vector.tcc", "Vc/avx/vector.tcc", "Vc/scalar/vector.tcc", "src/const.cpp"],
  [("RandomState update and bit-field to float conversion", "Vc/sse/vector.tcc, Vc/avx/vector.tcc, src/const.cpp")],
  state=[("RandomState", "global generator state", "src/const.cpp")])
p("C22", "Transcendental functions stay within their documented error bounds",
  "sin, cos, sincos, asin, atan, atan2, exp, log, log2, log10 and rsqrt/reciprocal return results within the documented distance of the exact value over the whole domain.",
  ["inputs", "configurations"],
  "all float and double inputs",
  "Tests compare against recorded reference points only.",
  ["Vc/common/trigonometric.h", "src/trigonometric.cpp", "Vc/common/logarithm.h", "Vc/common/exponential.h", "Vc/sse/math.h", "Vc/avx/math.h"],
  [("polynomial approximations", "src/trigonometric.cpp, Vc/common/logarithm.h, Vc/common/exponential.h")])
p("C23", "span and array sub-ranges address exactly the requested elements",
  "Vc::span and Vc::array element access, first/last/subspan, iteration, size, swap and comparison refer to exactly the requested elements of the underlying storage for every size, offset and count within bounds.",
  ["inputs"],
  "all sizes, offsets and counts within the documented preconditions",
  "Tests never instantiate most of these members.",
  ["Vc/common/span.h", "Vc/array", "Vc/span"],
  [("span pointer/size arithmetic and array accessors", "Vc/common/span.h, Vc/array")])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for q in P: f.write(json.dumps(q, ensure_ascii=False) + "\n")
