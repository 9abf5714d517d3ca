"""Feature sets and the definition of every check."""
import os, re
REPO = os.environ.get("VH_REPO", "/repo")
TYPES = {"schar": "signed char", "uchar": "unsigned char", "short": "short", "ushort": "unsigned short",
         "int": "int", "uint": "unsigned", "long": "long", "ulong": "unsigned long", "float": "float",
         "double": "double", "ldouble": "long double", "char": "char", "llong": "long long",
         "ullong": "unsigned long long", "wchar": "wchar_t", "char16": "char16_t", "char32": "char32_t"}
CORE = ["schar", "uchar", "short", "ushort", "int", "uint", "long", "ulong", "float", "double"]
ALIAS = ["ldouble", "char", "llong", "ullong", "wchar", "char16", "char32"]
INTS = [t for t in CORE if t not in ("float", "double")]
IALIAS = [t for t in ALIAS if t != "ldouble"]
FLOATS = ["float", "double", "ldouble"]

F = "avx512f"
CONFIGS = {
    "sse2": dict(flags="-march=x86-64 -O2"),
    "sse3": dict(flags="-march=x86-64 -msse3 -O1", needs="pni"),
    "ssse3": dict(flags="-march=x86-64 -mssse3 -O1", needs="ssse3"),
    "sse41": dict(flags="-march=x86-64 -msse4.1 -O1", needs="sse4_1"),
    "sse42": dict(flags="-march=westmere -O2", needs="sse4_2 popcnt"),
    "avx": dict(flags="-march=sandybridge -O2", needs="avx"),
    "avx2": dict(flags="-march=haswell -O2", needs="avx2 fma bmi2"),
    "knl": dict(flags="-march=haswell -mavx512f -mavx512cd -O2", needs="avx512f avx512cd"),
    "skx": dict(flags="-march=skylake-avx512 -O2", needs="avx512f avx512vl avx512bw avx512dq"),
    # partial AVX-512 combinations
    "f_dq": dict(flags="-march=haswell -mavx512f -mavx512dq -O1", needs="avx512dq"),
    "f_bw": dict(flags="-march=haswell -mavx512f -mavx512bw -O1", needs="avx512bw"),
    "f_vl": dict(flags="-march=haswell -mavx512f -mavx512vl -O1", needs="avx512vl"),
    "f_vl_bw": dict(flags="-march=haswell -mavx512f -mavx512vl -mavx512bw -O1", needs="avx512vl avx512bw"),
    "f_vl_dq": dict(flags="-march=haswell -mavx512f -mavx512vl -mavx512dq -O1", needs="avx512vl avx512dq"),
    "f_dq_bw": dict(flags="-march=haswell -mavx512f -mavx512dq -mavx512bw -O1", needs="avx512bw avx512dq"),
    # other build modes
    "sse2_O0": dict(flags="-march=x86-64 -O0"),
    "avx2_O3": dict(flags="-march=haswell -O3", needs="avx2 fma bmi2"),
    "skx_O1": dict(flags="-march=skylake-avx512 -O1", needs="avx512f avx512vl avx512bw avx512dq"),
    "avx2_ni": dict(flags="-march=haswell -O2 -D_GLIBCXX_SIMD_NO_ALWAYS_INLINE", needs="avx2 fma bmi2"),
    "skx_strict": dict(flags="-march=skylake-avx512 -O2", std="c++17", needs="avx512f avx512vl avx512bw avx512dq"),
    "sse2_strict": dict(flags="-march=x86-64 -O2", std="c++17"),
    "avx2_20": dict(flags="-march=haswell -O2", std="gnu++20", needs="avx2 fma bmi2"),
    "clang_sse2": dict(flags="-march=x86-64 -O2 -ffp-contract=off", cxx="clang++"),
    "clang_avx2": dict(flags="-march=haswell -O2 -ffp-contract=off", cxx="clang++", needs="avx2 fma bmi2"),
    "avx_nopop": dict(flags="-march=sandybridge -mno-popcnt -O1", needs="avx"),
    "avx2_nopop": dict(flags="-march=haswell -mno-popcnt -mno-bmi -mno-bmi2 -mno-fma -O2", needs="avx2"),
    "sse2_finite": dict(flags="-march=x86-64 -O1 -ffinite-math-only"),
    "sse2_snan": dict(flags="-march=x86-64 -O1 -fsignaling-nans"),
    "sse2_ld64": dict(flags="-march=x86-64 -O1 -mlong-double-64"),
    "clang_skx": dict(flags="-march=skylake-avx512 -O2 -ffp-contract=off", cxx="clang++", needs="avx512f avx512vl avx512bw avx512dq"),
    # sanitizers; uninitialised automatic objects hold a pattern
    "san_sse2": dict(flags="-march=x86-64 -O1 -fsanitize=address,undefined -fno-sanitize=signed-integer-overflow,shift-base -ftrivial-auto-var-init=pattern -D_GLIBCXX_DEBUG_UB"),
    "san_avx2": dict(flags="-march=haswell -ffp-contract=off -O1 -fsanitize=address,undefined -fno-sanitize=signed-integer-overflow,shift-base -ftrivial-auto-var-init=pattern -D_GLIBCXX_DEBUG_UB", needs="avx2 fma bmi2"),
    "san_skx": dict(flags="-march=skylake-avx512 -ffp-contract=off -O1 -fsanitize=address,undefined -fno-sanitize=signed-integer-overflow,shift-base -ftrivial-auto-var-init=pattern -D_GLIBCXX_DEBUG_UB", needs="avx512f avx512vl avx512bw avx512dq"),
    "tsan_sse2": dict(flags="-march=x86-64 -O1 -fsanitize=thread"),
    "tsan_avx": dict(flags="-march=sandybridge -O1 -fsanitize=thread", needs="avx"),
    "tsan_avx2": dict(flags="-march=haswell -ffp-contract=off -O1 -fsanitize=thread", needs="avx2 fma bmi2"),
    "tsan_knl": dict(flags="-march=haswell -mavx512f -mavx512cd -O1 -fsanitize=thread", needs="avx512f avx512cd"),
    "tsan_skx": dict(flags="-march=skylake-avx512 -ffp-contract=off -O1 -fsanitize=thread", needs="avx512f avx512vl avx512bw avx512dq"),
    # language standards, build modes, the other compiler
    "m_20_sse2": dict(flags="-march=x86-64 -O2", std="gnu++20"),
    "m_23_avx": dict(flags="-march=sandybridge -O1 -fno-exceptions -fno-rtti", std="c++23", needs="avx"),
    "m_20_avx2": dict(flags="-march=haswell -Os -D_GLIBCXX_SIMD_ENABLE_IMPLICIT_MASK_CAST -D_GLIBCXX_SIMD_ENABLE_STATIC_CAST", std="c++20", needs="avx2 fma bmi2"),
    "m_20_skx": dict(flags="-march=skylake-avx512 -O3 -mprefer-vector-width=512", std="gnu++20", needs="avx512f avx512vl avx512bw avx512dq"),
    "m_uchar_sse41": dict(flags="-march=x86-64 -msse4.1 -O1 -funsigned-char -fwrapv", host="-funsigned-char", needs="sse4_1"),
    "m_bare_knl": dict(flags="-march=haswell -mavx512f -mavx512cd -O1 -fno-inline -D_GLIBCXX_DEBUG -D_GLIBCXX_ASSERTIONS", needs="avx512f avx512cd"),
    "m_O0_skx": dict(flags="-march=skylake-avx512 -O0", needs="avx512f avx512vl avx512bw avx512dq"),
    "m_round_avx2": dict(flags="-march=haswell -O2 -frounding-math -fno-math-errno -ffp-contract=off", needs="avx2 fma bmi2"),
    "m_round_sse41": dict(flags="-march=x86-64 -msse4.1 -O2 -frounding-math -fsignaling-nans", needs="sse4_1"),
    "m_notrap_skx": dict(flags="-march=skylake-avx512 -O2 -fno-trapping-math -fno-math-errno -ffp-contract=off", needs="avx512f avx512vl avx512bw avx512dq"),
    "m_lto_avx": dict(flags="-march=sandybridge -O2 -ftree-vectorize -funroll-loops -fno-strict-aliasing -mno-vzeroupper -fomit-frame-pointer", needs="avx"),
    "m_fast_sse2": dict(flags="-march=x86-64 -O2 -ffast-math", host="-DVH_FAST"),
    "m_fast_avx": dict(flags="-march=sandybridge -O2 -ffast-math", host="-DVH_FAST", needs="avx"),
    "m_fast_avx2": dict(flags="-march=haswell -O3 -ffast-math", host="-DVH_FAST", needs="avx2 fma bmi2"),
    "m_fast_skx": dict(flags="-march=skylake-avx512 -O2 -ffast-math", host="-DVH_FAST", needs="avx512f avx512vl avx512bw avx512dq"),
    # other architectures: their code paths, compiled by the host compiler with stand-ins for their intrinsics
    "neon64": dict(flags="-march=x86-64 -O1 -funsigned-char", host="-funsigned-char", pre="neon64.h", shim="neon"),
    "neon32": dict(flags="-march=x86-64 -O1 -funsigned-char", host="-funsigned-char", pre="neon32.h", shim="neon"),
    "neonv7": dict(flags="-march=x86-64 -O1 -funsigned-char", host="-funsigned-char", pre="neonv7.h", shim="neon"),
    "ppc8": dict(flags="-march=x86-64 -O1 -funsigned-char", host="-funsigned-char", pre="ppc8.h", shim="ppc"),
    "novec": dict(flags="-march=x86-64 -O1", pre="scalar.h"),
}
QUICK = ["sse2", "ssse3", "sse41", "avx", "avx2", "knl", "skx"]
THOROUGH = QUICK + ["sse3", "sse42", "f_dq", "f_bw", "f_vl", "f_vl_bw", "f_vl_dq", "f_dq_bw", "sse2_O0", "avx2_O3",
                    "skx_O1", "avx2_ni", "skx_strict", "sse2_strict", "avx2_20"]

def cfgs(quick=QUICK, thorough=THOROUGH):
    return lambda tier: quick if tier == "quick" else thorough

def per_type(src, core, alias=(), level=None, **kw):
    """One TU per core type; alias types with few ABIs."""
    def units(tier, cfg):
        lv = level(tier, cfg) if level else (2 if tier == "thorough" else 1)
        for i, t in enumerate(core):
            # thin: on the quick tier every second (type, feature set) gets the short list of ABI tags
            short = kw.get("thin") and tier == "quick" and (i + list(CONFIGS).index(cfg)) % 2
            if tier == "quick" and cfg == "ssse3" and i % 2 == 0:
                continue # few code paths of its own
            yield (src, ["-DVH_T=" + TYPES[t], "-DVH_LEVEL=%d" % (0 if short else lv)], t)
        for t in alias:
            if tier == "quick" and cfg not in kw.get("alias_cfgs", ("sse2", "avx2", "skx")):
                continue
            yield (src, ["-DVH_T=" + TYPES[t], "-DVH_LEVEL=%d" % (1 if tier == "thorough" else 0)], t)
    return units

def spread(us, n, start):
    """n of the units, evenly spaced, with the short list of ABI tags"""
    us = [us[(start + k * len(us) // n) % len(us)] for k in range(min(n, len(us)))]
    return [(s, ["-DVH_LEVEL=0" if d.startswith("-DVH_LEVEL") else d for d in ds], t) for s, ds, t in us]

CHECKS = {}
PARTS = {} # machinery used by composite checks only
CHECKS["A01"] = dict(
    oracle=["a01_o.cpp"], configs=cfgs(), units=per_type("a01_k.cpp", CORE, ALIAS),
    rule="operand pairs: all 65536 for 8-bit types, all pairs of special values plus seeded random pairs otherwise, "
         "shuffled over lanes; an evaluation is one element result compared; non-trivial if the result differs from both operands")
CHECKS["A02"] = dict(
    oracle=["a02_o.cpp"], configs=cfgs(), units=per_type("a02_k.cpp", CORE, IALIAS),
    rule="bitwise: all 65536 pairs for 8-bit types, special and random pairs otherwise; shifts: every special value (all values for 8 bit) "
         "with every defined count, vector/scalar/literal counts; an evaluation is one element compared; non-trivial if it differs from both operands")
CHECKS["A03"] = dict(
    oracle=["a03_o.cpp"], configs=cfgs(), units=per_type("a03_k.cpp", CORE, ALIAS),
    rule="operand pairs incl. neighbours, sign flips and values differing in one bit; an evaluation is one mask element compared (also its "
         "byte representation as bool); non-trivial: as many as there are balanced true/false outcomes per kernel")
MTYPES = ["schar", "ushort", "int", "ulong", "float", "double"]
MALL = lambda tier: CORE if tier == "thorough" else MTYPES
def per_mtype(src, alias=("ldouble",)):
    def units(tier, cfg):
        return per_type(src, MALL(tier), alias)(tier, cfg)
    return units
CHECKS["M01"] = dict(
    oracle=["m01_o.cpp"], configs=cfgs(), units=per_mtype("m01_k.cpp"),
    rule="all 2^N masks for N<=10, structured and random masks beyond; an evaluation is one mask element read back through copy_to or operator[]; "
         "non-trivial: elements that differ from the first operand")
CHECKS["M02"] = dict(
    oracle=["m02_o.cpp"], configs=cfgs(QUICK + ["avx_nopop"], THOROUGH + ["avx_nopop", "avx2_nopop"]), units=per_mtype("m02_k.cpp"),
    rule="the seven reductions of every mask (all 2^N for N<=10, structured and random beyond), each mask produced in 16 different ways; an evaluation "
         "is one reduction result; all evaluations are of distinct (mask, producer, type, ABI) combinations")
CHECKS["M03"] = dict(
    oracle=["m03_o.cpp"], configs=cfgs(), units=per_mtype("m03_k.cpp"), pch="vh_pairs.h",
    rule="all 2^N masks for N<=10, structured and random masks beyond, for each (source mask type, destination mask type, way of conversion); an evaluation "
         "is one destination element compared; non-trivial: as many as there are balanced true/false expectations")
CHECKS["W01"] = dict(
    oracle=["w01_o.cpp"], configs=cfgs(), units=per_type("w01_k.cpp", CORE, ["ldouble"], thin=True), pch="vh_pairs.h",
    rule="value and operand pairs (special and random) under all 2^N masks for N<=10, structured and random masks beyond; not selected elements carry "
         "signalling NaNs, zero divisors, overflowing operands and out-of-range shift counts; an evaluation is one element compared; non-trivial: expected "
         "value differs from the old value")
CHECKS["W02"] = dict(
    oracle=["w02_o.cpp"], configs=cfgs(), units=per_type("w02_k.cpp", CORE, ["ldouble", "wchar"], thin=True), pch="ls_k.h",
    rule="masked loads and stores under all 2^N masks for N<=10, structured and random masks beyond, each placed in the interior of a page, with an "
         "inaccessible page behind or in front of a random element, or (nothing selected) at inaccessible memory; an evaluation is one element of the vector or "
         "of memory compared (stores: plus 160 bytes around); non-trivial: transferred elements")
CHECKS["K01"] = dict(
    oracle=["k01_o.cpp"], configs=cfgs(), units=per_type("k01_k.cpp", CORE, ["ldouble", "char", "wchar", "char16"]), pch="vh_pairs.h",
    rule="every value of 8- and 16-bit source types; special values, values around the limits of the target, rounding ties and random values otherwise "
         "(floating-point values outside an integer target are excluded: undefined); an evaluation is one converted element compared; non-trivial: value changes or "
         "the element sizes differ")
CHECKS["L01"] = dict(
    oracle=["l01_o.cpp"], configs=cfgs(), units=per_type("l01_k.cpp", CORE, ["ldouble", "char", "wchar", "char16"], thin=True), pch="ls_k.h",
    rule="every value of 8- and 16-bit sources, special values, rounding ties and random values otherwise, at addresses aligned exactly as the flag requires "
         "and not more; an evaluation is one element transferred and compared, all bytes between the vectors are compared too; non-trivial: converted elements")
CHECKS["L02"] = dict(
    oracle=["l02_o.cpp"], configs=cfgs(), units=per_type("l02_k.cpp", CORE, ["ldouble", "wchar"]), pch="ls_k.h",
    rule="loads and stores in the interior of a page, ending at an inaccessible page and starting behind one; 192 bytes on both sides compared; an evaluation is one "
         "element transferred; non-trivial: elements of vectors placed next to an inaccessible page")
CHECKS["V01"] = dict(
    oracle=["v01_o.cpp"], configs=cfgs(), units=per_type("v01_k.cpp", CORE, ["ldouble", "char", "wchar"], thin=True), pch="vh_pairs.h",
    rule="construction and element access on special and random vectors; every index and (N<=16) every pair of indices occurs; an evaluation is one element of "
         "the vector, or the scalar returned, compared with the same operation on a plain array; non-trivial: elements that change")
CHECKS["R01"] = dict(
    oracle=["r01_o.cpp"], configs=cfgs(), units=per_type("r01_k.cpp", CORE, ["ldouble", "char"], thin=True), pch="vh_pairs.h",
    rule="values chosen so that every order of combination gives the same result (exact sums and products), or with an error bound for random floating-point "
         "values; masked forms under all 2^N masks for N<=10 with NaN, infinities and extreme values in elements that are not selected; an evaluation is one "
         "reduction; non-trivial: at least one element selected")
CHECKS["R02"] = dict(
    oracle=["r02_o.cpp"], configs=cfgs(), units=per_type("r02_k.cpp", CORE, ALIAS), pch="vh_pairs.h",
    rule="all 65536 operand pairs for 8-bit types; special values, equal values, negated values, neighbours and single-bit differences otherwise; clamp bounds are "
         "ordered; compared with == (either zero accepted); an evaluation is one element; non-trivial: result differs from the first operand")
CHECKS["K02"] = dict(
    oracle=["k02_o.cpp"], configs=cfgs(), units=per_type("k02_k.cpp", CORE, ["ldouble", "char"], thin=True), pch="vh_pairs.h",
    rule="vectors of pairwise different elements and of special/random values; an evaluation is one element of a piece, of the joined or of the resized vector, "
         "compared with the element at the same position of the source (zero beyond); non-trivial: non-zero, or beyond the source")

def f01_units(tier, cfg):
    lv = 2 if tier == "thorough" else 1
    for t in ("float", "double", "ldouble"):
        if t == "ldouble" and tier == "quick" and cfg not in ("sse2", "skx"):
            continue
        for grp in (0, 1, 2):
            yield ("f01_k.cpp", ["-DVH_T=" + TYPES[t], "-DVH_LEVEL=%d" % (0 if t == "ldouble" and lv == 1 else lv), "-DVH_G=%d" % grp], "%s-%d" % (t, grp))
    for t in (INTS if tier == "thorough" else ["schar", "short", "int", "long", "uchar" if cfg in ("sse2", "skx") else "uint"]):
        yield ("f01_k.cpp", ["-DVH_T=" + TYPES[t], "-DVH_LEVEL=%d" % lv, "-DVH_G=0"], t)
CHECKS["F01"] = dict(
    oracle=["f01_o.cpp"], configs=cfgs(), units=f01_units, pch="vh_pairs.h", host_flags=["-fno-builtin", "-frounding-math"],
    rule="vectors of normal, of subnormal, of special values and mixtures: all exponents with structured mantissas, integers and halves of all magnitudes and their neighbours, infinities, "
         "NaN, zeros; rint/nearbyint/lrint/llrint in all four rounding modes; an evaluation is one element (or output argument) compared bit for bit with the std:: function; "
         "non-trivial: the result differs from the argument")

def f02_units(tier, cfg):
    lv = 2 if tier == "thorough" else 1
    for t in ("float", "double", "ldouble"):
        if t == "ldouble" and tier == "quick" and cfg not in ("sse2", "skx"):
            continue
        for grp in (0, 1, 2):
            yield ("f02_k.cpp", ["-DVH_T=" + TYPES[t], "-DVH_LEVEL=%d" % (0 if t == "ldouble" and lv == 1 else lv), "-DVH_G=%d" % grp], "%s-%d" % (t, grp))
CHECKS["F02"] = dict(
    oracle=["f02_o.cpp"], configs=cfgs(), units=f02_units, pch="vh_pairs.h", host_flags=["-fno-builtin"],
    rule="arguments per function: vectors inside one quadrant range, mixed, near multiples of pi/4, huge, subnormal, with single infinities/NaN; hypot: scaled triples of all "
         "exponents, overflow/underflow borders, subnormals; special functions inside their domain (also with padding elements outside of it); scalar arguments in every position; an evaluation is one "
         "element compared with the std:: function (1 ulp; hypot 2 ulp; special functions, which are contracted differently, 1e-4/1e-12; sin/cos 3 ulp or 2 epsilon absolute for |x| > 100) including the sign of zero; non-trivial: result differs from the argument")

CHECKS["N01"] = dict(
    oracle=["self_o.cpp"], configs=cfgs(["sse2", "skx", "sse2_O0", "sse2_strict", "avx2_20", "sse2_finite", "sse2_snan", "clang_sse2"]),
    units=lambda tier, cfg: [("n01_k.cpp", [], "all")], pch=None,
    rule="every trait of every arithmetic type (cv-qualified or not, with char8_t and __int128 where they exist) and of eleven types that are not arithmetic; an evaluation is one "
         "fact (value, type, existence, value_or, relation to the arithmetic of the type) observed at run time; all are distinct")

def AVAILABLE():
    """feature sets the CPU can execute"""
    try:
        cpu = set(next(l for l in open("/proc/cpuinfo") if l.startswith("flags")).split(":", 1)[1].split())
    except (OSError, StopIteration):
        return list(CONFIGS)
    return [n for n, c in CONFIGS.items() if set(c.get("needs", "").split()) <= cpu]

def t01_units(tier, cfg):
    al = {"sse2": ["ldouble", "char16"], "skx": ["ldouble", "char"], "avx": ["ullong", "wchar"], "knl": ["char32"]}.get(cfg, [])
    for i, t in enumerate(CORE):
        if tier == "quick" and cfg not in ("sse2", "skx") and i % 5 != list(CONFIGS).index(cfg) % 5:
            continue
        yield ("t01_k.cpp", ["-DVH_T=" + TYPES[t]], t)
    for t in (ALIAS if tier == "thorough" else al):
        yield ("t01_k.cpp", ["-DVH_T=" + TYPES[t]], t)
    if cfg in (("sse2", "skx") if tier == "quick" else ("sse2", "avx2", "skx")) and "skx" in AVAILABLE():
        al2 = ["-DALL"] if tier == "thorough" else []
        # callees for four feature sets, linked together; the later flags win
        yield ("t01x_k.cpp", ["-O1", "-DISA=x", "-DCALLER"] + al2, "x-caller")
        for isa in ("sse2", "avx2", "knl", "skx"):
            yield ("t01x_k.cpp", ["-mno-avx512f", "-mno-avx"] * (isa == "sse2") + CONFIGS[isa]["flags"].split() + ["-O1", "-DISA=" + isa] + al2, "x-" + isa)
CHECKS["T01"] = dict(
    oracle=["self_o.cpp"], configs=cfgs(QUICK + ["f_vl", "f_bw", "avx2_20", "clang_avx2"], THOROUGH + ["clang_avx2", "clang_sse2", "clang_skx"]), units=t01_units, pch="vh_pairs.h", flags=["-O0"],
    rule="every element count 0..66 (deduce and fixed_size), register tags of 25 byte counts, native, compatible and scalar per element type; rebinding to 8 element types and resizing to 8 counts; "
         "unusable combinations; an evaluation is one fact about a type or about the bytes of an object, compared with what the compiler's feature macros promise; all are distinct; sizes and alignments of "
         "fixed_size objects are also compared between feature sets, and fixed_size simds and masks are passed (by value, reference and pointer) between translation units compiled "
         "for different feature sets")

def t02_units(tier, cfg):
    for i, t in enumerate(CORE + ALIAS):
        if tier == "quick" and (i + 1) % 2 and cfg == "sse2" or cfg != "sse2" and i % 4 != list(CONFIGS).index(cfg) % 4:
            continue
        yield ("t02_k.cpp", ["-DVH_T=" + TYPES[t], "-DVH_LEVEL=%d" % (2 if tier == "thorough" else 1)], t)
CHECKS["T02"] = dict(
    oracle=["self_o.cpp"], configs=cfgs(["sse2", "avx2", "skx", "avx2_20", "clang_avx2"], ["sse2", "avx", "avx2", "knl", "skx", "avx2_20", "sse2_strict", "clang_sse2", "clang_skx"]),
    units=t02_units, pch="vh_pairs.h", flags=["-O0"],
    rule="per element type and ABI tag: 17 arithmetic types, bool, enumerations, classes and pointers as broadcast, generator result, reference operand, memory type and operand of every operator "
         "on either side; pairs of simd types of equal and different size; an evaluation is one overload-resolution probe (accepted or not, and the result type); all are distinct")

XALL = ["neon64", "neon32", "neonv7", "ppc8", "novec"]
XSUB = ["A01", "A02", "A03", "M01", "M02", "M03", "W01", "W02", "L01", "L02", "V01", "K01", "K02", "R01", "R02", "F01", "F02"]
def x01(run, composite):
    parts = []
    for j, sub in enumerate(XSUB):
        def units(tier, cfg, sub=sub, j=j):
            base = CHECKS[sub]["units"]
            us = [u for u in base(tier, cfg) if not any(a in u[1][0] for a in ("long double",)) and not u[2].startswith("x-")]
            yield from us if tier == "thorough" else spread(us, 1, 7 * j + 3 * XALL.index(cfg))
        parts.append((sub, XALL, units))
    composite(run, parts)
CHECKS["X01"] = dict(oracle=[], main=x01, configs=cfgs(XALL), rule="the kernels, inputs and oracles of the checks named in the keys, compiled with the NEON (AArch64, ARMv8-32, ARMv7) and POWER8 headers on top of an emulation of their "
         "intrinsics, and without any SIMD support (fixed_size only); an evaluation is one element compared with the scalar oracle; non-trivial as in those checks")

CSUB = XSUB
CMODES = ["m_20_sse2", "m_23_avx", "m_20_avx2", "m_20_skx", "m_uchar_sse41", "m_bare_knl", "m_O0_skx", "m_round_avx2", "m_round_sse41", "m_notrap_skx", "m_lto_avx", "m_fast_sse2", "m_fast_avx", "m_fast_avx2", "m_fast_skx"]
def c01(run, composite):
    parts = []
    for j, sub in enumerate(CSUB):
        def units(tier, cfg, sub=sub, j=j):
            us = [u for u in CHECKS[sub]["units"](tier, cfg) if not u[2].startswith("x-")]
            i, n = CMODES.index(cfg), 1
            fast = "fast" in cfg
            if fast and sub in ("F01", "F02"): # long double functions become x87 instructions
                us = [u for u in us if u[2][:7] != "ldouble"]
            if tier == "thorough":
                yield from us
                return
            if sub == "A02" and "20" in cfg: # shifts of signed integers have code of their own since C++20
                n = 4
            elif fast and sub in ("F01", "F02"): # as have some functions with -ffast-math
                us = [u for u in us if u[2][-2:] in (("-0", "-1") if sub == "F01" else ("-0",)) and u[2][0] in "fd"]
                n = 2
            elif fast and sub == "A01": # and division
                us = [u for u in us if u[2] in ("uchar", "schar", "ushort", "short", "int", "uint", "float", "double")]
                n = 2
            elif (i + j) % 3 == 0:
                return
            yield from spread(us, n, 5 * j + 3 * i)
        parts.append((sub, CMODES, units))
    composite(run, parts)
CHECKS["C01"] = dict(oracle=[], main=c01, configs=cfgs(CMODES), rule="the kernels, inputs and oracles of the checks named in the keys, compiled as C++20 and C++23, at -O0, -Os and -O3, without inlining, without exceptions and RTTI, with the debug "
         "assertions of the standard library, with unsigned char, with the library's optional conversions enabled, and with -ffast-math (ordinary operands, quotients within 3 ulp); an evaluation is one element compared with the scalar oracle; non-trivial as in those checks")

def p01_units(tier, cfg):
    i = list(CONFIGS).index(cfg)
    j = 0
    for g, gn in enumerate(["arith", "mask_reduce", "where", "convert", "math"]):
        for t in CORE if g < 4 else ["float", "double"]:
            j += 1
            if tier == "thorough" or (i + j) % 6 == 0:
                yield ("p01_k.cpp", ["-DVH_T=" + TYPES[t], "-DVH_G=%d" % g, "-DVH_LEVEL=%d" % (2 if tier == "thorough" else 0)], gn + "-" + t)
CHECKS["P01"] = dict(
    oracle=["self_o.cpp"], configs=cfgs(["sse2", "sse41", "avx", "avx2_O3", "knl", "skx", "m_20_skx"], THOROUGH + ["clang_sse2", "clang_avx2", "clang_skx"]),
    units=p01_units, pch="vh_pairs.h", flags=[],
    rule="each expression evaluated with opaque operands and with all, one or two constant operands, with a constant mask, and in a constant initialiser, on six operand sets (ordinary, mixed signs, extremes, "
         "all equal, zeros, special values), which the optimiser can fold; an evaluation is the comparison of all elements, reductions and stored bytes of one such form with the opaque one; all are distinct")

def p02_units(tier, cfg):
    for g in (0, 1):
        for t in ("float", "double"):
            yield ("p02_k.cpp", ["-DVH_T=" + TYPES[t], "-DVH_G=%d" % g, "-DVH_LEVEL=%d" % (2 if tier == "thorough" else 1)], "%s%d" % (t, g))
    i = list(CONFIGS).index(cfg)
    for j, t in enumerate(INTS):
        if tier == "thorough" or (i + j) % 3 == 0:
            yield ("p02_k.cpp", ["-DVH_T=" + TYPES[t], "-DVH_G=0", "-DVH_LEVEL=%d" % (2 if tier == "thorough" else 1)], t)
def p02_pad(tier, cfg):
    i = list(CONFIGS).index(cfg)
    j = 0
    for g, gn in enumerate(["arith", "mask_reduce", "where", "convert", "math"]):
        for t in CORE if g < 4 else ["float", "double"]:
            j += 1
            if tier == "thorough" or (2 * i + j) % 7 == 0:
                yield ("p01_k.cpp", ["-DVH_PAD", "-DVH_T=" + TYPES[t], "-DVH_G=%d" % g, "-DVH_LEVEL=%d" % (2 if tier == "thorough" else 0)], gn + "-" + t)
PARTS["flags"] = dict(oracle=["p02_o.cpp"], pch="vh_pairs.h")
PARTS["pad"] = dict(oracle=["self_o.cpp"], pch="vh_pairs.h")
def p02(run, composite):
    names = cfgs()(run.tier)
    composite(run, [("flags", names, p02_units), ("pad", names, p02_pad)])
CHECKS["P02"] = dict(
    oracle=[], main=p02, configs=cfgs(),
    rule="vectors of ordinary, of special and of random values whose padding was left by a load, a generator, element-wise writes, a cast, arithmetic or a broadcast; an evaluation is one operation, whose "
         "fetestexcept flags are compared with those of the same scalar operations on the N real elements, under a SIGFPE monitor (integer operations: no flag but inexact, and no trap in division and remainder); and about 150 operations (arithmetic, masks, reductions, where, casts, math) whose "
         "results with 15 different padding contents (0, 1, -1, extremes, infinity, NaN, denormals; in mask padding as well) are compared bit for bit with those on freshly loaded operands")

def san_log(run, name, rc, o, e):
    """Reports of the sanitizers and of the library's own checks."""
    seen = {}
    lib = os.path.join(REPO, "experimental") + os.sep
    for l in e.splitlines():
        m = re.match(r"(\S+?):(\d+):(\d+): runtime error: (.*)", l)
        if m and os.path.realpath(m.group(1)).startswith(lib):
            what = re.sub(r"0x[0-9a-f]+|-?\d[\d.e+]*", "N", m.group(4))[:90]
            seen.setdefault("ubsan|%s|%s|%s" % (os.path.basename(m.group(1)), what, name), l)
        elif m and os.environ.get("VH_DEBUG"):
            print(l)
        m = re.search(r"ERROR: (AddressSanitizer|MemorySanitizer|ThreadSanitizer): (\S+)", l)
        if m:
            seen.setdefault("%s|%s|%s" % (m.group(1), m.group(2), name), " / ".join(x.strip() for x in e[e.index(l):].splitlines()[:12]))
    for k, d in seen.items():
        run.add_fail(k, name, d)
    return len(seen)
def p03(run, composite):
    parts = []
    for j, sub in enumerate(XSUB):
        def units(tier, cfg, sub=sub, j=j):
            us = [u for u in CHECKS[sub]["units"](tier, cfg) if not u[2].startswith("x-")]
            yield from us if tier == "thorough" else spread(us, 1, 7 * j + 3 * PSAN.index(cfg))
        parts.append((sub, PSAN, units))
    composite(run, parts, sanitizer_log=san_log, env=dict(ASAN_OPTIONS="detect_leaks=0:allow_user_segv_handler=1", UBSAN_OPTIONS="print_stacktrace=0"))
PSAN = ["san_sse2", "san_avx2", "san_skx"]
CHECKS["P03"] = dict(oracle=[], main=p03, configs=cfgs(PSAN), rule="the kernels, inputs and oracles of the checks named in the keys, compiled with AddressSanitizer, UBSan, _GLIBCXX_DEBUG_UB and pattern-initialised automatic storage: an evaluation is one element "
         "result observed in such a run without a report; which units run rotates with the feature set")

def p04_units(tier, cfg):
    i = list(CONFIGS).index(cfg)
    for j, t in enumerate(CORE):
        for g in (0, 1):
            if tier == "thorough" or (j + 5 * g + i) % 3 == 0:
                yield ("p04_k.cpp", ["-DVH_T=" + TYPES[t], "-DVH_G=%d" % g, "-DVH_LEVEL=%d" % (2 if tier == "thorough" else 1)], "%s%d" % (t, g))
CHECKS["P04"] = dict(
    oracle=["self_o.cpp"], configs=cfgs(["tsan_sse2", "tsan_avx2", "tsan_skx", "sse2", "avx2", "knl", "skx"], ["tsan_sse2", "tsan_avx", "tsan_avx2", "tsan_knl", "tsan_skx", "sse2", "sse41", "avx", "avx2", "knl", "f_vl", "skx"]),
    units=p04_units, pch=None,
    technique="runtime monitoring: ThreadSanitizer and ownership monitors on concurrent executions",
    assumptions=["ThreadSanitizer sees plain loads and stores; AVX masked-store instructions are observed through the contents only"],
    rule="three threads store, load, masked-store and masked-load the elements they own (five ownership patterns, adjacent vectors of odd size, arrays of bool) and run about 50 operations on objects that are "
         "neighbours in memory; an evaluation is one owned element or result compared with what its owner wrote, or with the same operations without threads; distinct: operations during which another "
         "thread was seen to progress")

def x02(run, composite):
    import harness.x02 as m
    m.main(run, composite)
CHECKS["X02"] = dict(oracle=[], main=x02, configs=cfgs(["host"]),
    technique="runtime monitoring: the installer under a file-system monitor against a model of the directory contents; output comparison of programs",
    assumptions=["the stand-ins for install, rm, ... log every file operation", "GNU coreutils behave as documented"],
    rule="a sequence of install / uninstall / rejected calls of install.sh over seven include directories (spaces, leading dash, nested, default, read-only, missing), from several working directories; "
         "an evaluation is one fact: exit status, complete snapshot of the scratch tree against the model, no operation outside of it, a value a program built from the installed headers printed (compared with the "
         "source tree's), a value the debug header printed; distinct: different directory states reached")
