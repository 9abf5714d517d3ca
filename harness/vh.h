// Interface between kernel translation units (compiled once per feature set,
// include <experimental/simd>) and the oracle side (compiled once, plain
// scalar C++, never includes <experimental/simd>).
#ifndef VH_H
#define VH_H
#include <cstddef>
#include <cstdint>
#include <type_traits>

namespace vh {
enum Ty { I8, U8, I16, U16, I32, U32, I64, U64, F32, F64, F80, CHAR, LL, ULL, WC, C16, C32, BOOL, NTY };
template <class T> struct ty_of;
#define VH_TYPES(X) \
  X(I8, signed char) X(U8, unsigned char) X(I16, short) X(U16, unsigned short) \
  X(I32, int) X(U32, unsigned) X(I64, long) X(U64, unsigned long) X(F32, float) \
  X(F64, double) X(F80, long double) X(CHAR, char) X(LL, long long) \
  X(ULL, unsigned long long) X(WC, wchar_t) X(C16, char16_t) X(C32, char32_t) X(BOOL, bool)
#define X(e, t) template <> struct ty_of<t> { static constexpr Ty value = e; };
VH_TYPES(X)
#undef X
template <class T> inline constexpr Ty ty_v = ty_of<T>::value;
const char* ty_name(Ty);
int ty_size(Ty);

// A kernel applies one operation to nvec consecutive vectors.
typedef void (*kern)(const void* const* in, void* const* out, long nvec);

struct Reg
{
  const char* op;   // operation name; selects the oracle
  Ty t;             // element type
  Ty u;             // second type (conversions), else == t
  const char* abi;  // label of the ABI tag
  int n;            // number of elements
  int p;            // free parameter (literal shift count, ...)
  kern fn;
  const char* abi2; // label of second ABI (casts) or nullptr
  int n2;
};
void add(const Reg&);
// Under register pressure GCC moves 64-bit vectors through MMX registers and
// never resets the x87 tag word (a compiler matter); reset it here so that
// x87 code that runs later is not affected.
inline void call(const Reg& r, const void* const* in, void* const* out, long n)
{ r.fn(in, out, n); __asm__ volatile("emms" ::: "memory"); }

// failures / coverage, callable from either side
void fail(const char* key, const char* fmt, ...) __attribute__((format(printf, 2, 3)));
void check(bool ok, const char* key, const char* fmt, ...) __attribute__((format(printf, 3, 4)));
void count(long evaluations, long distinct);
void sample(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
void set_current(const char* fmt, ...) __attribute__((format(printf, 1, 2)));
extern const char* config;   // name of the feature set, from argv
extern bool thorough;
uint64_t seed();             // VERIF_SEED mixed
} // namespace vh
#endif
