// The AltiVec intrinsics that the library uses (Power Vector Intrinsic Programming Reference).
#ifndef SHIM_ALTIVEC_H
#define SHIM_ALTIVEC_H
#define SHIM_F static inline __attribute__((always_inline, unused))
typedef int shim_v4si __attribute__((vector_size(16)));
SHIM_F int shim_sat(long long x) { return x > 0x7fffffffLL ? 0x7fffffff : x < -0x7fffffffLL - 1 ? -0x7fffffff - 1 : int(x); }
// element 3: saturating sum of all elements of a and element 3 of b; other elements zero
SHIM_F shim_v4si vec_sums(shim_v4si a, shim_v4si b)
{ long long s = b[3]; for (int i = 0; i < 4; ++i) s += a[i]; return shim_v4si{0, 0, 0, shim_sat(s)}; }
#define SHIM_SUM4S(T, N) SHIM_F shim_v4si vec_sum4s(T __attribute__((vector_size(16))) a, shim_v4si b) \
{ for (int i = 0; i < 4; ++i) { long long s = b[i]; for (int k = 0; k < N; ++k) s += a[i * N + k]; b[i] = shim_sat(s); } return b; }
SHIM_SUM4S(signed char, 4)
SHIM_SUM4S(short, 2)
#undef SHIM_F
#endif
