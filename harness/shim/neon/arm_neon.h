// The NEON types and intrinsics that the library uses, as documented by Arm (ACLE, Neon intrinsics reference), in portable GNU C++.
#ifndef SHIM_ARM_NEON_H
#define SHIM_ARM_NEON_H
#include <cstdint>
#define SHIM_T(T, B, N) typedef T B##x##N##_t __attribute__((vector_size(sizeof(T) * N)))
SHIM_T(float, float32, 2); SHIM_T(float, float32, 4); SHIM_T(double, float64, 1); SHIM_T(double, float64, 2);
SHIM_T(signed char, int8, 8); SHIM_T(signed char, int8, 16); SHIM_T(short, int16, 4); SHIM_T(short, int16, 8);
SHIM_T(int, int32, 2); SHIM_T(int, int32, 4); SHIM_T(long, int64, 1); SHIM_T(long, int64, 2);
SHIM_T(unsigned char, uint8, 8); SHIM_T(unsigned char, uint8, 16); SHIM_T(unsigned short, uint16, 4); SHIM_T(unsigned short, uint16, 8);
SHIM_T(unsigned, uint32, 2); SHIM_T(unsigned, uint32, 4); SHIM_T(unsigned long, uint64, 1); SHIM_T(unsigned long, uint64, 2);
#undef SHIM_T
#define SHIM_F static inline __attribute__((always_inline, unused))
// pairwise addition: pairs of the first operand, then pairs of the second
#define SHIM_PADD(NAME, V, N) SHIM_F V NAME(V a, V b) { V r; for (int i = 0; i < N / 2; ++i) { r[i] = a[2 * i] + a[2 * i + 1]; r[i + N / 2] = b[2 * i] + b[2 * i + 1]; } return r; }
SHIM_PADD(vpadd_s8, int8x8_t, 8)
SHIM_PADD(vpadd_s16, int16x4_t, 4)
SHIM_PADD(vpadd_s32, int32x2_t, 2)
SHIM_PADD(vpadd_u8, uint8x8_t, 8)
SHIM_PADD(vpadd_u16, uint16x4_t, 4)
SHIM_PADD(vpadd_u32, uint32x2_t, 2)
SHIM_PADD(vpadd_f32, float32x2_t, 2)
#ifdef __aarch64__
SHIM_PADD(vpaddq_s8, int8x16_t, 16)
SHIM_PADD(vpaddq_s16, int16x8_t, 8)
SHIM_PADD(vpaddq_s32, int32x4_t, 4)
SHIM_PADD(vpaddq_s64, int64x2_t, 2)
SHIM_PADD(vpaddq_u8, uint8x16_t, 16)
SHIM_PADD(vpaddq_u16, uint16x8_t, 8)
SHIM_PADD(vpaddq_u32, uint32x4_t, 4)
// addition across the vector, modulo the element type
#define SHIM_ADDV(NAME, T, V, N) SHIM_F T NAME(V a) { T r = 0; for (int i = 0; i < N; ++i) r = T(r + a[i]); return r; }
SHIM_ADDV(vaddv_s8, int8_t, int8x8_t, 8)
SHIM_ADDV(vaddv_s16, int16_t, int16x4_t, 4)
SHIM_ADDV(vaddv_s32, int32_t, int32x2_t, 2)
SHIM_ADDV(vaddvq_s8, int8_t, int8x16_t, 16)
SHIM_ADDV(vaddvq_s16, int16_t, int16x8_t, 8)
SHIM_ADDV(vaddvq_s32, int32_t, int32x4_t, 4)
SHIM_ADDV(vaddv_u8, uint8_t, uint8x8_t, 8)
SHIM_ADDV(vaddv_u16, uint16_t, uint16x4_t, 4)
SHIM_ADDV(vaddv_u32, uint32_t, uint32x2_t, 2)
SHIM_ADDV(vaddvq_u8, uint8_t, uint8x16_t, 16)
SHIM_ADDV(vaddvq_u16, uint16_t, uint16x8_t, 8)
SHIM_ADDV(vaddvq_u32, uint32_t, uint32x4_t, 4)
SHIM_ADDV(vaddvq_s64, int64_t, int64x2_t, 2)
#endif
#define SHIM_FP(NAME, V, N, ...) SHIM_F V NAME(V a) { for (int i = 0; i < N; ++i) a[i] = __VA_ARGS__(a[i]); return a; }
#if defined __aarch64__ || __ARM_ARCH >= 8
#define SHIM_RND(S, V, N, F) SHIM_FP(vrnd##S, V, N, __builtin_trunc##F) SHIM_FP(vrnda##S, V, N, __builtin_round##F) SHIM_FP(vrndm##S, V, N, __builtin_floor##F) \
  SHIM_FP(vrndp##S, V, N, __builtin_ceil##F) SHIM_FP(vrndn##S, V, N, __builtin_roundeven##F) SHIM_FP(vrndx##S, V, N, __builtin_rint##F)
SHIM_RND(_f32, float32x2_t, 2, f)
SHIM_RND(q_f32, float32x4_t, 4, f)
#endif
#ifdef __aarch64__
SHIM_RND(_f64, float64x1_t, 1, )
SHIM_RND(q_f64, float64x2_t, 2, )
SHIM_FP(vsqrt_f32, float32x2_t, 2, __builtin_sqrtf)
SHIM_FP(vsqrtq_f32, float32x4_t, 4, __builtin_sqrtf)
SHIM_FP(vsqrt_f64, float64x1_t, 1, __builtin_sqrt)
SHIM_FP(vsqrtq_f64, float64x2_t, 2, __builtin_sqrt)
#endif
// float to integer: toward zero, saturating, NaN to zero
SHIM_F int shim_cvt(float x) { return x != x ? 0 : x >= 0x1p31f ? 0x7fffffff : x <= -0x1p31f ? -0x7fffffff - 1 : int(x); }
SHIM_F int32x2_t vcvt_s32_f32(float32x2_t a) { int32x2_t r; for (int i = 0; i < 2; ++i) r[i] = shim_cvt(a[i]); return r; }
SHIM_F int32x4_t vcvtq_s32_f32(float32x4_t a) { int32x4_t r; for (int i = 0; i < 4; ++i) r[i] = shim_cvt(a[i]); return r; }
SHIM_F float32x2_t vcvt_f32_s32(int32x2_t a) { return __builtin_convertvector(a, float32x2_t); }
SHIM_F float32x4_t vcvtq_f32_s32(int32x4_t a) { return __builtin_convertvector(a, float32x4_t); }
#undef SHIM_F
#undef SHIM_FP
#undef SHIM_PADD
#undef SHIM_ADDV
#endif
