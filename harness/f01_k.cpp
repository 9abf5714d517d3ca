// F01: math functions with exactly specified results
#include "vh_pairs.h"
#include <cmath>
#define K(NAME, ...) VH_KERNEL(NAME) { using T = typename V::value_type; constexpr int N = V::size(); for (long q = 0; q < n; ++q) { const V a = ld<V>(in[0], q), b = ld<V>(in[1], q), c = ld<V>(in[2], q); \
  const T s = static_cast<const T*>(in[1])[q * N]; (void)c; (void)b; (void)s; __VA_ARGS__; } }
#define FI stdx::fixed_size_simd<int, N>
#define FL stdx::fixed_size_simd<long, N>
#define U(f) K(k_##f, st(out[0], q, f(a)))
#define UX(f, R) K(k_##f, static_assert(std::is_same_v<decltype(f(a)), R>, ""); st(out[0], q, f(a)))
#define UM(f) K(k_##f, static_assert(std::is_same_v<decltype(f(a)), typename V::mask_type>, ""); stm(out[0], q, f(a)))
#define B(f) K(k_##f, st(out[0], q, f(a, b)))
#define BM(f) K(k_##f, static_assert(std::is_same_v<decltype(f(a, b)), typename V::mask_type>, ""); stm(out[0], q, f(a, b)))
using stdx::isinf; using stdx::isnan; using stdx::isfinite; using stdx::isnormal; using stdx::signbit; using stdx::fpclassify; using stdx::isgreater; using stdx::isgreaterequal; using stdx::isless; using stdx::islessequal;
using stdx::islessgreater; using stdx::isunordered;
U(abs) U(fabs) U(ceil) U(floor) U(trunc) U(round) U(rint) U(nearbyint) U(sqrt) U(logb)
UX(lrint, FL) UX(lround, FL) UX(ilogb, FI) UX(fpclassify, FI)
K(k_llrint, st(out[0], q, llrint(a))) K(k_llround, st(out[0], q, llround(a)))
UM(isfinite) UM(isinf) UM(isnan) UM(isnormal) UM(signbit)
B(fmod) B(remainder) B(copysign) B(fmin) B(fmax) B(fdim) B(nextafter)
BM(isgreater) BM(isgreaterequal) BM(isless) BM(islessequal) BM(islessgreater) BM(isunordered)
K(k_fma, st(out[0], q, fma(a, b, c)))
K(k_frexp, FI e = 77; st(out[0], q, frexp(a, &e)); st(out[1], q, e))
K(k_modf, V e = T(77); st(out[0], q, modf(a, &e)); st(out[1], q, e))
K(k_remquo, FI e = 77; st(out[0], q, remquo(a, b, &e)); st(out[1], q, e))
K(k_ldexp, st(out[0], q, ldexp(a, ld<FI>(in[3], q))))
K(k_scalbn, st(out[0], q, scalbn(a, ld<FI>(in[3], q))))
K(k_scalbln, st(out[0], q, scalbln(a, ld<FL>(in[4], q))))
// scalar arguments
K(k_fmodS, st(out[0], q, fmod(a, s)))
K(k_Sfmod, st(out[0], q, fmod(s, a)))
K(k_fminS, st(out[0], q, fmin(a, s)))
K(k_Sfmax, st(out[0], q, fmax(s, a)))
K(k_fmaS, st(out[0], q, fma(a, b, s)))
K(k_Sfma, st(out[0], q, fma(s, a, b)))
K(k_fmaSS, st(out[0], q, fma(s, a, s)))
K(k_fmaI, st(out[0], q, fma(2, a, 1)))
K(k_ldexpI, st(out[0], q, ldexp(a, static_cast<const int*>(in[3])[q * N])))
K(k_fminI, st(out[0], q, fmin(a, 3)))
// integral overloads
K(k_iabs, st(out[0], q, abs(a))) K(k_ifabs, st(out[0], q, fabs(a)))
K(k_isignbit, stm(out[0], q, signbit(a)))
// functions of computed operands, results reused
K(k_negabs, st(out[0], q, -abs(-a)))
K(k_whereround, V r = a; where(isfinite(a), r) = floor(a) + ceil(b); st(out[0], q, r))
K(k_selnan, V r = a; where(isnan(a) || isinf(b), r) = T(3); st(out[0], q, r))

template <class T, int L> void regs()
{
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
    constexpr int N = V::size();
#define R(x) reg(#x, l, k_##x<V>)
#define PICK(mod, salt) if constexpr (vh_pick(L, mod, salt, N, sizeof(T), std::is_floating_point_v<T>))
    if constexpr (std::is_floating_point_v<T>)
      {
#if VH_G == 0
	R(abs); R(ceil); R(floor); R(trunc); R(round); R(rint); R(nearbyint); R(sqrt); R(logb); R(fabs);
	R(isfinite); R(isinf); R(isnan); R(isnormal); R(signbit); R(fpclassify);
	PICK(2, 1) { R(negabs); R(whereround); R(selnan); }
#elif VH_G == 1
	R(frexp); R(modf); R(copysign); R(fmin); R(fmax); R(fma);
	PICK(2, 2) { R(isgreater); R(isgreaterequal); R(isless); R(islessequal); R(islessgreater); R(isunordered); }
	PICK(2, 12) { R(fminS); R(Sfmax); R(fminI); }
	PICK(3, 3) { R(fmaS); R(Sfma); R(fmaSS); R(fmaI); }
#else
	PICK(2, 3) { R(ilogb); R(lrint); R(lround); }
	PICK(2, 4) { R(llrint); R(llround); R(fdim); }
	PICK(2, 5) { R(fmod); R(remainder); R(nextafter); }
	PICK(2, 6) { R(ldexp); R(remquo); }
	PICK(3, 7) { R(scalbn); R(scalbln); R(ldexpI); R(fmodS); R(Sfmod); }
#endif
      }
    else
      {
	if constexpr (std::is_signed_v<T>) { R(iabs); R(ifabs); }
	R(isignbit);
      }
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
