// F02: transcendental, hypot and special functions
#include "vh_pairs.h"
#include <cmath>
#define K(NAME, ...) VH_KERNEL(NAME) { using T = typename V::value_type; constexpr int N = V::size(); for (long q = 0; q < n; ++q) { const V a = ld<V>(in[0], q), b = ld<V>(in[1], q), c = ld<V>(in[2], q); \
  const T s = static_cast<const T*>(in[1])[q * N]; (void)c; (void)b; (void)s; __VA_ARGS__; } }
#define FU stdx::fixed_size_simd<unsigned, N>
#define ldu(i) ld<FU>(in[i], q)
#define U(f) K(k_##f, st(out[0], q, f(a)))
#define B(f) K(k_##f, st(out[0], q, f(a, b)))
U(acos) U(asin) U(atan) U(sin) U(cos) U(tan) U(acosh) U(asinh) U(atanh) U(cosh) U(sinh) U(tanh)
U(exp) U(exp2) U(expm1) U(log) U(log10) U(log1p) U(log2) U(cbrt) U(erf) U(erfc) U(lgamma) U(tgamma)
B(atan2) B(pow) B(hypot)
K(k_hypot3, st(out[0], q, hypot(a, b, c)))
K(k_powS, st(out[0], q, pow(a, s))) K(k_Spow, st(out[0], q, pow(s, a))) K(k_powI, st(out[0], q, pow(a, 2))) K(k_powIb, st(out[0], q, pow(2, a)))
K(k_atan2S, st(out[0], q, atan2(a, s))) K(k_Satan2, st(out[0], q, atan2(s, a)))
K(k_hypotS, st(out[0], q, hypot(a, s))) K(k_Shypot, st(out[0], q, hypot(s, a)))
K(k_hypotVVS, st(out[0], q, hypot(a, b, s))) K(k_hypotVSV, st(out[0], q, hypot(a, s, b))) K(k_hypotSVV, st(out[0], q, hypot(s, a, b)))
K(k_hypotVSS, st(out[0], q, hypot(a, s, s))) K(k_hypotSVS, st(out[0], q, hypot(s, a, s))) K(k_hypotSSV, st(out[0], q, hypot(s, s, a)))
K(k_sincos, const V x = sin(a), y = cos(a); st(out[0], q, x * x + y * y))
// special functions
U(comp_ellint_1) U(comp_ellint_2) U(expint) U(riemann_zeta)
B(beta) B(comp_ellint_3) B(cyl_bessel_i) B(cyl_bessel_j) B(cyl_bessel_k) B(cyl_neumann) B(ellint_1) B(ellint_2)
K(k_ellint_3, st(out[0], q, ellint_3(a, b, c)))
K(k_betaS, st(out[0], q, beta(a, s))) K(k_Sbeta, st(out[0], q, beta(s, a)))
K(k_assoc_laguerre, st(out[0], q, assoc_laguerre(ldu(3), ldu(4), a)))
K(k_assoc_legendre, st(out[0], q, assoc_legendre(ldu(3), ldu(4), a)))
K(k_sph_legendre, st(out[0], q, sph_legendre(ldu(3), ldu(4), a)))
K(k_hermite, st(out[0], q, hermite(ldu(3), a))) K(k_laguerre, st(out[0], q, laguerre(ldu(3), a))) K(k_legendre, st(out[0], q, legendre(ldu(3), a)))
K(k_sph_bessel, st(out[0], q, sph_bessel(ldu(3), a))) K(k_sph_neumann, st(out[0], q, sph_neumann(ldu(3), a)))
// elements assigned under a mask: padding keeps a value outside the domain
K(k_dlegendre, V x = T(200); where(a == a, x) = a; st(out[0], q, legendre(ldu(3), x)))
K(k_dcomp_ellint_1, V x = T(200); where(a == a, x) = a; st(out[0], q, comp_ellint_1(x)))
K(k_dcyl_bessel_j, V x = T(-200); where(a == a, x) = a; V y = T(-200); where(b == b, y) = b; st(out[0], q, cyl_bessel_j(x, y)))

template <class T, int L> void regs()
{
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
    constexpr int N = V::size();
#define R(x) reg(#x, l, k_##x<V>)
#define PICK(mod, salt) if constexpr (vh_pick(L, mod, salt, N, sizeof(T), std::is_floating_point_v<T>))
#if VH_G == 0
    R(sin); R(cos); R(hypot); R(hypot3);
    PICK(3, 1) { R(sincos); R(hypotS); R(Shypot); }
    PICK(4, 2) { R(hypotVVS); R(hypotVSV); R(hypotSVV); }
    PICK(4, 3) { R(hypotVSS); R(hypotSVS); R(hypotSSV); }
#elif VH_G == 1
    PICK(3, 4) { R(acos); R(asin); R(atan); R(tan); }
    PICK(3, 5) { R(acosh); R(asinh); R(atanh); R(cosh); R(sinh); R(tanh); }
    PICK(3, 6) { R(exp); R(exp2); R(expm1); R(log); R(log10); R(log1p); R(log2); }
    PICK(3, 7) { R(cbrt); R(erf); R(erfc); R(lgamma); R(tgamma); }
    PICK(2, 8) { R(atan2); R(pow); }
    PICK(3, 9) { R(powS); R(Spow); R(powI); R(powIb); R(atan2S); R(Satan2); }
#else
    PICK(4, 10) { R(comp_ellint_1); R(comp_ellint_2); R(expint); R(riemann_zeta); R(beta); R(comp_ellint_3); R(betaS); R(Sbeta); R(dcomp_ellint_1); }
    PICK(4, 11) { R(cyl_bessel_i); R(cyl_bessel_j); R(cyl_bessel_k); R(cyl_neumann); R(ellint_1); R(ellint_2); R(ellint_3); }
    PICK(4, 12) { R(assoc_laguerre); R(assoc_legendre); R(sph_legendre); R(hermite); }
    PICK(4, 13) { R(laguerre); R(legendre); R(sph_bessel); R(sph_neumann); R(dlegendre); R(dcyl_bessel_j); }
#endif
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
