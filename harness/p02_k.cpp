// P02: floating-point status flags raised by operations on simds with padding elements.
// in: a, b, mask; out[0]: result elements, out[1]: raised flags
#include "vh_pairs.h"
#include <cfenv>
namespace {
enum { H_LOAD, H_GEN, H_SET, H_WHERE, H_CVT, H_OP, H_BCAST, H_N };
template <class V> [[gnu::noipa]] V lastop(V a) { return +a; }
// an operand with the given elements, its padding as left behind by different histories
template <class V> [[gnu::noipa]] V operand(const typename V::value_type* m, unsigned how)
{
  using T = typename V::value_type;
  constexpr int N = V::size();
  switch (how % H_N)
    {
    case H_GEN: return V([&](auto i) { return m[i]; });
    case H_SET: { V r = 0; for (int i = 0; i < N; ++i) r[i] = m[i]; return r; }
    case H_WHERE: { V r = 0; const V x(m, stdx::element_aligned); where(x == x, r) = x; where(x != x, r) = x; return r; }
    case H_CVT: { const stdx::fixed_size_simd<T, N> x(m, stdx::element_aligned); return stdx::static_simd_cast<V>(x); }
    case H_OP: { const V x(m, stdx::element_aligned); return lastop(x); }
    case H_BCAST: { V r = T(2); for (int i = 0; i < N; ++i) r[i] = m[i]; return r; }
    default: return V(m, stdx::element_aligned);
    }
}
template <class T> const T* el(const void* p, long i, int n) { return static_cast<const T*>(p) + i * n; }
template <class V> struct Ops
{
  using T = typename V::value_type; using M = typename V::mask_type; static constexpr int N = V::size();
  using F = stdx::fixed_size_simd<int, N>;
#define OP(NAME, RET, ...) [[gnu::noipa]] static RET o_##NAME(const V& a, const V& b, const M& k) { (void)a; (void)b; (void)k; __VA_ARGS__; }
  OP(add, V, return a + b) OP(sub, V, return a - b) OP(mul, V, return a * b) OP(div, V, return a / b) OP(neg, V, return -a)
  OP(adds, V, return a + b[0]) OP(sdiv, V, return b[0] / a) OP(cdiv, V, V r = a; r /= b; return r) OP(inc, V, V r = a; ++r; return r) OP(dec, V, V r = a; r--; return r)
  OP(eq, M, return a == b) OP(ne, M, return a != b) OP(lt, M, return a < b) OP(le, M, return a <= b) OP(gt, M, return a > b) OP(ge, M, return a >= b) OP(lnot, M, return !a)
  OP(wadd, V, V r = a; where(k, r) += b; return r) OP(wdiv, V, V r = a; where(k, r) /= b; return r) OP(wmul, V, V r = a; where(k, r) *= b; return r) OP(wneg, V, return -where(k, a)) OP(winc, V, V r = a; ++where(k, r); return r)
  OP(wasg, V, V r = a; where(k, r) = b; return r) OP(ldst, V, T m[N]; a.copy_to(m, stdx::element_aligned); return V(m, stdx::element_aligned))
  OP(min, V, return stdx::min(a, b)) OP(max, V, return stdx::max(a, b))
  OP(sqrt, V, return sqrt(a)) OP(abs, V, return abs(a)) OP(fma, V, return fma(a, b, a)) OP(copysign, V, return copysign(a, b))
  OP(isnan, M, return isnan(a)) OP(isinf, M, return isinf(a)) OP(isfinite, M, return isfinite(a)) OP(isnormal, M, return isnormal(a)) OP(signbit, M, return signbit(a)) OP(isunordered, M, return isunordered(a, b))
  OP(isless, M, return isless(a, b)) OP(isgreaterequal, M, return isgreaterequal(a, b)) OP(islessgreater, M, return islessgreater(a, b))
  OP(fmin, V, return fmin(a, b)) OP(fmax, V, return fmax(a, b)) OP(ldexp, V, return ldexp(a, F(1))) OP(fmod, V, return fmod(a, b))
  OP(rsum, V, return V(reduce(a))) OP(rmul, V, return V(reduce(a, std::multiplies<>()))) OP(hmin, V, return V(hmin(a))) OP(hmax, V, return V(hmax(a))) OP(rwsum, V, return V(reduce(where(k, a))))
  OP(todouble, V, if constexpr (sizeof(T) == 4) { auto d = stdx::static_simd_cast<stdx::fixed_size_simd<double, N>>(stdx::to_fixed_size(a)); return V([&](auto i) { return T(d[i]); }); } else return a)
  OP(toint, V, auto d = stdx::static_simd_cast<F>(stdx::to_fixed_size(a)); return V([&](auto i) { return T(d[i]); }))
  OP(toint2, V, if constexpr (has_deduce<int, N>::value) { auto d = stdx::static_simd_cast<stdx::simd<int, stdx::simd_abi::deduce_t<int, N>>>(a); return V([&](auto i) { return T(d[i]); }); } else return a)
  OP(tofloat2, V, if constexpr (has_deduce<float, N>::value && sizeof(T) == 8) { auto d = stdx::static_simd_cast<stdx::simd<float, stdx::simd_abi::deduce_t<float, N>>>(a); return V([&](auto i) { return T(d[i]); }); } else return a)
};
// integers: only inexact may be raised (division and conversion go through floating point)
template <class V> struct IOps
{
  using T = typename V::value_type; using M = typename V::mask_type; static constexpr int N = V::size();
  OP(idiv, V, return a / b) OP(icdiv, V, V r = a; r /= b; return r) OP(imod, V, return a % b) OP(imul, V, return a * b) OP(idivs, V, return a / b[0]) OP(isdiv, V, return b[0] / a)
  OP(imods, V, return a % b[0]) OP(idiv3, V, return a / T(3)) OP(iwdiv, V, V r = a; where(k, r) /= b; return r) OP(iwmod, V, V r = a; where(k, r) %= b; return r)
  OP(iadd, V, return a + b) OP(ishl, V, return (a & V(T(3))) << (b & V(T(3)))) OP(ishr, V, return a >> (b & V(T(7)))) OP(ilt, M, return a < b) OP(iwadd, V, V r = a; where(k, r) += b; return r)
  template <class U, class W> static V conv(const W& a) { const auto d = stdx::static_simd_cast<U>(a); return V([&](auto i) { return T(d[i] != 0); }); }
  OP(itofloat, V, if constexpr (N <= 32) return (conv<stdx::fixed_size_simd<float, N>>(stdx::to_fixed_size(a))); else return a) OP(itodouble, V, if constexpr (N <= 32) return (conv<stdx::fixed_size_simd<double, N>>(stdx::to_fixed_size(a))); else return a)
  OP(itofloat2, V, if constexpr (has_deduce<float, N>::value) return (conv<stdx::simd<float, stdx::simd_abi::deduce_t<float, N>>>(a)); else return a)
  OP(itodouble2, V, if constexpr (has_deduce<double, N>::value) return (conv<stdx::simd<double, stdx::simd_abi::deduce_t<double, N>>>(a)); else return a)
  OP(istore, V, float m[N]; a.copy_to(m, stdx::element_aligned); return V([&](auto i) { return T(m[i] != 0); })) OP(istored, V, double m[N]; a.copy_to(m, stdx::element_aligned); return V([&](auto i) { return T(m[i] != 0); }))
  OP(irsum, V, return V(reduce(a))) OP(ihmax, V, return V(hmax(a))) OP(imin, V, return stdx::min(a, b)) OP(iabs, V, if constexpr (std::is_signed_v<T>) return abs(a); else return a)
};
template <class V, auto O> [[gnu::noipa]] void kern_(const void* const* in, void* const* out, long n)
{
  using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = V::size();
  for (long i = 0; i < n; ++i)
    {
      const bool* kb = static_cast<const bool*>(in[2]) + i * N;
      const V a = operand<V>(el<T>(in[0], i, N), unsigned(i)), b = operand<V>(el<T>(in[1], i, N), unsigned(i / H_N));
      const M k(kb, stdx::element_aligned);
      std::feclearexcept(FE_ALL_EXCEPT);
      const auto r = O(a, b, k);
      static_cast<int*>(out[1])[i] = std::fetestexcept(FE_ALL_EXCEPT);
      T* o = static_cast<T*>(out[0]) + i * N;
      for (int j = 0; j < N; ++j) o[j] = r[j];
    }
}
template <class T> void regs()
{
  auto fi = [](auto l) {
    using V = typename decltype(l)::type; using O = IOps<V>;
#define R(x) reg(#x, l, kern_<V, O::o_##x>);
    R(idiv) R(icdiv) R(imod) R(imul) R(idivs) R(isdiv) R(imods) R(idiv3) R(iwdiv) R(iwmod) R(iadd) R(ishl) R(ishr) R(ilt) R(iwadd)
    R(itofloat) R(itodouble) R(itofloat2) R(itodouble2) R(istore) R(istored) R(irsum) R(ihmax) R(imin) R(iabs)
#undef R
  };
  if constexpr (!std::is_floating_point_v<T>)
    {
      for_each<T>(fi, VH_N, VH_D(3), VH_F(7));
      if constexpr (sizeof(T) <= 4) for_each<T>(fi, VH_D(2));
      if constexpr (sizeof(T) <= 2) for_each<T>(fi, VH_D(13));
      if constexpr (VH_LEVEL >= 2) for_each<T>(fi, VH_D(5), VH_D(6), VH_D(7), VH_D(9), VH_D(11), VH_F(3), VH_F(15), VH_F(31));
    }
  else {
  auto f = [](auto l) {
    using V = typename decltype(l)::type; using O = Ops<V>;
#define R(x) reg(#x, l, kern_<V, O::o_##x>);
#if VH_G == 0
    R(add) R(sub) R(mul) R(div) R(neg) R(adds) R(sdiv) R(cdiv) R(inc) R(dec) R(eq) R(ne) R(lt) R(le) R(gt) R(ge) R(lnot) R(wadd) R(wdiv) R(wmul) R(wneg) R(winc) R(wasg) R(ldst)
    R(rsum) R(rmul) R(hmin) R(hmax) R(rwsum) R(todouble) R(toint) R(toint2) R(tofloat2)
#else
    R(min) R(max) R(sqrt) R(abs) R(fma) R(copysign) R(isnan) R(isinf) R(isfinite) R(isnormal) R(signbit) R(isunordered) R(isless) R(isgreaterequal) R(islessgreater)
    R(fmin) R(fmax) R(ldexp) R(fmod)
#endif
  };
  for_each<T>(f, VH_N, VH_D(3), VH_F(3), VH_D(7), VH_F(7));
  if constexpr (sizeof(T) == 4) for_each<T>(f, VH_D(2), VH_D(5), VH_D(13), VH_F(12));
  else for_each<T>(f, VH_D(5), VH_F(5));
  if constexpr (VH_LEVEL >= 2)
    {
      for_each<T>(f, VH_F(1), VH_F(2), VH_F(9), VH_F(15), VH_F(31));
      if constexpr (sizeof(T) == 4) for_each<T>(f, VH_D(6), VH_D(9), VH_D(11), VH_D(15)); else for_each<T>(f, VH_D(6));
    }
  }
}
}
static int init = [] { regs<VH_T>(); return 0; }();
