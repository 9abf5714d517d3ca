// Kernel side: enumeration of (source, destination) simd type pairs.
#ifndef VH_PAIRS_H
#define VH_PAIRS_H
#include "vh_kernel.h"
template <class T, int N, class = void> struct has_deduce : std::false_type {};
template <class T, int N> struct has_deduce<T, N, std::void_t<stdx::simd_abi::deduce_t<T, N>>>
: std::bool_constant<stdx::is_simd_v<stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>> && std::is_default_constructible_v<stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>>> {};
template <class V, class W> void regp(const char* op, VL<V> a, VL<W> b, kern k, int p = 0)
{
  vh::add({op, vh::ty_v<typename V::value_type>, vh::ty_v<typename W::value_type>, a.name, int(V::size()), p, k, b.name, int(W::size())});
}
template <class T, int N, class F> void if_deduce(F&& f)
{
  if constexpr (N >= 1 && N <= stdx::simd_abi::max_fixed_size<T>)
    if constexpr (has_deduce<T, N>::value) f(VL<stdx::simd<T, stdx::simd_abi::deduce_t<T, N>>>{"deduce"});
}
template <class T, int N, class F> void if_fixed(F&& f)
{
  if constexpr (N >= 1 && N <= stdx::simd_abi::max_fixed_size<T>) f(VL<stdx::fixed_size_simd<T, N>>{"fixed"});
}
// every value of From is a value of To
template <class From, class To> constexpr bool value_preserving()
{
  using F = std::numeric_limits<From>; using L = std::numeric_limits<To>;
  if (std::is_floating_point_v<From> && !std::is_floating_point_v<To>) return false;
  if (std::is_signed_v<From> && std::is_unsigned_v<To>) return false;
  return F::digits <= L::digits && (!std::is_floating_point_v<From> || (F::max_exponent <= L::max_exponent && F::min_exponent >= L::min_exponent));
}
template <class... Ts> struct TL {};
template <class F, class... Ts> void each_type(TL<Ts...>, F&& f) { (f((Ts*)nullptr), ...); }
template <class V> inline constexpr bool is_fixed = false;
template <class T, int N> inline constexpr bool is_fixed<stdx::fixed_size_simd<T, N>> = true;
// Selects a share of 1/mod of the combinations, different for every feature
// set; everything on the thorough tier.
#ifndef VH_CFG
#define VH_CFG 0
#endif
constexpr bool vh_pick(int level, unsigned mod, unsigned a, unsigned b = 0, unsigned c = 0, unsigned d = 0)
{
  if (level >= 2) return true;
  unsigned h = 2166136261u;
  for (unsigned x : {a, b, c, d}) h = ((h ^ x) * 16777619u) ^ (h >> 15);
  h ^= h >> 13;
  return (h + VH_CFG) % mod == 0;
}
#endif
