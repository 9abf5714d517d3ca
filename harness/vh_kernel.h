// Kernel-side utilities; the only place that touches <experimental/simd>.
#ifndef VH_KERNEL_H
#define VH_KERNEL_H
#include <experimental/simd>
#include "vh.h"
#include <cstring>
#include <limits>

namespace stdx = std::experimental;
using vh::kern;

template <class V> struct VL { using type = V; const char* name; };

// calls f(VL<simd<T, Abi>>) for every ABI of the list for T
#define VH_D(n) VL<stdx::simd<T, stdx::simd_abi::deduce_t<T, n>>>{"deduce<" #n ">"}
#define VH_F(n) VL<stdx::simd<T, stdx::simd_abi::fixed_size<n>>>{"fixed_size<" #n ">"}
#define VH_S VL<stdx::simd<T, stdx::simd_abi::scalar>>{"scalar"}
#define VH_N VL<stdx::native_simd<T>>{"native"}
#define VH_C VL<stdx::simd<T>>{"compatible"}

template <class T, class F, class... Ls> void for_each(F&& f, Ls... ls) { (f(ls), ...); }

// level 0: few, 1: quick default, 2: everything
template <class T, int Level = 1, class F> void for_abis(F&& f)
{
  if constexpr (sizeof(T) > 8)
    {
      for_each<T>(f, VH_S, VH_F(1), VH_F(2), VH_F(3));
      if constexpr (Level >= 1) for_each<T>(f, VH_F(4), VH_F(8), VH_F(15));
      if constexpr (Level >= 2) for_each<T>(f, VH_F(5), VH_F(17), VH_F(31), VH_F(32));
    }
  else
    {
      for_each<T>(f, VH_S, VH_N, VH_C);
      if constexpr (sizeof(T) == 1)
	{
	  for_each<T>(f, VH_D(3), VH_D(8), VH_F(13), VH_F(19));
	  if constexpr (Level >= 1) for_each<T>(f, VH_D(2), VH_D(7), VH_D(13), VH_D(32), VH_D(27), VH_F(1), VH_F(5), VH_F(16), VH_F(32), VH_F(31));
	  if constexpr (Level >= 1 && stdx::simd_abi::max_fixed_size<T> >= 64) for_each<T>(f, VH_D(48), VH_D(37), VH_D(64));
	  if constexpr (Level >= 2) for_each<T>(f, VH_D(4), VH_D(5), VH_D(6), VH_D(9), VH_D(11), VH_D(15), VH_D(16), VH_D(17), VH_D(24), VH_D(31),
	      VH_F(2), VH_F(3), VH_F(4), VH_F(7), VH_F(8), VH_F(9), VH_F(12), VH_F(17), VH_F(24), VH_F(25), VH_F(29));
	  if constexpr (Level >= 2 && stdx::simd_abi::max_fixed_size<T> >= 64) for_each<T>(f, VH_D(33), VH_D(57), VH_D(63), VH_F(40), VH_F(64), VH_F(61));
	}
      else if constexpr (sizeof(T) == 2)
	{
	  for_each<T>(f, VH_D(3), VH_D(4), VH_F(7), VH_F(13));
	  if constexpr (Level >= 1) for_each<T>(f, VH_D(2), VH_D(7), VH_D(16), VH_D(13), VH_D(32), VH_D(27), VH_F(1), VH_F(5), VH_F(8), VH_F(16), VH_F(31), VH_F(32));
	  if constexpr (Level >= 2) for_each<T>(f, VH_D(5), VH_D(6), VH_D(8), VH_D(9), VH_D(11), VH_D(15), VH_D(17), VH_D(24), VH_D(31),
	      VH_F(2), VH_F(3), VH_F(4), VH_F(9), VH_F(12), VH_F(17), VH_F(24), VH_F(25), VH_F(29));
	}
      else if constexpr (sizeof(T) == 4)
	{
	  for_each<T>(f, VH_D(3), VH_D(2), VH_F(7), VH_F(12));
	  if constexpr (Level >= 1) for_each<T>(f, VH_D(5), VH_D(8), VH_D(7), VH_D(16), VH_D(13), VH_F(1), VH_F(3), VH_F(4), VH_F(16), VH_F(17), VH_F(32));
	  if constexpr (Level >= 2) for_each<T>(f, VH_D(4), VH_D(6), VH_D(9), VH_D(11), VH_D(15), VH_F(2), VH_F(5), VH_F(6), VH_F(8), VH_F(9), VH_F(15), VH_F(24), VH_F(29), VH_F(31));
	}
      else
	{
	  for_each<T>(f, VH_D(3), VH_F(3), VH_F(5));
	  if constexpr (Level >= 1) for_each<T>(f, VH_D(2), VH_D(4), VH_D(5), VH_D(7), VH_D(8), VH_F(1), VH_F(2), VH_F(4), VH_F(8), VH_F(13), VH_F(32));
	  if constexpr (Level >= 2) for_each<T>(f, VH_D(6), VH_F(6), VH_F(7), VH_F(9), VH_F(11), VH_F(12), VH_F(15), VH_F(16), VH_F(17), VH_F(24), VH_F(31));
	}
    }
}

template <class V> void reg(const char* op, VL<V> l, kern k, int p = 0)
{
  using T = typename V::value_type;
  vh::add({op, vh::ty_v<T>, vh::ty_v<T>, l.name, int(V::size()), p, k, nullptr, 0});
}

#ifndef VH_LEVEL
#define VH_LEVEL 1
#endif
// kernel body helper: V-element blocks
#define VH_KERNEL(NAME) template <class V> [[gnu::noipa]] void NAME(const void* const* in, void* const* out, long n)
#define VH_ELEM stdx::element_aligned
// Bytes of a simd object beyond its elements ("padding") are unspecified: a broadcast, a masked assignment or a negation
// leaves arbitrary values there.  Three of four blocks are loaded with padding that no neutral element matches.
template <class V> [[gnu::noipa]] V dirty(V v)
{
  using T = typename V::value_type;
  constexpr std::size_t used = V::size() * sizeof(T);
  static unsigned ctr = 0;
  const unsigned c = ++ctr;
  if (c % 4 == 0) return v;
  static const bool contiguous = [] {
    T buf[V::size()], mem[sizeof(V) / sizeof(T)];
    for (std::size_t k = 0; k < V::size(); ++k) buf[k] = T(k + 1);
    V x(buf, stdx::element_aligned);
    std::memcpy(mem, &x, sizeof(x));
    return 0 == std::memcmp(buf, mem, used);
  }();
  if (!contiguous) return v;
  T x;
  const unsigned q = c * 2654435761u >> 20;
  if constexpr (std::is_floating_point_v<T>)
    {
      const T l[] = {T(1), T(-3), std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::max(), std::numeric_limits<T>::lowest(), T(0), T(-0.), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min()};
      x = l[q % 11];
    }
  else
    {
      const T l[] = {T(1), T(-1), std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(0), T(2), T(0x55), T(-1)};
      x = l[q % 8];
    }
  for (std::size_t k = used; k + sizeof(T) <= sizeof(V); k += sizeof(T)) std::memcpy(reinterpret_cast<char*>(&v) + k, &x, sizeof(T));
  return v;
}
template <class V> inline constexpr bool has_padding = sizeof(typename V::value_type) <= 8 && sizeof(V) > V::size() * sizeof(typename V::value_type);
template <class V> [[gnu::always_inline]] inline V ld(const void* p, long i)
{
  V v(static_cast<const typename V::value_type*>(p) + i * long(V::size()), stdx::element_aligned);
  if constexpr (has_padding<V>) return dirty(v); else return v;
}
template <class V> [[gnu::always_inline]] inline void st(void* p, long i, const V& v)
{ v.copy_to(static_cast<typename V::value_type*>(p) + i * long(V::size()), stdx::element_aligned); }
// masks are exchanged as arrays of bool
template <class M> [[gnu::noipa]] M dirtym(const bool* b)
{ // a comparison of objects with arbitrary padding
  using V = typename M::simd_type; using T = typename V::value_type;
  T buf[M::size()];
  for (std::size_t k = 0; k < M::size(); ++k) buf[k] = T(b[k]);
  V one(T(1));
  return ld<V>(buf, 0) == one;
}
template <class M> [[gnu::noinline]] M ldm(const void* p, long i)
{
  const bool* b = static_cast<const bool*>(p) + i * long(M::size());
  static unsigned ctr = 0;
  if constexpr (has_padding<typename M::simd_type>) if (ctr++ & 1) return dirtym<M>(b);
  return M(b, stdx::element_aligned);
}
template <class M> [[gnu::always_inline]] inline void stm(void* p, long i, const M& m)
{ m.copy_to(static_cast<bool*>(p) + i * long(M::size()), stdx::element_aligned); }
#endif
