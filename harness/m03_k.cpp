// M03: mask conversions
#include "vh_pairs.h"
namespace prop = stdx::__proposed;
#define MP(NAME, ...) template <class V, class W> [[gnu::noipa]] void NAME(const void* const* in, void* const* out, long n) { using M = typename V::mask_type; using M2 = typename W::mask_type; \
  for (long i = 0; i < n; ++i) { M a = ldm<M>(in[0], i); __VA_ARGS__; } }
MP(k_static, stm(out[0], i, prop::static_simd_cast<M2>(a)))
// through a comparison result (padding may be dirty)
MP(k_static_cmp, V v([&](auto j) { return typename V::value_type(a[j] ? 1 : 0); }); M m = v != typename V::value_type(); stm(out[0], i, prop::static_simd_cast<M2>(m)))
MP(k_static_not, M m = !a; stm(out[0], i, !prop::static_simd_cast<M2>(m)))
MP(k_resize, stm(out[0], i, prop::resizing_simd_cast<M2>(a)))
MP(k_resize_cmp, V v([&](auto j) { return typename V::value_type(a[j] ? 0 : 1); }); M m = v == typename V::value_type(); stm(out[0], i, prop::resizing_simd_cast<M2>(m)))
MP(k_resize_not, M m = !a; m = !m; M2 r = prop::resizing_simd_cast<M2>(m); r = !r; stm(out[0], i, !r))
MP(k_cvt, M2 r = a.__cvt(); stm(out[0], i, r))
MP(k_impl, M2 r = a; stm(out[0], i, r))
MP(k_expl, stm(out[0], i, M2(a)))
MP(k_simdcast, stm(out[0], i, prop::simd_cast<typename M2::simd_type>(a)))
MP(k_tofixed, stm(out[0], i, stdx::to_fixed_size(a)))
MP(k_tonative, stm(out[0], i, stdx::to_native(a)))
MP(k_tocompat, stm(out[0], i, stdx::to_compatible(a)))
MP(k_bits, auto bs = a.__to_bitset(); bool* o = static_cast<bool*>(out[0]) + i * long(M::size()); for (size_t j = 0; j < M::size(); ++j) o[j] = bs[j])
MP(k_bitscmp, V v([&](auto j) { return typename V::value_type(a[j] ? 0 : 1); }); auto bs = (v == typename V::value_type()).__to_bitset(); bool* o = static_cast<bool*>(out[0]) + i * long(M::size()); for (size_t j = 0; j < M::size(); ++j) o[j] = bs[j]; if (bs.to_ullong() >> (M::size() - 1) >> 1) o[0] ^= 1)
MP(k_frombits, std::bitset<M::size()> bs; const bool* s = static_cast<const bool*>(in[0]) + i * long(M::size()); for (size_t j = 0; j < M::size(); ++j) bs[j] = s[j]; stm(out[0], i, M::__from_bitset(bs)))
// iteration: mark visited elements; wrong order or duplicates invert element 0
MP(k_range, bool* o = static_cast<bool*>(out[0]) + i * long(M::size()); for (size_t j = 0; j < M::size(); ++j) o[j] = false; long last = -1; bool bad = false;
   for (auto j : prop::where(a)) { if (long(j) <= last || j >= M::size()) { bad = true; break; } last = j; o[j] = true; } if (bad) o[0] ^= 1)
// select with a converted mask
MP(k_apply, W w = typename W::value_type(0); where(prop::static_simd_cast<M2>(a), w) = typename W::value_type(1); M2 r = w == typename W::value_type(1); stm(out[0], i, r))

template <class T, int L> void regs()
{
  using Us = std::conditional_t<(L >= 2), TL<signed char, unsigned short, int, float, unsigned long, double, long double>,
	     std::conditional_t<sizeof(T) == 1, TL<unsigned char, short, float, long>,
	     std::conditional_t<sizeof(T) == 2, TL<unsigned char, unsigned short, int, double>,
	     std::conditional_t<sizeof(T) == 4, TL<signed char, short, unsigned, double>,
	     std::conditional_t<sizeof(T) == 8, TL<signed char, unsigned short, float, unsigned long>, TL<int, double, signed char>>>>>>;
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
    constexpr int N = V::size();
#define R(x) regp(#x, l, l, k_##x<V, V>)
    R(bits); R(frombits); R(range); R(bitscmp);
    if constexpr (N <= stdx::simd_abi::max_fixed_size<T>)
      { VL<stdx::fixed_size_simd<T, N>> f{"fixed"}; regp("to_fixed_size", l, f, k_tofixed<V, stdx::fixed_size_simd<T, N>>); }
    if constexpr (is_fixed<V>)
      {
	if constexpr (N == stdx::native_simd<T>::size()) regp("to_native", l, VL<stdx::native_simd<T>>{"native"}, k_tonative<V, stdx::native_simd<T>>);
	if constexpr (N == stdx::simd<T>::size()) regp("to_compatible", l, VL<stdx::simd<T>>{"compatible"}, k_tocompat<V, stdx::simd<T>>);
      }
#undef R
    each_type(Us(), [&](auto* up) {
      using U = std::remove_pointer_t<decltype(up)>;
      auto same = [&](auto w) {
	using W = typename decltype(w)::type;
	using M = typename V::mask_type; using M2 = typename W::mask_type;
#define R(x) regp(#x, l, w, k_##x<V, W>)
#define PICK(mod, salt) if constexpr (vh_pick(L, mod, salt, N + 64 * sizeof(T), sizeof(U), is_fixed<V> + 2 * is_fixed<W>))
	R(static_cmp);
	PICK(3, 1) R(static);
	PICK(3, 2) R(apply);
	PICK(4, 3) { R(static_not); R(cvt); }
	if constexpr (std::is_convertible_v<M, M2>) { R(impl); PICK(3, 4) R(expl); }
      };
      auto other = [&](auto w) {
	using W = typename decltype(w)::type;
	R(resize_cmp);
	PICK(4, 5 + W::size()) R(resize);
	PICK(4, 6 + W::size()) R(resize_not);
      };
      if constexpr (vh_pick(L, 2, 7, N, sizeof(U), sizeof(T)) || is_fixed<V>) if_deduce<U, N>(same);
      if constexpr (vh_pick(L, 2, 8, N, sizeof(U), sizeof(T)) || N > 16) if_fixed<U, N>(same);
      constexpr auto pk = [](int x) { return vh_pick(L, 5, x, V::size(), sizeof(U), sizeof(T)); };
      if constexpr (pk(1)) if_deduce<U, N + N / 2 + 1>(other);
      if constexpr (pk(2)) if_deduce<U, (N + 1) / 2>(other);
      if constexpr (L >= 2) { if_deduce<U, N + 1>(other); if_deduce<U, N * 2>(other); if_fixed<U, N * 2 + 1>(other); if_fixed<U, N / 2>(other); }
      if constexpr (pk(3)) if_fixed<U, N + 3>(other);
      if constexpr (pk(4)) other(VL<stdx::simd<U, stdx::simd_abi::scalar>>{"scalar"});
      if constexpr (pk(5)) other(VL<stdx::native_simd<U>>{"native"});
#undef R
    });
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
