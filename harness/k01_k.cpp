// K01: value conversions between simd types of equal element count
#include "vh_pairs.h"
#define CK(NAME, ...) template <class V, class W> [[gnu::noipa]] void NAME(const void* const* in, void* const* out, long n) { using U = typename W::value_type; (void)sizeof(U); \
  for (long i = 0; i < n; ++i) { const V a = ld<V>(in[0], i); __VA_ARGS__; } }
CK(k_static, st(out[0], i, stdx::static_simd_cast<W>(a)))
CK(k_statict, st(out[0], i, W(stdx::static_simd_cast<U>(a))))
CK(k_simd, st(out[0], i, stdx::simd_cast<W>(a)))
CK(k_simdt, st(out[0], i, W(stdx::simd_cast<U>(a))))
CK(k_impl, W w = a; st(out[0], i, w))
CK(k_expl, st(out[0], i, W(a)))
CK(k_tofixed, st(out[0], i, stdx::to_fixed_size(a)))
CK(k_tonative, st(out[0], i, stdx::to_native(a)))
CK(k_tocompat, st(out[0], i, stdx::to_compatible(a)))
// the converted object, with whatever its padding holds, in further use
CK(k_static_use, W w = stdx::static_simd_cast<W>(a); w = -(-w); st(out[0], i, w))
template <class T, int L> void regs()
{
  using Us = TL<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, float, double, long double, char, wchar_t, char16_t, char32_t, long long, unsigned long long>;
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
    constexpr int N = V::size();
    constexpr int ts = vh::ty_v<T> + 32 * is_fixed<V>;
    if constexpr (N <= stdx::simd_abi::max_fixed_size<T>)
      { using W = stdx::fixed_size_simd<T, N>; regp("to_fixed_size", l, VL<W>{"fixed"}, k_tofixed<V, W>); }
    if constexpr (is_fixed<V>)
      {
	if constexpr (N == stdx::native_simd<T>::size()) regp("to_native", l, VL<stdx::native_simd<T>>{"native"}, k_tonative<V, stdx::native_simd<T>>);
	if constexpr (N == stdx::simd<T>::size()) regp("to_compatible", l, VL<stdx::simd<T>>{"compatible"}, k_tocompat<V, stdx::simd<T>>);
      }
    each_type(Us(), [&](auto* up) {
      using U = std::remove_pointer_t<decltype(up)>;
      constexpr int us = vh::ty_v<U>;
      constexpr bool core = us < vh::F80;
      auto go = [&](auto w) {
	using W = typename decltype(w)::type;
	constexpr int x = ts + 64 * is_fixed<W>;
#define R(x) regp(#x, l, w, k_##x<V, W>)
#define PICK(mod, salt) if constexpr (vh_pick(L, mod, salt, N, us, x))
	R(static);
	PICK(12, 1) if constexpr (std::is_same_v<decltype(stdx::static_simd_cast<U>(V())), W>) R(statict);
	if constexpr (std::is_convertible_v<V, W>) { PICK(5, 2) R(impl); }
	else if constexpr (std::is_constructible_v<W, V>) { PICK(5, 3) R(expl); }
	PICK(8, 4) if constexpr (value_preserving<T, U>()) { R(simd); }
	PICK(12, 5) if constexpr (N > 1) R(static_use);
      };
      if constexpr (vh_pick(L, core ? 3 : 14, 7, N, us, ts)) if_deduce<U, N>(go);
      if constexpr (vh_pick(L, (core ? 4 : 24) * (is_fixed<V> ? 2 : 1), 8, N, us, ts)) if_fixed<U, N>(go);
    });
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
