// L02: footprint of unmasked loads and stores
#include "ls_k.h"
#define PRE for (long i = 0; i < n; ++i) {
LSK(ld_ctor) { PRE V v(at<const U>(in, 2, i), F()); st(out[0], i, v); } }
LSK(ld_copy) { PRE V v{}; v.copy_from(at<const U>(in, 2, i), F()); st(out[0], i, v); } }
LSK(st_copy) { PRE const V v = ld<V>(in[0], i); v.copy_to(at<U>(in, 2, i), F()); } }
LSK(mld_ctor) { PRE typename V::mask_type k(at<const bool>(in, 2, i), F()); stm(out[0], i, k); } }
LSK(mld_copy) { PRE typename V::mask_type k{}; k.copy_from(at<const bool>(in, 2, i), F()); stm(out[0], i, k); } }
LSK(mst_copy) { PRE const typename V::mask_type k = ldm<typename V::mask_type>(in[0], i); k.copy_to(at<bool>(in, 2, i), F()); } }
LSK(mst_cmp) { PRE using T = typename V::value_type; const bool* p = static_cast<const bool*>(in[0]) + i * long(V::size()); V v([&](auto j) { return T(p[j] ? 1 : 0); }); (v != T()).copy_to(at<bool>(in, 2, i), F()); } }
// access through functions that load or store internally
LSK(conv_in) { PRE V v(at<const U>(in, 2, i), F()); auto w = stdx::to_fixed_size(v); w.copy_to(static_cast<typename V::value_type*>(out[0]) + i * long(V::size()), Fe()); } }
template <class F, class V> void regm(const char* op, VL<V> l, kern k)
{
  vh::add({op, vh::ty_v<typename V::value_type>, vh::BOOL, l.name, int(V::size()),
	   std::is_same_v<F, Fe> ? 1 : int(stdx::memory_alignment_v<typename V::mask_type, bool>), k, std::is_same_v<F, Fe> ? "element" : "vector", 0});
}
template <class T, int L> void regs()
{
  auto f = [](auto l) {
    using V = typename decltype(l)::type;
    constexpr int N = V::size();
    constexpr int ts = vh::ty_v<T>;
    each_type(TL<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, float, double, long double, wchar_t>(), [&](auto* q) {
      using U = std::remove_pointer_t<decltype(q)>;
      constexpr int us = vh::ty_v<U>;
      constexpr bool own = std::is_same_v<T, U>;
#define R(F, x) regl<U, F>(#x, l, x<V, U, F>)
#define RM(F, x) regm<F>(#x, l, x<V, bool, F>)
#define PICK(mod, salt) if constexpr (vh_pick(L, mod, salt, N, us, ts))
      if constexpr (own) { RM(Fe, mld_ctor); RM(Fe, mst_copy); PICK(2, 11) { RM(Fe, mld_copy); RM(Fe, mst_cmp); RM(Fv, mld_ctor); RM(Fv, mst_copy); } }
      if constexpr (own && N <= stdx::simd_abi::max_fixed_size<T>) R(Fe, conv_in);
      PICK(own ? 1 : 5, 1) R(Fe, ld_ctor);
      PICK(own ? 1 : 5, 2) R(Fe, st_copy);
      PICK(own ? 2 : 20, 3) R(Fe, ld_copy);
      PICK(own ? 2 : 20, 4) { R(Fv, ld_ctor); R(Fv, st_copy); }
      PICK(own ? 4 : 40, 5) { R(Fo<64>, ld_copy); R(Fo<64>, st_copy); }
    });
  };
  for_abis<T, L>(f);
  // more element counts that do not fill a register
  if constexpr (L >= 1)
    each_type(TL<std::integral_constant<int, 4>, std::integral_constant<int, 5>, std::integral_constant<int, 6>, std::integral_constant<int, 9>, std::integral_constant<int, 10>, std::integral_constant<int, 11>,
	      std::integral_constant<int, 12>, std::integral_constant<int, 14>, std::integral_constant<int, 15>, std::integral_constant<int, 17>, std::integral_constant<int, 21>, std::integral_constant<int, 23>, std::integral_constant<int, 25>, std::integral_constant<int, 29>, std::integral_constant<int, 31>>(),
      [&](auto* q) {
	constexpr int N = std::remove_pointer_t<decltype(q)>::value;
	auto g = [](auto l) { using V = typename decltype(l)::type; using U = T; R(Fe, ld_ctor); R(Fe, st_copy); RM(Fe, mld_copy); RM(Fe, mst_copy); };
	if constexpr (vh_pick(L, 2, 21, N, sizeof(T))) if_deduce<T, N>(g);
	if constexpr (vh_pick(L, 3, 22, N, sizeof(T))) if_fixed<T, N>(g);
      });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
