// W02: masked loads and stores
#include "ls_k.h"
#define PRE using M = typename V::mask_type; using T = typename V::value_type; (void)sizeof(T); for (long i = 0; i < n; ++i) { V v = ld<V>(in[0], i); M k = ldm<M>(in[1], i); U* p = at<U>(in, 2, i); (void)k; (void)p;
LSK(mld) { PRE where(k, v).copy_from(p, F()); st(out[0], i, v); } }
LSK(mldc) { PRE const V c = v; V r = where(k, c).copy_from(p, F()); st(out[0], i, r); } }
LSK(mldT) { PRE where(M(true), v).copy_from(p, F()); st(out[0], i, v); } }
LSK(mldF) { PRE where(M(false), v).copy_from(p, F()); st(out[0], i, v); } }
LSK(mst) { PRE where(k, v).copy_to(p, F()); } }
LSK(mstc) { PRE const V c = v; where(k, c).copy_to(p, F()); } }
LSK(mstT) { PRE where(M(true), v).copy_to(p, F()); } }
LSK(mstF) { PRE where(M(false), v).copy_to(p, F()); } }
// bool overload with a scalar
LSK(bld) { for (long i = 0; i < n; ++i) { using T = typename V::value_type; T x = static_cast<const T*>(in[0])[i]; bool q = static_cast<const bool*>(in[1])[i]; U* p = at<U>(in, 2, i); stdx::where(q, x).copy_from(p, F()); static_cast<T*>(out[0])[i] = x; } }
LSK(bst) { for (long i = 0; i < n; ++i) { using T = typename V::value_type; T x = static_cast<const T*>(in[0])[i]; bool q = static_cast<const bool*>(in[1])[i]; U* p = at<U>(in, 2, i); stdx::where(q, x).copy_to(p, F()); } }
// masks
#define PREM using M = typename V::mask_type; for (long i = 0; i < n; ++i) { M v = ldm<M>(in[0], i); M k = ldm<M>(in[1], i); bool* p = at<bool>(in, 2, i);
LSK(mmld) { PREM where(k, v).copy_from(p, F()); stm(out[0], i, v); } }
LSK(mmst) { PREM where(k, v).copy_to(p, F()); } }
LSK(mmldc) { PREM const M c = v; M r = where(k, c).copy_from(p, F()); stm(out[0], i, r); } }
template <class F, class V> void regm(const char* op, VL<V> l, kern k)
{
  vh::add({op, vh::ty_v<typename V::value_type>, vh::BOOL, l.name, int(V::size()),
	   std::is_same_v<F, Fe> ? 1 : int(stdx::memory_alignment_v<typename V::mask_type, bool>), k, std::is_same_v<F, Fe> ? "element" : "vector", 0});
}
template <class T, int L> void regs()
{
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
    constexpr int N = V::size();
    constexpr int fl = std::is_floating_point_v<T> + 2 * std::is_signed_v<T>;
    each_type(TL<T, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, float, double, long double, char, wchar_t, char16_t, long long>(), [&](auto* q) {
      using U = std::remove_pointer_t<decltype(q)>;
      constexpr int us = sizeof(U) + 32 * std::is_floating_point_v<U> + 64 * std::is_signed_v<U> + 128 * vh::ty_v<U>;
      constexpr bool own = std::is_same_v<T, U>;
#define R(F, x) regl<U, F>(#x, l, x<V, U, F>)
      if constexpr (vh_pick(L, own ? 1 : 9, 1, N, us, fl)) { R(Fe, mld); }
      if constexpr (vh_pick(L, own ? 1 : 9, 2, N, us, fl)) { R(Fe, mst); }
      if constexpr (vh_pick(L, own ? 3 : 20, 3, N, us, fl)) { R(Fv, mld); R(Fe, mldc); R(Fe, mldF); }
      if constexpr (vh_pick(L, own ? 3 : 20, 4, N, us, fl)) { R(Fv, mst); R(Fe, mstc); R(Fe, mstT); }
      if constexpr (vh_pick(L, own ? 5 : 40, 5, N, us, fl)) { R(Fe, mldT); R(Fo<64>, mld); R(Fo<64>, mst); R(Fe, mstF); }
      if constexpr (N == 1 && std::is_same_v<typename V::abi_type, stdx::simd_abi::scalar>) { R(Fe, bld); R(Fe, bst); }
    });
#define RM(F, x) regm<F>(#x, l, x<V, bool, F>)
    RM(Fe, mmld); RM(Fe, mmst); RM(Fe, mmldc); RM(Fv, mmld); RM(Fv, mmst);
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
