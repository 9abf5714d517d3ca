// M02: mask reductions, for masks produced in different ways
#include "vh_kernel.h"
#include <new>
template <class M> [[gnu::always_inline]] inline void red(const void* const* in, void* const* out, long i, const M& k)
{
  int* o = static_cast<int*>(out[0]) + i * 8;
  const bool any = static_cast<const bool*>(in[3])[i];
  o[0] = all_of(k); o[1] = any_of(k); o[2] = none_of(k); o[3] = some_of(k); o[4] = popcount(k);
  o[5] = any ? find_first_set(k) : -1;
  o[6] = any ? find_last_set(k) : -1;
}
// storage with previous contents, for a default-initialised object
[[gnu::noipa]] static void* used_storage(long i)
{ alignas(64) static unsigned char buf[4096]; std::memset(buf, i & 1 ? 0xff : 0x5a, sizeof buf); return buf; }
template <class V> inline constexpr bool is_fixed_v = false; // (fixed_size: M01 genuninit_fixed)
template <class T, int N> inline constexpr bool is_fixed_v<stdx::fixed_size_simd<T, N>> = true;
// e: expected mask (the oracle's), a/b with e == a ^ b
#define MK(NAME, ...) template <class V> [[gnu::noipa]] void NAME(const void* const* in, void* const* out, long n) { using M = typename V::mask_type; using T = typename V::value_type; (void)T(); for (long i = 0; i < n; ++i) { M e = ldm<M>(in[0], i), a = ldm<M>(in[1], i), b = ldm<M>(in[2], i); (void)a; (void)b; (void)e; __VA_ARGS__; } }
MK(k_load, red(in, out, i, e))
MK(k_not, a = !e; red(in, out, i, !a))
MK(k_xor, red(in, out, i, a ^ b))
MK(k_ne, red(in, out, i, a != b))
MK(k_eqn, red(in, out, i, a == !b))
MK(k_or, red(in, out, i, (a && !b) || (!a && b)))
MK(k_cmp, V v([&](auto j) { return T(e[j] ? 1 : 0); }); red(in, out, i, v != T(0)))
MK(k_ncmp, V v([&](auto j) { return T(e[j] ? 1 : 0); }); red(in, out, i, v == T(1)))
MK(k_bcmp, V v([&](auto j) { return T(e[j] ? 1 : 2); }); red(in, out, i, V(T(1)) >= v))
MK(k_nnot, V v([&](auto j) { return T(e[j] ? 0 : 3); }); red(in, out, i, !v))
MK(k_set, M d(i & 1); for (size_t j = 0; j < M::size(); ++j) d[j] = bool(e[j]); red(in, out, i, d))
MK(k_dflt, M& d = *new (used_storage(i)) M; for (size_t j = 0; j < M::size(); ++j) d[j] = bool(e[j]); red(in, out, i, d))
MK(k_dwhere, M& d = *new (used_storage(i)) M; where(e, d) = true; where(!e, d) = M(false); red(in, out, i, d))
MK(k_where, M d(true); where(!e, d) = M(false); red(in, out, i, d))
MK(k_bcast, M d(true); red(in, out, i, d & e))
MK(k_cast, stdx::fixed_size_simd_mask<T, int(M::size())> f = stdx::__proposed::static_simd_cast<stdx::fixed_size_simd_mask<T, int(M::size())>>(e);
   red(in, out, i, stdx::__proposed::static_simd_cast<M>(!f) ^ M(true)))
template <class T, int L> void regs()
{
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
#define R(x) reg(#x, l, k_##x<V>)
    R(load); R(not); R(xor); R(ne); R(eqn); R(or); R(cmp); R(ncmp); R(bcmp); R(nnot); R(set); if constexpr (!is_fixed_v<V>) { R(dflt); R(dwhere); } R(where); R(bcast);
    if constexpr (V::size() <= 32) R(cast);
  });
}
// bool overloads
template <class V> [[gnu::noipa]] void k_bool(const void* const* in, void* const* out, long n)
{ for (long i = 0; i < n; ++i) { bool k = static_cast<const bool*>(in[0])[i]; int* o = static_cast<int*>(out[0]) + i * 8;
    o[0] = stdx::all_of(k); o[1] = stdx::any_of(k); o[2] = stdx::none_of(k); o[3] = stdx::some_of(k); o[4] = stdx::popcount(k);
    o[5] = k ? stdx::find_first_set(k) : -1; o[6] = k ? stdx::find_last_set(k) : -1; } }
static int init = [] { regs<VH_T, VH_LEVEL>();
  vh::add({"bool", vh::ty_v<VH_T>, vh::ty_v<VH_T>, "bool", 1, 0, k_bool<int>, nullptr, 0}); return 0; }();
