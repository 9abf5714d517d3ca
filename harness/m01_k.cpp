// M01: masks as arrays of bool
#include "vh_kernel.h"
template <class M> [[gnu::always_inline]] inline void outm(void* const* out, long i, const M& m)
{
  stm(out[0], i, m);
  bool* o = static_cast<bool*>(out[1]) + i * long(M::size());
  for (size_t j = 0; j < M::size(); ++j) o[j] = m[j];
}
#define MK(NAME, ...) template <class V> [[gnu::noipa]] void NAME(const void* const* in, void* const* out, long n) { using M = typename V::mask_type; for (long i = 0; i < n; ++i) { M a = ldm<M>(in[0], i), b = ldm<M>(in[1], i), c = ldm<M>(in[2], i); (void)a; (void)b; (void)c; __VA_ARGS__; } }
MK(k_load, outm(out, i, a))
MK(k_copyfrom, M d(true); d.copy_from(static_cast<const bool*>(in[0]) + i * long(M::size()), stdx::element_aligned); outm(out, i, d))
MK(k_not, outm(out, i, !a))
MK(k_and, outm(out, i, a & b))
MK(k_or, outm(out, i, a | b))
MK(k_xor, outm(out, i, a ^ b))
MK(k_land, outm(out, i, a && b))
MK(k_lor, outm(out, i, a || b))
MK(k_cand, M& r = (a &= b); outm(out, i, r))
MK(k_cor, M& r = (a |= b); outm(out, i, r))
MK(k_cxor, M& r = (a ^= b); outm(out, i, r))
MK(k_eq, outm(out, i, a == b))
MK(k_ne, outm(out, i, a != b))
MK(k_where, where(a, b) = c; outm(out, i, b))
MK(k_wheres, bool s = static_cast<const bool*>(in[2])[i * long(M::size())]; where(a, b) = M(s); outm(out, i, b))
MK(k_bcast, bool s = static_cast<const bool*>(in[0])[i * long(M::size())]; outm(out, i, M(s)))
MK(k_set, M d(false); for (size_t j = 0; j < M::size(); ++j) d[j] = static_cast<const bool*>(in[0])[i * long(M::size()) + j]; outm(out, i, d))
MK(k_clear, M d(true); for (size_t j = 0; j < M::size(); ++j) if (!static_cast<const bool*>(in[0])[i * long(M::size()) + j]) d[j] = false; outm(out, i, d))
MK(k_gen, M d{}; for (size_t j = 0; j < M::size(); ++j) d[j] = bool(a[j]); outm(out, i, d))
MK(k_genuninit, M d; for (size_t j = 0; j < M::size(); ++j) d[j] = bool(a[j]); outm(out, i, d))
MK(k_swap, using std::swap; for (size_t j = 0; j < M::size(); ++j) swap(a[j], b[M::size() - 1 - j]); outm(out, i, a))
MK(k_chain, M r = (a ^ !b) | (c & !(a || b)); r &= !(c == b) || a; r ^= M(true); outm(out, i, r))
MK(k_allnot, M r = !(!a) ^ !(a ^ b); outm(out, i, !r && !c))
template <class V> inline constexpr bool is_fixed_abi = false;
template <class T, int N> inline constexpr bool is_fixed_abi<stdx::fixed_size_simd<T, N>> = true;
template <class T, int L> void regs()
{
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
#define R(x) reg(#x, l, k_##x<V>)
    R(load); R(copyfrom); R(not); R(and); R(or); R(xor); R(land); R(lor); R(cand); R(cor); R(cxor); R(eq); R(ne); R(where); R(wheres);
    R(bcast); R(set); R(clear); R(gen); if constexpr (is_fixed_abi<V>) reg("genuninit_fixed", l, k_genuninit<V>); else R(genuninit); R(swap); R(chain); R(allnot);
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
