// A02: bitwise operators and shifts
#include "vh_kernel.h"
#define BIN(NAME, EXPR) VH_KERNEL(NAME) { for (long i = 0; i < n; ++i) { V a = ld<V>(in[0], i), b = ld<V>(in[1], i); (void)a; (void)b; EXPR; } }
BIN(k_and, st(out[0], i, a & b))
BIN(k_or, st(out[0], i, a | b))
BIN(k_xor, st(out[0], i, a ^ b))
BIN(k_not, st(out[0], i, ~a))
BIN(k_cand, V& r = (a &= b); st(out[0], i, r))
BIN(k_cor, V& r = (a |= b); st(out[0], i, r))
BIN(k_cxor, V& r = (a ^= b); st(out[0], i, r))
BIN(k_shl, st(out[0], i, a << b))
BIN(k_shr, st(out[0], i, a >> b))
BIN(k_cshl, V& r = (a <<= b); st(out[0], i, r))
BIN(k_cshr, V& r = (a >>= b); st(out[0], i, r))
#define BINS(NAME, EXPR) VH_KERNEL(NAME) { for (long i = 0; i < n; ++i) { V a = ld<V>(in[0], i); int s = int(static_cast<const typename V::value_type*>(in[1])[i * long(V::size())]); EXPR; } }
BINS(k_shls, st(out[0], i, a << s))
BINS(k_shrs, st(out[0], i, a >> s))
BINS(k_cshls, V& r = (a <<= s); st(out[0], i, r))
BINS(k_cshrs, V& r = (a >>= s); st(out[0], i, r))
#define SCL typename V::value_type s = static_cast<const typename V::value_type*>(in[0])[i * long(V::size())];
#define BINL(NAME, EXPR) VH_KERNEL(NAME) { for (long i = 0; i < n; ++i) { V b = ld<V>(in[1], i); SCL EXPR; } }
BINL(k_sand, st(out[0], i, s & b))
BINL(k_sor, st(out[0], i, s | b))
BINL(k_sxor, st(out[0], i, s ^ b))
BINL(k_sshl, st(out[0], i, s << b))
BINL(k_sshr, st(out[0], i, s >> b))
// literal counts
template <class V, int C> [[gnu::noipa]] void k_shlc(const void* const* in, void* const* out, long n)
{ for (long i = 0; i < n; ++i) { V a = ld<V>(in[0], i); st(out[0], i, a << C); } }
template <class V, int C> [[gnu::noipa]] void k_shrc(const void* const* in, void* const* out, long n)
{ for (long i = 0; i < n; ++i) { V a = ld<V>(in[0], i); st(out[0], i, a >> C); } }
template <class V, int... Cs> void lits(VL<V> l, std::integer_sequence<int, Cs...>)
{ ((reg("shlc", l, k_shlc<V, Cs>, Cs), reg("shrc", l, k_shrc<V, Cs>, Cs)), ...); }
template <int... Cs> using seq = std::integer_sequence<int, Cs...>;

// bitwise operators for floating point, provided as an opt-in namespace
#define BINF(NAME, EXPR) VH_KERNEL(NAME) { using namespace stdx::__float_bitwise_operators; for (long i = 0; i < n; ++i) { V a = ld<V>(in[0], i), b = ld<V>(in[1], i); (void)b; EXPR; } }
BINF(k_fand, st(out[0], i, a & b))
BINF(k_for, st(out[0], i, a | b))
BINF(k_fxor, st(out[0], i, a ^ b))

template <class T, int L> void regs()
{
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
    if constexpr (std::is_floating_point_v<T>)
      { if constexpr (sizeof(T) <= 8) { reg("fand", l, k_fand<V>); reg("for", l, k_for<V>); reg("fxor", l, k_fxor<V>); } }
    else
      {
	reg("and", l, k_and<V>); reg("or", l, k_or<V>); reg("xor", l, k_xor<V>); reg("not", l, k_not<V>);
	reg("shl", l, k_shl<V>); reg("shr", l, k_shr<V>); reg("shls", l, k_shls<V>); reg("shrs", l, k_shrs<V>);
	reg("cshl", l, k_cshl<V>); reg("cshr", l, k_cshr<V>);
	if constexpr (V::size() % 4 == 3 || V::size() == 1 || V::size() == 16)
	  {
	    reg("cand", l, k_cand<V>); reg("cor", l, k_cor<V>); reg("cxor", l, k_cxor<V>);
	    reg("cshls", l, k_cshls<V>); reg("cshrs", l, k_cshrs<V>);
	    reg("sand", l, k_sand<V>); reg("sor", l, k_sor<V>); reg("sxor", l, k_sxor<V>); reg("sshl", l, k_sshl<V>); reg("sshr", l, k_sshr<V>);
	  }
	if constexpr (sizeof(T) == 1) lits(l, seq<0, 1, 2, 3, 4, 5, 6, 7, 8, 20>());
	else if constexpr (sizeof(T) == 2) lits(l, seq<0, 1, 2, 5, 8, 15, 16, 31>());
	else if constexpr (sizeof(T) == 4) lits(l, seq<0, 1, 7, 31>());
	else lits(l, seq<0, 1, 8, 31, 32, 63>());
      }
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
