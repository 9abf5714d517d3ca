// A03: comparisons
#include "vh_kernel.h"
#define BIN(NAME, EXPR) VH_KERNEL(NAME) { for (long i = 0; i < n; ++i) { V a = ld<V>(in[0], i), b = ld<V>(in[1], i); stm(out[0], i, EXPR); } }
BIN(k_eq, a == b) BIN(k_ne, a != b) BIN(k_lt, a < b) BIN(k_le, a <= b) BIN(k_gt, a > b) BIN(k_ge, a >= b)
BIN(k_isgt, isgreater(a, b)) BIN(k_isge, isgreaterequal(a, b)) BIN(k_islt, isless(a, b)) BIN(k_isle, islessequal(a, b))
BIN(k_islg, islessgreater(a, b)) BIN(k_isun, isunordered(a, b))
BIN(k_lnot, !a)
#define BINS(NAME, EXPR) VH_KERNEL(NAME) { using T = typename V::value_type; for (long i = 0; i < n; ++i) { V a = ld<V>(in[0], i); T s = static_cast<const T*>(in[1])[i * long(V::size())]; stm(out[0], i, EXPR); } }
BINS(k_lts, a < s) BINS(k_ges, a >= s) BINS(k_eqs, a == s) BINS(k_nes, a != s) BINS(k_slt, s < a) BINS(k_sle, s <= a) BINS(k_sgt, s > a)
// comparison with literal zero / one (constant folding)
BIN(k_ltz, a < typename V::value_type(0)) BIN(k_nez, a != typename V::value_type(0)) BIN(k_gez, a >= typename V::value_type(0)) BIN(k_eqz, a == typename V::value_type(0))
// result consumed element-wise and as reductions instead of through copy_to
VH_KERNEL(k_ltidx)
{
  for (long i = 0; i < n; ++i)
    {
      V a = ld<V>(in[0], i), b = ld<V>(in[1], i);
      auto k = a < b;
      bool* o = static_cast<bool*>(out[0]) + i * long(V::size());
      for (size_t j = 0; j < V::size(); ++j) o[j] = k[j];
    }
}
template <class T, int L> void regs()
{
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
    reg("eq", l, k_eq<V>); reg("ne", l, k_ne<V>); reg("lt", l, k_lt<V>); reg("le", l, k_le<V>); reg("gt", l, k_gt<V>); reg("ge", l, k_ge<V>);
    reg("ltidx", l, k_ltidx<V>); reg("lnot", l, k_lnot<V>);
    reg("ltz", l, k_ltz<V>); reg("nez", l, k_nez<V>); reg("gez", l, k_gez<V>); reg("eqz", l, k_eqz<V>);
    if constexpr (V::size() % 4 == 3 || V::size() == 1 || V::size() == 16)
      { reg("lts", l, k_lts<V>); reg("ges", l, k_ges<V>); reg("eqs", l, k_eqs<V>); reg("nes", l, k_nes<V>); reg("slt", l, k_slt<V>); reg("sle", l, k_sle<V>); reg("sgt", l, k_sgt<V>); }
    if constexpr (std::is_floating_point_v<T>)
      { reg("isgt", l, k_isgt<V>); reg("isge", l, k_isge<V>); reg("islt", l, k_islt<V>); reg("isle", l, k_isle<V>); reg("islg", l, k_islg<V>); reg("isun", l, k_isun<V>); }
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
