// A01: element-wise arithmetic kernels
#include "vh_kernel.h"

#define BIN(NAME, EXPR) VH_KERNEL(NAME) { for (long i = 0; i < n; ++i) { V a = ld<V>(in[0], i), b = ld<V>(in[1], i); (void)a; (void)b; EXPR; } }
BIN(k_add, st(out[0], i, a + b))
BIN(k_sub, st(out[0], i, a - b))
BIN(k_mul, st(out[0], i, a * b))
BIN(k_div, st(out[0], i, a / b))
BIN(k_mod, st(out[0], i, a % b))
BIN(k_cadd, V& r = (a += b); st(out[0], i, r))
BIN(k_csub, V& r = (a -= b); st(out[0], i, r))
BIN(k_cmul, V& r = (a *= b); st(out[0], i, r))
BIN(k_cdiv, V& r = (a /= b); st(out[0], i, r))
BIN(k_cmod, V& r = (a %= b); st(out[0], i, r))
BIN(k_neg, st(out[0], i, -a))
BIN(k_pos, st(out[0], i, +a))
BIN(k_preinc, V& r = ++a; st(out[0], i, r))
BIN(k_predec, V& r = --a; st(out[0], i, r))
BIN(k_postinc, V r = a++; st(out[0], i, r); st(out[1], i, a))
BIN(k_postdec, V r = a--; st(out[0], i, r); st(out[1], i, a))
// scalar operands: element 0 of the second operand
#define SC T s = static_cast<const T*>(in[1])[i * long(V::size())];
#define BINS(NAME, EXPR) VH_KERNEL(NAME) { using T = typename V::value_type; for (long i = 0; i < n; ++i) { V a = ld<V>(in[0], i); SC EXPR; } }
BINS(k_adds, st(out[0], i, a + s))
BINS(k_subs, st(out[0], i, a - s))
BINS(k_muls, st(out[0], i, a * s))
BINS(k_divs, st(out[0], i, a / s))
BINS(k_mods, st(out[0], i, a % s))
#define SCL T s = static_cast<const T*>(in[0])[i * long(V::size())];
#define BINL(NAME, EXPR) VH_KERNEL(NAME) { using T = typename V::value_type; for (long i = 0; i < n; ++i) { V b = ld<V>(in[1], i); SCL EXPR; } }
BINL(k_sadd, st(out[0], i, s + b))
BINL(k_ssub, st(out[0], i, s - b))
BINL(k_smul, st(out[0], i, s * b))
BINL(k_sdiv, st(out[0], i, s / b))
BINL(k_smod, st(out[0], i, s % b))

template <class T, int L> void regs()
{
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
    reg("add", l, k_add<V>); reg("sub", l, k_sub<V>); reg("mul", l, k_mul<V>); reg("div", l, k_div<V>);
    reg("cadd", l, k_cadd<V>); reg("csub", l, k_csub<V>); reg("cmul", l, k_cmul<V>); reg("cdiv", l, k_cdiv<V>);
    reg("neg", l, k_neg<V>); reg("pos", l, k_pos<V>);
    reg("preinc", l, k_preinc<V>); reg("predec", l, k_predec<V>); reg("postinc", l, k_postinc<V>); reg("postdec", l, k_postdec<V>);
    reg("muls", l, k_muls<V>); reg("sdiv", l, k_sdiv<V>); reg("divs", l, k_divs<V>); reg("ssub", l, k_ssub<V>);
    if constexpr (V::size() % 4 == 3 || V::size() == 1) { reg("adds", l, k_adds<V>); reg("subs", l, k_subs<V>); reg("sadd", l, k_sadd<V>); reg("smul", l, k_smul<V>); }
    if constexpr (std::is_integral_v<T>)
      { reg("mod", l, k_mod<V>); reg("cmod", l, k_cmod<V>); reg("mods", l, k_mods<V>); reg("smod", l, k_smod<V>); }
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
