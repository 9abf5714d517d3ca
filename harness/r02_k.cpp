// R02: element-wise min, max, minmax, clamp
#include "vh_pairs.h"
#define K(NAME, ...) VH_KERNEL(NAME) { using T = typename V::value_type; for (long q = 0; q < n; ++q) { const V a = ld<V>(in[0], q), b = ld<V>(in[1], q), c = ld<V>(in[2], q); \
  (void)c; (void)b; const T s = static_cast<const T*>(in[1])[q * long(V::size())]; (void)s; __VA_ARGS__; } }
K(k_min, st(out[0], q, min(a, b)))
K(k_max, st(out[0], q, max(a, b)))
K(k_minself, V x = a; x = min(x, b); st(out[0], q, x))
K(k_maxswap, V x = b; x = max(x, a); st(out[0], q, x))
K(k_minmax, auto p = minmax(a, b); st(out[0], q, p.first); st(out[1], q, p.second))
K(k_clamp, st(out[0], q, clamp(a, b, c)))
K(k_clampq, st(out[0], q, stdx::clamp(a, b, c)))
K(k_mins, st(out[0], q, min(a, V(s))))
K(k_maxs, st(out[0], q, max(V(s), a)))
K(k_minc, st(out[0], q, min(a, V(T(5)))))
K(k_maxc, st(out[0], q, max(a, V(T(5)))))
K(k_clampc, st(out[0], q, clamp(a, V(T(5)), V(T(60)))))
K(k_nested, st(out[0], q, max(min(a, b), c)))
K(k_negmin, st(out[0], q, min(a + T(0), b + T(0))))
template <class T, int L> void regs()
{
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
    constexpr int N = V::size();
#define R(x) reg(#x, l, k_##x<V>)
#define PICK(mod, salt) if constexpr (vh_pick(L, mod, salt, N, sizeof(T), std::is_floating_point_v<T>))
    R(min); R(max); R(minmax); R(clamp);
    PICK(2, 1) { R(minself); R(maxswap); R(minc); R(maxc); }
    PICK(2, 2) { R(mins); R(maxs); R(clampc); }
    PICK(3, 3) { R(nested); R(negmin); R(clampq); }
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
