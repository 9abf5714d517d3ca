// R01: reductions
#include "vh_pairs.h"
#include <functional>
#define RK(NAME, ...) VH_KERNEL(NAME) { using T = typename V::value_type; using M = typename V::mask_type; for (long q = 0; q < n; ++q) { V v = ld<V>(in[0], q); M k = ldm<M>(in[1], q); (void)k; \
  const T id = *static_cast<const T*>(in[2]); (void)id; static_cast<T*>(out[0])[q] = __VA_ARGS__; } }
struct Add { template <class X> X operator()(const X& a, const X& b) const { return a + b; } };
RK(k_plus, reduce(v))
RK(k_plus2, reduce(v, std::plus<>()))
RK(k_mul, reduce(v, std::multiplies<>()))
RK(k_and, reduce(v, std::bit_and<>()))
RK(k_or, reduce(v, std::bit_or<>()))
RK(k_xor, reduce(v, std::bit_xor<>()))
RK(k_uadd, reduce(v, Add()))
RK(k_umul, reduce(v, [](auto a, auto b) { return a * b; }))
RK(k_umax, reduce(v, [](auto a, auto b) { return max(a, b); }))
RK(k_umin, reduce(v, [](auto a, auto b) { return min(a, b); }))
RK(k_uxor, reduce(v, [](auto a, auto b) { return a ^ b; }))
RK(k_hmin, hmin(v))
RK(k_hmax, hmax(v))
// results of an operation, whose padding is whatever the operation left there
RK(k_dplus, reduce(-v))
RK(k_dmul, reduce(v / V(T(1)), std::multiplies<>()))
RK(k_dhmin, hmin(v + T(0)))
RK(k_dhmax, hmax(-v))
RK(m_plus, reduce(where(k, v)))
RK(m_mul, reduce(where(k, v), std::multiplies<>()))
RK(m_and, reduce(where(k, v), std::bit_and<>()))
RK(m_or, reduce(where(k, v), std::bit_or<>()))
RK(m_xor, reduce(where(k, v), std::bit_xor<>()))
RK(m_uadd, reduce(where(k, v), id, Add()))
RK(m_umax, reduce(where(k, v), id, [](auto a, auto b) { return max(a, b); }))
RK(m_plusid, reduce(where(k, v), id, std::plus<>()))
RK(m_hmin, hmin(where(k, v)))
RK(m_hmax, hmax(where(k, v)))
template <class V> const V& cv(const V& v) { return v; }
RK(m_cplus, reduce(where(k, cv(v))))
RK(m_chmin, hmin(where(k, cv(v))))
RK(m_Tplus, reduce(where(M(true), v)))
RK(m_Thmax, hmax(where(M(true), v)))
template <class T, int L> void regs()
{
  auto f = [](auto l) {
    using V = typename decltype(l)::type;
    constexpr int N = V::size();
#define R(x) reg(#x, l, k_##x<V>)
#define RM(x) reg("m_" #x, l, m_##x<V>)
#define PICK(mod, salt) if constexpr (vh_pick(L, mod, salt, N, sizeof(T), std::is_floating_point_v<T>))
    R(plus); R(mul); R(hmin); R(hmax); R(uadd); RM(plus); RM(hmin); RM(hmax);
    PICK(3, 1) { R(plus2); R(umul); R(umax); }
    PICK(3, 2) { R(umin); R(dplus); R(dmul); }
    PICK(3, 3) { R(dhmin); R(dhmax); RM(uadd); }
    PICK(2, 4) { RM(mul); RM(plusid); }
    PICK(3, 5) { RM(umax); RM(cplus); RM(chmin); RM(Tplus); RM(Thmax); }
    if constexpr (std::is_integral_v<T>) { PICK(2, 6) { R(and); R(or); R(xor); } PICK(2, 7) { RM(and); RM(or); RM(xor); R(uxor); } }
  };
  for_abis<T, L>(f);
  each_type(TL<std::integral_constant<int, 4>, std::integral_constant<int, 6>, std::integral_constant<int, 9>, std::integral_constant<int, 10>, std::integral_constant<int, 11>, std::integral_constant<int, 12>,
    std::integral_constant<int, 14>, std::integral_constant<int, 15>, std::integral_constant<int, 18>, std::integral_constant<int, 22>, std::integral_constant<int, 23>, std::integral_constant<int, 25>, std::integral_constant<int, 30>>(),
    [&](auto* q) {
      constexpr int N = std::remove_pointer_t<decltype(q)>::value;
      auto g = [](auto l) { using V = typename decltype(l)::type; R(plus); R(mul); R(hmin); R(uadd); };
      if constexpr (vh_pick(L, 2, 21, N, sizeof(T))) if_deduce<T, N>(g);
      if constexpr (vh_pick(L, 3, 22, N, sizeof(T))) if_fixed<T, N>(g);
    });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
