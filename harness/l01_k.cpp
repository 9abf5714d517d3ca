// L01: unmasked loads and stores with conversion
#include "ls_k.h"
#define PRE using T = typename V::value_type; (void)sizeof(T); for (long i = 0; i < n; ++i) {
LSK(ld_ctor) { PRE V v(at<const U>(in, 2, i), F()); st(out[0], i, v); } }
LSK(ld_copy) { PRE V v{}; v.copy_from(at<const U>(in, 2, i), F()); st(out[0], i, v); } }
LSK(st_copy) { PRE const V v = ld<V>(in[0], i); v.copy_to(at<U>(in, 2, i), F()); } }
template <class T, int L> void regs()
{
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
    constexpr int N = V::size();
    constexpr int ts = vh::ty_v<T>;
    each_type(TL<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, float, double, long double, char, wchar_t, char16_t, char32_t, long long, unsigned long long>(), [&](auto* q) {
      using U = std::remove_pointer_t<decltype(q)>;
      constexpr int us = vh::ty_v<U>;
      constexpr int m = std::is_same_v<T, U> ? 1 : us <= vh::F80 ? 4 : 12;
#define R(F, x) regl<U, F>(#x, l, x<V, U, F>)
#define PICK(mod, salt) if constexpr (vh_pick(L, mod, salt, N, us, ts))
      PICK(m, 1) R(Fe, ld_ctor);
      PICK(m, 2) R(Fe, st_copy);
      PICK(m * 2, 3) R(Fe, ld_copy);
      PICK(m * 2, 4) { R(Fv, ld_ctor); R(Fv, st_copy); }
      PICK(m * 4, 5) { R(Fv, ld_copy); R(Fo<128>, st_copy); }
      PICK(m * 4, 6) { R(Fo<sizeof(U)>, ld_copy); R(Fo<32>, ld_ctor); R(Fo<sizeof(U)>, st_copy); }
    });
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
