// T01: fixed_size objects cross the border between translation units that were
// compiled for different feature sets (this file is compiled once per ISA).
#include "vh_pairs.h"
#include "chk.h"
using namespace stdx;
#ifndef ISA
#error ISA
#endif
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2(a, b)
template <class T, int N> using V = fixed_size_simd<T, N>;
template <class T, int N> using M = fixed_size_simd_mask<T, N>;
#ifdef ALL
#define LIST(X) X(schar, signed char) X(ushort, unsigned short) X(int, int) X(ulong, unsigned long) X(float, float) X(double, double) X(ldouble, long double)
#else
#define LIST(X) X(schar, signed char) X(ushort, unsigned short) X(int, int) X(double, double)
#endif
#define NS(X, n, t) X(n, t, 1) X(n, t, 2) X(n, t, 3) X(n, t, 5) X(n, t, 8) X(n, t, 13) X(n, t, 16) X(n, t, 32)
#define DECL(isa, n, t, N) \
  V<t, N> axpy_##isa##_##n##_##N(V<t, N> x, const V<t, N>& y, V<t, N>* z); \
  M<t, N> less_##isa##_##n##_##N(V<t, N> x, M<t, N> k, M<t, N>* o); \
  void sel_##isa##_##n##_##N(M<t, N> k, V<t, N>& x, V<t, N> y);
#ifdef CALLER
#define D(n, t, N) DECL(sse2, n, t, N) DECL(avx2, n, t, N) DECL(knl, n, t, N) DECL(skx, n, t, N)
#define X(n, t) NS(D, n, t)
LIST(X)
#undef X
#undef D
template <class T, int N, class F, class G, class H> void one(const char* what, F f, G g, H h)
{
  chk_key = std::string("|") + what + "|" + vh::ty_name(vh::ty_v<T>) + "|" + std::to_string(N);
  T a[N], b[N], r[N], s[N];
  for (int rep = 0; rep < 8; ++rep)
    {
      for (int i = 0; i < N; ++i) { a[i] = T((i * 7 + rep) % 23); b[i] = T((i * 5 + 3 * rep) % 19); }
      V<T, N> x(a, element_aligned), y(b, element_aligned), z, w;
      w = f(x, y, &z);
      w.copy_to(r, element_aligned); z.copy_to(s, element_aligned);
      bool ok = true, oz = true;
      for (int i = 0; i < N; ++i) { ok &= r[i] == T(a[i] * T(2) + b[i]); oz &= s[i] == T(a[i] + T(1)); }
      C("exchange|simd_by_value", ok); C("exchange|simd_by_pointer", oz);
      bool kb[N], mb[N], ob[N];
      for (int i = 0; i < N; ++i) kb[i] = (i + rep) % 3 == 0;
      M<T, N> k(kb, element_aligned), o;
      M<T, N> m = g(x, k, &o);
      m.copy_to(mb, element_aligned); o.copy_to(ob, element_aligned);
      ok = oz = true; int cnt = 0;
      for (int i = 0; i < N; ++i) { ok &= mb[i] == ((a[i] < T(9)) != kb[i]); oz &= ob[i] == !kb[i]; cnt += mb[i]; }
      C("exchange|mask_by_value", ok && popcount(m) == cnt); C("exchange|mask_by_pointer", oz && all_of(o) == !any_of(k));
      h(k, x, y); x.copy_to(r, element_aligned);
      ok = true; for (int i = 0; i < N; ++i) ok &= r[i] == (kb[i] ? b[i] : a[i]);
      C("exchange|where", ok);
    }
}
#define CALL(isa, n, t, N) one<t, N>(#isa, axpy_##isa##_##n##_##N, less_##isa##_##n##_##N, sel_##isa##_##n##_##N);
#define D(n, t, N) CALL(sse2, n, t, N) CALL(avx2, n, t, N) CALL(knl, n, t, N) CALL(skx, n, t, N)
#define X(n, t) NS(D, n, t)
static void run(const void* const*, void* const*, long) { LIST(X) chk_done(); }
static int init = [] { vh::add({"exchange", vh::I32, vh::I32, "fixed_size", 1, 0, run, nullptr, 0}); return 0; }();
#else
#define DEF(isa, n, t, N) \
  [[gnu::noipa]] V<t, N> CAT(CAT(axpy_, isa), _##n##_##N)(V<t, N> x, const V<t, N>& y, V<t, N>* z) { using T_ = t; *z = x + T_(1); return x * T_(2) + y; } \
  [[gnu::noipa]] M<t, N> CAT(CAT(less_, isa), _##n##_##N)(V<t, N> x, M<t, N> k, M<t, N>* o) { using T_ = t; *o = !k; return (x < T_(9)) ^ k; } \
  [[gnu::noipa]] void CAT(CAT(sel_, isa), _##n##_##N)(M<t, N> k, V<t, N>& x, V<t, N> y) { where(k, x) = y; }
#define D(n, t, N) DEF(ISA, n, t, N)
#define X(n, t) NS(D, n, t)
LIST(X)
#endif
