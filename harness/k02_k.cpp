// K02: split, concat, resizing casts. Every kernel maps nin consecutive
// elements to nout elements: the same elements, cut off or filled up with zero.
#include "vh_pairs.h"
#include <array>
#include <tuple>
namespace prop = stdx::__proposed;
template <class T> void regk(const char* op, const char* abi, int nin, int nout, kern k, const char* abi2 = nullptr, bool mask = false)
{ vh::add({op, mask ? vh::BOOL : vh::ty_v<T>, vh::ty_v<T>, abi, nin, 0, k, abi2, nout}); }
template <class V> [[gnu::always_inline]] inline V at(const void* p, long e) { return V(static_cast<const typename V::value_type*>(p) + e, VH_ELEM); }
template <class V> [[gnu::always_inline]] inline void put(void* p, long e, const V& v) { v.copy_to(static_cast<typename V::value_type*>(p) + e, VH_ELEM); }
// split<W>(v)
template <class V, class W> [[gnu::noipa]] void k_splitv(const void* const* in, void* const* out, long n)
{
  for (long q = 0; q < n; ++q)
    {
      const V v = ld<V>(in[0], q);
      auto a = stdx::split<W>(v);
      static_assert(a.size() * W::size() == V::size());
      for (size_t i = 0; i < a.size(); ++i) put(out[0], q * V::size() + i * W::size(), a[i]);
    }
}
// of a result of an operation (dirty padding)
template <class V, class W> [[gnu::noipa]] void k_splitop(const void* const* in, void* const* out, long n)
{
  using T = typename V::value_type;
  for (long q = 0; q < n; ++q)
    {
      V v = ld<V>(in[0], q); where(v == v, v) = v; v = v + T(0) * T(1);
      auto a = stdx::split<W>(v);
      for (size_t i = 0; i < a.size(); ++i) put(out[0], q * V::size() + i * W::size(), a[i]);
    }
}
template <class V, class W> [[gnu::noipa]] void k_roundtrip(const void* const* in, void* const* out, long n)
{ for (long q = 0; q < n; ++q) { auto r = concat(stdx::split<W>(ld<V>(in[0], q))); static_assert(r.size() == V::size()); put(out[0], q * V::size(), r); } }
template <class V, class W> [[gnu::noipa]] void k_splitm(const void* const* in, void* const* out, long n)
{
  using M = typename V::mask_type; using M2 = typename W::mask_type;
  for (long q = 0; q < n; ++q)
    {
      const M v = ldm<M>(in[0], q);
      auto a = stdx::split<M2>(v);
      for (size_t i = 0; i < a.size(); ++i) a[i].copy_to(static_cast<bool*>(out[0]) + q * V::size() + i * W::size(), VH_ELEM);
    }
}
template <class V, class W> [[gnu::noipa]] void k_splitmn(const void* const* in, void* const* out, long n)
{
  using M = typename V::mask_type; using M2 = typename W::mask_type;
  for (long q = 0; q < n; ++q)
    {
      const M v = !ldm<M>(in[0], q);
      auto a = stdx::split<M2>(v);
      for (size_t i = 0; i < a.size(); ++i) { M2 m = !a[i]; m.copy_to(static_cast<bool*>(out[0]) + q * V::size() + i * W::size(), VH_ELEM);
	if (popcount(a[i]) + popcount(m) != int(W::size())) static_cast<bool*>(out[0])[q * V::size()] ^= true; }
    }
}
// split<Sizes...>(v)
template <class V, size_t... S> struct Sp
{
  template <class Tup, size_t... I> static void store(void* o, long e, const Tup& t, std::index_sequence<I...>)
  { ((put(o, e, std::get<I>(t)), e += std::tuple_element_t<I, Tup>::size()), ...); }
  [[gnu::noipa]] static void kern(const void* const* in, void* const* out, long n)
  { for (long q = 0; q < n; ++q) { const V v = ld<V>(in[0], q); auto t = stdx::split<S...>(v); store(out[0], q * V::size(), t, std::make_index_sequence<sizeof...(S)>()); } }
  [[gnu::noipa]] static void back(const void* const* in, void* const* out, long n)
  { for (long q = 0; q < n; ++q) { const V v = ld<V>(in[0], q); auto r = std::apply([](auto... x) { return concat(x...); }, stdx::split<S...>(v)); put(out[0], q * V::size(), r); } }
};
// concat(v...)
template <class... Vs> struct Co
{
  using T = typename std::tuple_element_t<0, std::tuple<Vs...>>::value_type;
  static constexpr long N = (Vs::size() + ...);
  template <class V> static V take(const void* p, long& e) { V v = at<V>(p, e); e += V::size(); return v; }
  [[gnu::noipa]] static void kern(const void* const* in, void* const* out, long n)
  { for (long q = 0; q < n; ++q) { long e = q * N; std::tuple<Vs...> t{take<Vs>(in[0], e)...}; auto r = std::apply([](const auto&... x) { return concat(x...); }, t); static_assert(r.size() == N); put(out[0], q * N, r); } }
};
template <class V, size_t A> struct Ca
{
  static constexpr long N = V::size() * A;
  [[gnu::noipa]] static void kern(const void* const* in, void* const* out, long n)
  { for (long q = 0; q < n; ++q) { std::array<V, A> a; for (size_t i = 0; i < A; ++i) a[i] = at<V>(in[0], q * N + long(i * V::size())); auto r = concat(a); static_assert(r.size() == N); put(out[0], q * N, r); } }
};
// resizing casts
template <class V, class W> [[gnu::noipa]] void k_resize(const void* const* in, void* const* out, long n)
{ for (long q = 0; q < n; ++q) { const V v = ld<V>(in[0], q); st(out[0], q, prop::resizing_simd_cast<W>(v)); } }
// destination elements beyond the source must be zero whatever the padding of the source holds
template <class V, class W> [[gnu::noipa]] void k_resizeop(const void* const* in, void* const* out, long n)
{ using T = typename V::value_type; for (long q = 0; q < n; ++q) { V v = ld<V>(in[0], q); V one = T(1); v = v / one; st(out[0], q, prop::resizing_simd_cast<W>(v)); } }
template <class V, class W> [[gnu::noipa]] void k_resizebc(const void* const* in, void* const* out, long n)
{ using T = typename V::value_type; for (long q = 0; q < n; ++q) { V v = static_cast<const T*>(in[0])[q * long(V::size())]; V w = ld<V>(in[0], q); for (int i = 0; i < int(V::size()); ++i) v[i] = T(w[i]); st(out[0], q, prop::resizing_simd_cast<W>(v)); } }

template <class V> constexpr long cap = stdx::simd_abi::max_fixed_size<typename V::value_type>;
template <class T, int L> void regs()
{
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
    constexpr int N = V::size();
    const char* a = l.name;
#define PICK(mod, salt) if constexpr (vh_pick(L, mod, salt, N, sizeof(T), is_fixed<V>))
    auto sv = [&](auto w) {
      using W = typename decltype(w)::type;
      constexpr int K = W::size();
      static char nm[64]; snprintf(nm, sizeof nm, "%s%d", w.name, K); const char* name = strdup(nm);
#define PICKW(mod, salt) if constexpr (vh_pick(L, mod, salt, N + 64 * K, sizeof(T), is_fixed<V> + 2 * is_fixed<W>))
      if constexpr (N % K == 0)
	{
	  regk<T>("splitv", a, N, N, k_splitv<V, W>, name);
	  PICKW(3, 6) regk<T>("splitmn", a, N, N, k_splitmn<V, W>, name, true);
	  PICKW(6, 1) regk<T>("splitm", a, N, N, k_splitm<V, W>, name, true);
	  PICKW(6, 2) regk<T>("splitop", a, N, N, k_splitop<V, W>, name);
	  if constexpr (N <= cap<V>) PICKW(6, 3) regk<T>("roundtrip", a, N, N, k_roundtrip<V, W>, name);
	}
      regk<T>("resize", a, N, K, k_resize<V, W>, name);
      PICKW(4, 4) regk<T>("resizeop", a, N, K, k_resizeop<V, W>, name);
      PICKW(6, 5) regk<T>("resizebc", a, N, K, k_resizebc<V, W>, name);
    };
    auto S = [&](auto... s) {
      constexpr auto ok = (decltype(s)::value + ...) == N && ((decltype(s)::value > 0) && ...);
      if constexpr (ok)
	if constexpr ((has_deduce<T, int(decltype(s)::value)>::value && ...))
	  {
	    std::string nm; ((nm += (nm.empty() ? "" : ",") + std::to_string(s())), ...);
	    const char* name = strdup(nm.c_str());
	    regk<T>("split", a, N, N, Sp<V, size_t(decltype(s)::value)...>::kern, name);
	    if constexpr (N <= cap<V> && vh_pick(L, 3, 8, N, sizeof...(s))) regk<T>("splitback", a, N, N, Sp<V, size_t(decltype(s)::value)...>::back, name);
	  }
    };
#define C(x) std::integral_constant<size_t, size_t((x) > 0 ? (x) : 0)>()
    sv(VL<stdx::simd<T, stdx::simd_abi::scalar>>{"scalar"});
    sv(VL<stdx::simd<T>>{"compatible"});
    PICK(6, 11) sv(VL<stdx::native_simd<T>>{"native"});
    PICK(6, 12) if_deduce<T, N / 2>(sv);
    PICK(6, 13) if_fixed<T, N / 2>(sv);
    PICK(6, 14) { if_deduce<T, N / 3>(sv); if_fixed<T, N / 4>(sv); }
    PICK(6, 15) { if_deduce<T, N / 4>(sv); if_fixed<T, N / 3>(sv); }
    PICK(9, 16) { if_deduce<T, N>(sv); if_fixed<T, N>(sv); }
    PICK(6, 17) { if_deduce<T, N + 1>(sv); if_fixed<T, N - 1>(sv); }
    PICK(6, 18) { if_deduce<T, N - 1>(sv); if_fixed<T, N + 2>(sv); }
    PICK(6, 19) { if_deduce<T, N * 2>(sv); if_fixed<T, 7>(sv); }
    S(C(N));
    if constexpr (N % 2 == 0) S(C(N / 2), C(N / 2));
    if constexpr (N % 3 == 0) { S(C(N / 3), C(N / 3), C(N / 3)); PICK(3, 21) S(C(2 * N / 3), C(N / 3)); PICK(3, 22) S(C(N / 3), C(2 * N / 3)); }
    if constexpr (N % 4 == 0) { PICK(3, 51) { S(C(N / 4), C(N / 4), C(N / 4), C(N / 4)); S(C(3 * N / 4), C(N / 4)); } PICK(3, 52) S(C(N / 2), C(N / 4), C(N / 4)); PICK(3, 53) S(C(N / 4), C(N / 4), C(N / 2)); PICK(3, 54) S(C(N / 4), C(N / 2), C(N / 4)); }
    PICK(6, 23) { S(C(N - 1), C(1)); S(C(1), C(N - 1)); }
    PICK(6, 24) { S(C(2), C(N - 5), C(3)); S(C(N - 3), C(3)); }
    PICK(6, 25) { S(C(3), C(N - 3)); S(C(1), C(2), C(N - 4), C(1)); }
    PICK(9, 26) { S(C(4), C(N - 4)); S(C(8), C(N - 8)); S(C(N - 4), C(4)); S(C(5), C(4), C(N - 9)); }
    if constexpr (N == 8) S(C(1), C(1), C(1), C(1), C(1), C(1), C(1), C(1));
    if constexpr (N == 16) S(C(8), C(4), C(2), C(1), C(1));
    if constexpr (N == 7) { S(C(1), C(2), C(4)); S(C(4), C(2), C(1)); }
    auto co = [&](const char* nm, auto* p) {
      using X = std::remove_pointer_t<decltype(p)>;
      if constexpr (X::N <= cap<V>) regk<T>("concat", a, X::N, X::N, X::kern, nm);
    };
    using Sc = stdx::simd<T, stdx::simd_abi::scalar>;
    PICK(9, 31) co("v", (Co<V>*)0);
    co("v,v", (Co<V, V>*)0);
    PICK(6, 32) co("v,v,v", (Co<V, V, V>*)0);
    PICK(6, 33) co("v,v,v,v", (Co<V, V, V, V>*)0);
    PICK(6, 34) { co("v,scalar", (Co<V, Sc>*)0); co("scalar,v,scalar", (Co<Sc, V, Sc>*)0); }
    PICK(6, 35) { co("v,fixed3", (Co<V, stdx::fixed_size_simd<T, 3>>*)0); co("fixed5,v", (Co<stdx::fixed_size_simd<T, 5>, V>*)0); }
    if constexpr (has_deduce<T, 2>::value) PICK(6, 36) co("deduce2,v,deduce2", (Co<stdx::simd<T, stdx::simd_abi::deduce_t<T, 2>>, V, stdx::simd<T, stdx::simd_abi::deduce_t<T, 2>>>*)0);
    if constexpr (has_deduce<T, 3>::value) PICK(6, 37) co("v,deduce3,scalar", (Co<V, stdx::simd<T, stdx::simd_abi::deduce_t<T, 3>>, Sc>*)0);
    auto ca = [&](const char* nm, auto* p) {
      using X = std::remove_pointer_t<decltype(p)>;
      if constexpr (X::N <= cap<V>) regk<T>("concata", a, X::N, X::N, X::kern, nm);
    };
    ca("2", (Ca<V, 2>*)0); PICK(6, 41) ca("3", (Ca<V, 3>*)0); PICK(6, 42) { ca("1", (Ca<V, 1>*)0); ca("4", (Ca<V, 4>*)0); } PICK(6, 43) ca("8", (Ca<V, 8>*)0);
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
