// P01: the same expression on operands whose values the optimiser can see (generators, broadcasts, constant initialisers)
// and on operands it cannot see (through an opaque function) gives the same elements.
#include "vh_pairs.h"
#include "chk.h"
#include <functional>
#ifndef VH_T
#define VH_T int
#define VH_G 0
#endif
using namespace stdx;
namespace prop = stdx::__proposed;
namespace {
template <class T, int S> constexpr T elA(int i, int)
{
  using L = std::numeric_limits<T>;
  if constexpr (S == 0) return T(i % 100 + 1);
  else if constexpr (S == 1) return T((i % 2 ? -1 : 1) * (i * 3 % 60 + 1));
  else if constexpr (S == 3) return T(-1);
  else if constexpr (S == 4) return T(0);
  else if constexpr (S == 5 && std::is_floating_point_v<T>)
    { const T t[] = {L::infinity(), T(-0.), L::quiet_NaN(), L::denorm_min(), T(-1.5), -L::infinity(), L::min(), T(2.5)}; return t[i % 8]; }
  else { const T t[] = {L::max(), L::lowest(), T(0), T(1), T(L::max() - T(1)), T(2), T(L::max() / 2)}; return t[i % 7]; }
}
template <class T, int S> constexpr T elB(int i, int)
{
  using L = std::numeric_limits<T>;
  if constexpr (S == 0) return T(3);
  else if constexpr (S == 1) return T(i % 3 + 1);
  else if constexpr (S == 3) return T(2);
  else if constexpr (S == 4) return i % 2 ? T(1) : T(5);
  else if constexpr (S == 5 && std::is_floating_point_v<T>)
    { const T t[] = {T(1), T(0.), T(-0.), L::quiet_NaN(), L::infinity(), T(-0.5), L::max()}; return t[i % 7]; }
  else return T(1 + (i & 1));
}
template <class T, int S> constexpr T elS(int i, int)
{
  constexpr int bits = sizeof(T) * 8;
  return S == 0 ? T(3) : S == 1 ? T(i % bits) : S == 2 ? T(bits - 1 - i % bits) : S == 3 ? T(1) : S == 4 ? T(0) : T(sizeof(T) < 4 ? 31 - i % 2 : bits - 1);
}
template <int S> constexpr bool elM(int i, int n) { return S == 0 ? i % 2 == 0 : S == 1 ? true : S == 2 ? false : S == 3 ? i == 0 : S == 4 ? i == n - 1 : i % 3 == 1; }

template <class V, int S> struct Cn
{
  using T = typename V::value_type; using M = typename V::mask_type;
  static constexpr int N = V::size();
  [[gnu::always_inline]] static inline constexpr V a()
  { if constexpr (S == 3 || S == 4) return V(elA<T, S>(0, N)); else return V([](auto i) { return elA<T, S>(int(i), N); }); }
  [[gnu::always_inline]] static inline constexpr V b()
  { if constexpr (S == 0 || S == 3) return V(elB<T, S>(0, N)); else return V([](auto i) { return elB<T, S>(int(i), N); }); }
  [[gnu::always_inline]] static inline constexpr V s() { return V([](auto i) { return elS<T, S>(int(i), N); }); }
  [[gnu::always_inline]] static inline constexpr M m()
  { if constexpr (S == 1 || S == 2) return M(S == 1); else return V([](auto i) { return T(elM<S>(int(i), N)); }) == V(T(1)); }
};
template <class X> [[gnu::noipa]] X opaque(X x) { return x; }

// --- recording: element values per form
#ifdef VH_PAD
constexpr int NF = 16;
#else
constexpr int NF = 7;
#endif
static long double rec_[NF][256];
static unsigned char raw_[NF][256][16];
static int len_[NF];
template <class X> void put1(int f, X x)
{
  raw_[f][len_[f]][0] = 0;
  if constexpr (std::is_floating_point_v<X>)
    {
      std::memset(raw_[f][len_[f]], 0, 16);
      if (x != x) raw_[f][len_[f]][15] = 1; // any NaN
      else { std::memcpy(raw_[f][len_[f]], &x, sizeof(X) > 8 ? 10 : sizeof(X)); }
      rec_[f][len_[f]] = x;
    }
  else { std::memset(raw_[f][len_[f]], 0, 16); std::memcpy(raw_[f][len_[f]], &x, sizeof(X)); rec_[f][len_[f]] = (long double)x; }
  ++len_[f];
}
template <class R> [[gnu::noipa]] void rec(int f, const R& r)
{
  if constexpr (is_simd_v<R>)
    { for (std::size_t i = 0; i < R::size(); ++i) put1<typename R::value_type>(f, r[i]);
      typename R::value_type m[R::size()]; r.copy_to(m, element_aligned); for (auto x : m) put1(f, x); }
  else if constexpr (is_simd_mask_v<R>)
    { for (std::size_t i = 0; i < R::size(); ++i) put1<bool>(f, r[i]);
      bool m[R::size()]; r.copy_to(m, element_aligned); for (auto& x : m) { unsigned char c; std::memcpy(&c, &x, 1); put1(f, c); }
      put1(f, popcount(r)); put1(f, all_of(r)); put1(f, any_of(r)); }
  else put1(f, r);
}
template <class A, class B> void rec(int f, const std::pair<A, B>& p) { rec(f, p.first); rec(f, p.second); }
template <class A, class... B> void rec(int f, const std::tuple<A, B...>& p) { std::apply([&](const auto&... x) { (rec(f, x), ...); }, p); }
template <class A, std::size_t N> void rec(int f, const std::array<A, N>& p) { for (auto& x : p) rec(f, x); }
#ifdef VH_PAD
// P02: the same operands with different padding contents
static const char* const forms[NF] = {"as loaded", "1", "-1", "max", "lowest", "0", "-0 or 2", "infinity or 0x55", "NaN or max/2", "denormal or 3", "first: 0, second: max", "first: -1, second: 0", "mask padding set", "-1, mask padding set", "max, mask padding set", "0, mask padding set"};
#define REF "as loaded"
#else
#define REF "with opaque operands"
static const char* const forms[NF] = {"opaque", "all constant", "a constant", "b constant", "mask constant", "a, b constant", "constant initialiser"};
#endif
[[gnu::noinline]] static void compare(const char* op, int set, bool zeros_equal)
{
  for (int f = 1; f < NF; ++f)
    {
      bool ok = len_[f] == len_[0]; int at = -1;
      for (int i = 0; ok && i < len_[0]; ++i)
	if (std::memcmp(raw_[0][i], raw_[f][i], 16) && !(zeros_equal && rec_[0][i] == 0 && rec_[f][i] == 0)) { ok = false; at = i; }
      ++chk_n;
      if (!ok) vh::fail((std::string(op) + "|" + chk_key).c_str(), "operand set %d, %s%s: result element %d is %Lg, %s %Lg", set, NF == 7 ? "" : "padding ", forms[f], at, at < 0 ? 0 : rec_[f][at], REF, at < 0 ? 0 : rec_[0][at]);
    }
}
#ifdef VH_PAD
template <class T> T padval(int c)
{
  using L = std::numeric_limits<T>;
  constexpr bool fp = std::is_floating_point_v<T>;
  switch (c)
    {
    case 1: return T(1);
    case 2: return T(-1);
    case 3: return L::max();
    case 4: return L::lowest();
    case 5: return T(0);
    case 6: return fp ? T(-0.) : T(2);
    case 7: return fp ? L::infinity() : T(0x55);
    case 8: return fp ? L::quiet_NaN() : T(L::max() / 2);
    default: return fp ? L::denorm_min() : T(3);
    }
}
template <class V> [[gnu::noipa]] bool contiguous()
{
  using T = typename V::value_type;
  T buf[V::size()], mem[sizeof(V) / sizeof(T)];
  for (std::size_t k = 0; k < V::size(); ++k) buf[k] = T(k + 1);
  V x(buf, element_aligned);
  std::memcpy(mem, &x, sizeof(x));
  return 0 == std::memcmp(buf, mem, sizeof(buf));
}
template <class V> [[gnu::noipa]] V padded(const typename V::value_type* m, int c)
{
  using T = typename V::value_type;
  V v(m, element_aligned);
  static const bool cont = contiguous<V>();
  if (c && cont)
    {
      const T x = padval<T>(c);
      for (std::size_t k = V::size() * sizeof(T); k + sizeof(T) <= sizeof(V); k += sizeof(T)) std::memcpy(reinterpret_cast<char*>(&v) + k, &x, sizeof(T));
    }
  return v;
}
template <class V> [[gnu::noipa]] typename V::mask_type padmask(const bool* m, int c)
{
  using T = typename V::value_type;
  if (!c) return typename V::mask_type(m, element_aligned);
  T t[V::size()], u[V::size()];
  for (std::size_t k = 0; k < V::size(); ++k) t[k] = 1, u[k] = m[k];
  return padded<V>(t, 1) == padded<V>(u, 1);
}
template <class V, class O> [[gnu::noipa]] auto once(const V& a, const V& b, const typename V::mask_type& k) { return O::template f<V>(a, b, k); }
template <class V, class O, int S> [[gnu::noipa]] void test(const char* name)
{
  using T = typename V::value_type; constexpr int N = V::size();
  using L = std::numeric_limits<T>;
  static unsigned long rng = 88172645463325252ull + 977 * VH_CFG;
  for (int round = 0; round < (S == 0 || S == 2 ? 12 : 2); ++round)
    {
      T a[N], b[N]; bool m[N];
      for (int i = 0; i < N; ++i) { a[i] = elA<T, S>(i, N); b[i] = O::shift ? elS<T, S>(i, N) : elB<T, S>(i, N); m[i] = elM<S>(i, N); }
      for (int i = 0; round > 0 && i < N; ++i)
	{
	  rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17;
	  m[i] = rng >> 11 & 1;
	  if (S == 0 && round > 1) { a[i] = T(int(rng >> 20 & 15)); if (round % 2) a[i] = T(-a[i]); if (!O::shift) b[i] = T(int(rng >> 30 & 3) + 1); else b[i] = T(int(rng >> 33) & int(sizeof(T) * 8 - 1)); }
	  if (S == 2 && round > 1) { const T q[] = {L::max(), L::lowest(), T(L::max() / 2), T(L::lowest() / 2), T(3), T(0), T(1), T(2)}; a[i] = q[rng >> 22 & 7]; }
	  if (round == 11) a[i] = a[0];
	}
      for (int f = 0; f < NF; ++f)
	{
	  len_[f] = 0;
	  const int ca = f < 10 ? f : f == 10 ? 5 : f == 11 || f == 13 ? 2 : f == 14 ? 3 : f == 15 ? 5 : 0, cb = f < 10 ? f : f == 10 ? 3 : f == 11 ? 5 : f == 12 ? 0 : ca;
	  rec(f, once<V, O>(padded<V>(a, ca), padded<V>(b, cb), padmask<V>(m, f >= 12)));
	}
      compare(name, S, O::zeros);
    }
}
#else
template <class V, class O, int S> struct Stat { static inline const auto r = O::template f<V>(Cn<V, S>::a(), O::shift ? Cn<V, S>::s() : Cn<V, S>::b(), Cn<V, S>::m()); };

template <class V, class O, int S> [[gnu::noipa]] void test(const char* name)
{
  const auto a = Cn<V, S>::a(); const auto b = O::shift ? Cn<V, S>::s() : Cn<V, S>::b(); const auto m = Cn<V, S>::m();
  const auto A = opaque(a); const auto B = opaque(b); const auto M = opaque(m);
  for (int& l : len_) l = 0;
  rec(0, O::template f<V>(A, B, M));
  rec(1, O::template f<V>(a, b, m));
  rec(2, O::template f<V>(a, B, M));
  rec(3, O::template f<V>(A, b, M));
  rec(4, O::template f<V>(A, B, m));
  rec(5, O::template f<V>(a, b, M));
  rec(6, Stat<V, O, S>::r);
  compare(name, S, O::zeros);
}
#endif
// --- the expressions
// flags: o overflows on set 2, d division (no extreme set on integers), f floating point only, i integer only, z either zero
constexpr bool has(const char* fl, char c) { for (; *fl; ++fl) if (*fl == c) return true; return false; }
#define OPS(NAME, FLAGS, ...) struct o_##NAME { static constexpr const char* flags = FLAGS; static constexpr bool shift = has(FLAGS, 's'), zeros = has(FLAGS, 'z'); \
  template <class V> [[gnu::always_inline]] static inline auto f(const V a, const V b, const typename V::mask_type k) { using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = V::size(); \
  (void)a; (void)b; (void)k; (void)N; using T_ [[maybe_unused]] = T; using M_ [[maybe_unused]] = M; __VA_ARGS__; } };
#define OPC(NAME, FLAGS, ...) struct o_##NAME { static constexpr const char* flags = FLAGS; static constexpr bool shift = has(FLAGS, 's'), zeros = has(FLAGS, 'z'); \
  template <class V> [[gnu::always_inline]] static inline constexpr auto f(const V a, const V b, const typename V::mask_type k) { using T [[maybe_unused]] = typename V::value_type; (void)a; (void)b; (void)k; return __VA_ARGS__; } };
OPC(add, "o", a + b) OPC(sub, "o", a - b) OPC(mul, "o", a * b) OPC(div, "d", a / b) OPC(mod, "di", a % b)
OPC(and, "i", a & b) OPC(or, "i", a | b) OPC(xor, "i", a ^ b) OPC(shl, "iso", a << b) OPC(shr, "is", a >> b) OPC(shl3, "io", a << 3) OPC(shr1, "i", a >> 1)
OPC(neg, "o", -a) OPC(compl, "i", ~a) OPC(pos, "", +a) OPC(mul8, "o", a * V(T(8))) OPC(div4, "d", a / V(T(4))) OPC(div5, "d", a / V(T(5))) OPC(mod8, "di", a % V(T(8)))
OPC(vshl, "i", V(T(1)) << b) OPC(sdiv, "d", V(T(100)) / b)
OPS(inc, "o", V r = a; ++r; return r) OPS(pdec, "o", V r = a; V q = r--; return std::make_pair(r, q))
OPC(eq, "", a == b) OPC(ne, "", a != b) OPC(lt, "", a < b) OPC(le, "", a <= b) OPC(gt, "", a > b) OPC(ge, "", a >= b)
OPC(lt0, "", a < V(T(0))) OPC(eq0, "", a == V(T(0))) OPC(gt1, "", a > V(T(1)))
OPS(lnot, "", return !a)
OPS(mand, "", return k & (a < b)) OPS(mor, "", return k | (a < b)) OPS(mxor, "", return k ^ (a < b)) OPS(mnot, "", return !k) OPS(mland, "", return k && a == b) OPS(mlor, "", return k || a != b)
OPS(meq, "", return k == (a < b)) OPS(mne, "", return k != (a >= b)) OPS(meqself, "", return std::make_pair(k == k, k == !k))
OPS(all, "", return std::make_pair(all_of(k), all_of(a < b))) OPS(any, "", return std::make_pair(any_of(k), any_of(a < b))) OPS(none, "", return std::make_pair(none_of(k), none_of(a == b)))
OPS(some, "", return std::make_pair(some_of(k), some_of(a < b))) OPS(pop, "", return std::make_pair(popcount(k), popcount(a < b)))
OPS(ffs, "", return std::make_pair(any_of(k) ? find_first_set(k) : -1, any_of(a <= b) ? find_first_set(a <= b) : -1))
OPS(fls, "", return std::make_pair(any_of(k) ? find_last_set(k) : -1, any_of(a >= b) ? find_last_set(a >= b) : -1))
OPS(msub, "", return std::make_pair(bool(k[0]), bool(k[N - 1])))
OPS(mcopy, "", std::array<bool, N> r{}; k.copy_to(r.data(), element_aligned); return r)
OPS(vsub, "", return std::make_pair(T(a[0]), T(b[N - 1])))
OPS(asgsub, "", V r = a; r[N / 2] = b[0]; r[0] = T(9); return r)
OPS(masgsub, "", M r = k; r[N / 2] = !bool(k[0]); r[0] = true; return r)
OPS(vcopy, "", std::array<T, N> r{}; a.copy_to(r.data(), element_aligned); return r)
OPS(ctl, "", static constexpr auto mem = [] { std::array<T, N> r{}; for (int i = 0; i < N; ++i) r[i] = T(i + 3); return r; }(); return V(mem.data(), element_aligned))
// masked operations
OPS(wasg, "", V r = a; where(k, r) = b; return r) OPS(wasgc, "", V r = a; where(k, r) = T(7); return r) OPS(wasg0, "", V r = a; where(k, r) = T(0); return r)
OPS(wasgm1, "", V r = a; where(!k, r) = T(-1); return r)
OPS(wadd, "o", V r = a; where(k, r) += b; return r) OPS(wsub, "o", V r = a; where(k, r) -= T(1); return r) OPS(wmul, "o", V r = a; where(k, r) *= b; return r) OPS(wdiv, "d", V r = a; where(k, r) /= b; return r)
OPS(wmod, "di", V r = a; where(k, r) %= b; return r) OPS(wand, "i", V r = a; where(k, r) &= b; return r) OPS(wor, "i", V r = a; where(k, r) |= T(5); return r) OPS(wxor, "i", V r = a; where(k, r) ^= b; return r)
OPS(wshl, "iso", V r = a; where(k, r) <<= b; return r) OPS(wshr, "i", V r = a; where(k, r) >>= 1; return r)
OPS(wneg, "o", return V(-where(k, a))) OPS(wpos, "", return V(+where(k, a)))
OPS(winc, "o", V r = a; ++where(k, r); return r) OPS(wdec, "o", V r = a; where(k, r)--; return r)
OPS(wmask, "", M r = a < b; where(k, r) = a == b; return r) OPS(wmaskt, "", M r = a < b; where(k, r) = M(true); return r)
OPS(wload, "", static constexpr auto mem = [] { std::array<T, N> r{}; for (int i = 0; i < N; ++i) r[i] = T(i + 3); return r; }(); V r = a; where(k, r).copy_from(mem.data(), element_aligned); return r)
OPS(wloadc, "", static constexpr auto mem = [] { std::array<signed char, N> r{}; for (int i = 0; i < N; ++i) r[i] = i + 3; return r; }(); V r = a; where(k, r).copy_from(mem.data(), element_aligned); return r)
OPS(wstore, "", std::array<T, N> r{}; where(k, a).copy_to(r.data(), element_aligned); return r)
OPS(sel, "", V r = b; where(a < b, r) = a; return r) OPS(sel2, "", V r = a; where(a < V(T(2)), r) = b; where(k, r) = a; return r)
// reductions
OPS(rsum, "or", return reduce(a)) OPS(rmul, "or", return reduce(b, std::multiplies<>())) OPS(rand, "i", return reduce(a, std::bit_and<>())) OPS(ror, "i", return reduce(a, std::bit_or<>())) OPS(rxor, "i", return reduce(a, std::bit_xor<>()))
OPS(rmin, "z", return hmin(a)) OPS(rmax, "z", return hmax(a)) OPS(rwsum, "or", return reduce(where(k, a))) OPS(rwmul, "or", return reduce(where(k, b), std::multiplies<>())) OPS(rwmin, "z", return hmin(where(k, a))) OPS(rwmax, "z", return hmax(where(k, a)))
OPS(ruser, "or", return reduce(a, [](auto x, auto y) { return x + y; }))
OPS(min, "z", return stdx::min(a, b)) OPS(max, "z", return stdx::max(a, b)) OPS(minmax, "z", return stdx::minmax(a, b)) OPS(clamp, "zn", return stdx::clamp(a, V(T(1)), V(T(3))))
// conversions
template <class U, class V> auto cast(const V& a)
{
  using T = typename V::value_type;
  if constexpr (std::is_floating_point_v<T> && !std::is_floating_point_v<U> && (std::is_unsigned_v<U> || sizeof(U) < 4)) return 0;
  else if constexpr (is_fixed<V>) return static_simd_cast<fixed_size_simd<U, V::size()>>(a);
  else if constexpr (has_deduce<U, V::size()>::value) return static_simd_cast<simd<U, simd_abi::deduce_t<U, V::size()>>>(a);
  else return 0;
}
template <class U, class M> auto mcast(const M& k)
{
  using V = typename M::simd_type;
  if constexpr (is_fixed<V>) return prop::static_simd_cast<fixed_size_simd_mask<U, V::size()>>(k);
  else if constexpr (has_deduce<U, V::size()>::value) return prop::static_simd_cast<simd_mask<U, simd_abi::deduce_t<U, V::size()>>>(k);
  else return 0;
}
template <class M, int N> auto msplit(const M& k)
{
  using V = typename M::simd_type; using T = typename V::value_type;
  if constexpr (N % 2) return 0;
  else if constexpr (is_fixed<V>) return split<fixed_size_simd_mask<T, N / 2>>(k);
  else if constexpr (has_deduce<T, N / 2>::value) return split<simd_mask<T, simd_abi::deduce_t<T, N / 2>>>(k);
  else return 0;
}
OPS(cschar, "c", return cast<signed char>(a)) OPS(cuchar, "c", return cast<unsigned char>(a)) OPS(cshort, "c", return cast<short>(a)) OPS(cint, "c", return cast<int>(a)) OPS(cuint, "c", return cast<unsigned>(a)) OPS(clong, "c", return cast<long>(a)) OPS(culong, "c", return cast<unsigned long>(a))
OPS(cfloat, "", return cast<float>(a)) OPS(cdouble, "", return cast<double>(a))
OPS(mcschar, "", return mcast<signed char>(k)) OPS(mcshort, "", return mcast<short>(k)) OPS(mcint, "", return mcast<int>(k)) OPS(mcdouble, "", return mcast<double>(k)) OPS(mcfloat, "", return mcast<float>(a < b))
OPS(fix, "", return to_fixed_size(a)) OPS(mfix, "", return to_fixed_size(k))
OPS(split2, "", if constexpr (N % 2 == 0) return split<N / 2, N / 2>(a); else return 0)
OPS(msplit2, "", return msplit<M, N>(k))
OPS(splitn, "", if constexpr (N >= 3) return split<1, N - 1>(a); else return 0)
OPS(cat, "", if constexpr (N * 2 <= simd_abi::max_fixed_size<T>) return concat(a, b); else return 0)
OPS(cat3, "", if constexpr (N * 3 <= simd_abi::max_fixed_size<T>) return concat(b, a, b); else return 0)
OPS(resize, "", return std::make_pair(prop::resizing_simd_cast<fixed_size_simd<T, (N + 1) / 2>>(a), prop::resizing_simd_cast<fixed_size_simd<T, (N < simd_abi::max_fixed_size<T> ? N + 1 : N)>>(a)))
OPS(abs, "o-", return abs(a))
// mathematical functions with exact results
OPS(fabs, "f", return fabs(a)) OPS(ceil, "f", return ceil(a)) OPS(floor, "f", return floor(a)) OPS(trunc, "f", return trunc(a)) OPS(round, "f", return round(a)) OPS(rint, "f", return rint(a)) OPS(sqrt, "f", return sqrt(b)) OPS(logb, "f", return logb(a))
OPS(frexp, "f", fixed_size_simd<int, N> e = 0; V r = frexp(a, &e); where(isinf(fixed_size_simd<T, N>(to_fixed_size(a))) || isnan(fixed_size_simd<T, N>(to_fixed_size(a))), static_simd_cast<fixed_size_simd<T, N>>(e)); return std::make_pair(r, static_simd_cast<fixed_size_simd<int, N>>(e)))
OPS(ldexp, "f", return ldexp(a, fixed_size_simd<int, N>([](auto i) { return int(i) - 2; }))) OPS(modf, "f", V q; V r = modf(a, &q); return std::make_pair(r, q))
OPS(ilogb, "f", return ilogb(b)) OPS(fpclassify, "f", return fpclassify(a)) OPS(isnan, "f", return isnan(a)) OPS(isinf, "f", return isinf(a)) OPS(isfinite, "f", return isfinite(a)) OPS(isnormal, "f", return isnormal(a)) OPS(signbit, "f", return signbit(a))
OPS(copysign, "f", return copysign(a, b)) OPS(fmin, "fz", return fmin(a, b)) OPS(fmax, "fz", return fmax(a, b)) OPS(fdim, "f", return fdim(a, b)) OPS(nextafter, "f", return nextafter(a, b)) OPS(fmod, "f", return fmod(a, b))
OPS(isgreater, "f", return isgreater(a, b)) OPS(islessequal, "f", return islessequal(a, b)) OPS(islessgreater, "f", return islessgreater(a, b)) OPS(isunordered, "f", return isunordered(a, b)) OPS(fma, "f", return fma(a, b, a)) OPS(hypot3, "f", return hypot(a, b, a))
#ifdef VH_PAD
OPS(sin, "f", return sin(a)) OPS(cos, "f", return cos(a)) OPS(exp, "f", return exp(a)) OPS(log, "f", return log(b)) OPS(pow, "f", return pow(b, a)) OPS(tan, "f", return tan(a)) OPS(atan2, "f", return atan2(a, b)) OPS(hypot, "f", return hypot(a, b)) OPS(cbrt, "f", return cbrt(a))
OPS(scalbn, "f", return scalbn(a, fixed_size_simd<int, N>([](auto i) { return int(i) - 2; }))) OPS(nearbyint, "f", return nearbyint(a)) OPS(erf, "f", return erf(a)) OPS(remainder, "f", return remainder(a, b)) OPS(lrint, "f", return lrint(fixed_size_simd<T, N>(to_fixed_size(b)))) OPS(hermite, "f", return hermite(fixed_size_simd<unsigned, N>(2), fixed_size_simd<T, N>(to_fixed_size(b))))
#endif

template <class V, class O> void runop(const char* name)
{
  using T = typename V::value_type;
  constexpr const char* fl = O::flags;
  if constexpr (has(fl, 'f') && !std::is_floating_point_v<T>) return;
  else if constexpr (has(fl, 'i') && std::is_floating_point_v<T>) return;
  else if constexpr (has(fl, '-') && std::is_unsigned_v<T>) return;
  else
    {
      constexpr bool sg = std::is_integral_v<T> && std::is_signed_v<T>, fp = std::is_floating_point_v<T>;
      test<V, O, 0>(name); 
      if constexpr (!(has(fl, 'c') && fp && false)) test<V, O, 1>(name);
      if constexpr (!(has(fl, 'o') && sg) && !(has(fl, 'd') && sg) && !(has(fl, 'c') && fp) && !(has(fl, 'r') && fp)) test<V, O, 2>(name);
      test<V, O, 3>(name);
      test<V, O, 4>(name);
      // NaN among the operands: comparison results only where an order matters
      if constexpr (fp ? !has(fl, 'c') && !has(fl, 'z') && !has(fl, 'r') && !has(fl, 'n') : !has(fl, 'o') || !sg) test<V, O, 5>(name);
    }
}
template <class V> void all(const void* const*, void* const* out, long)
{
  chk_key = static_cast<const char*>(out[0]); chk_key = chk_key.substr(chk_key.find('|') + 1);
#define R(x) runop<V, o_##x>(#x);
#if VH_G == 0
  R(add) R(sub) R(mul) R(div) R(mod) R(and) R(or) R(xor) R(shl) R(shr) R(shl3) R(shr1) R(neg) R(compl) R(pos) R(mul8) R(div4) R(div5) R(mod8) R(vshl) R(sdiv) R(inc) R(pdec)
  R(eq) R(ne) R(lt) R(le) R(gt) R(ge) R(lt0) R(eq0) R(gt1) R(lnot)
#elif VH_G == 1
  R(mand) R(mor) R(mxor) R(mnot) R(mland) R(mlor) R(meq) R(mne) R(meqself) R(all) R(any) R(none) R(some) R(pop) R(ffs) R(fls) R(msub) R(mcopy) R(vsub) R(asgsub) R(masgsub) R(vcopy) R(ctl)
  R(rsum) R(rmul) R(rand) R(ror) R(rxor) R(rmin) R(rmax) R(rwsum) R(rwmul) R(rwmin) R(rwmax) R(ruser) R(min) R(max) R(minmax) R(clamp)
#elif VH_G == 2
  R(wasg) R(wasgc) R(wasg0) R(wasgm1) R(wadd) R(wsub) R(wmul) R(wdiv) R(wmod) R(wand) R(wor) R(wxor) R(wshl) R(wshr) R(wneg) R(winc) R(wdec) R(wmask) R(wmaskt) R(wload) R(wloadc) R(wstore) R(sel) R(sel2)
#elif VH_G == 3
  R(cschar) R(cuchar) R(cshort) R(cint) R(cuint) R(clong) R(culong) R(cfloat) R(cdouble) R(mcschar) R(mcshort) R(mcint) R(mcdouble) R(mcfloat) R(fix) R(mfix) R(split2) R(msplit2) R(splitn) R(cat) R(cat3) R(resize) R(abs)
#else
  R(fabs) R(ceil) R(floor) R(trunc) R(round) R(rint) R(sqrt) R(logb) R(ldexp) R(modf) R(ilogb) R(fpclassify) R(isnan) R(isinf) R(isfinite) R(isnormal) R(signbit) R(copysign) R(fmin) R(fmax) R(fdim) R(nextafter) R(fmod)
  R(isgreater) R(islessequal) R(islessgreater) R(isunordered) R(fma) R(hypot3)
#ifdef VH_PAD
  R(frexp) R(sin) R(cos) R(exp) R(log) R(pow) R(tan) R(atan2) R(hypot) R(cbrt) R(nearbyint) R(erf) R(remainder) R(scalbn)
#endif
#endif
  chk_done();
}
template <class T> void regs()
{
  auto f = [](auto l) { using V = typename decltype(l)::type; reg(VH_G == 0 ? "arith" : VH_G == 1 ? "mask_reduce" : VH_G == 2 ? "where" : VH_G == 3 ? "convert" : "math", l, all<V>); };
#ifdef VH_PAD
  if constexpr (sizeof(T) == 1) for_each<T>(f, VH_D(3), VH_D(13), VH_F(7), VH_F(19));
  else if constexpr (sizeof(T) == 2) for_each<T>(f, VH_D(3), VH_D(7), VH_D(13), VH_F(13));
  else if constexpr (sizeof(T) == 4) for_each<T>(f, VH_D(3), VH_D(7), VH_D(13), VH_F(5));
  else for_each<T>(f, VH_D(3), VH_D(7), VH_F(3));
  if constexpr (VH_LEVEL >= 2)
    {
      for_each<T>(f, VH_F(1), VH_F(9), VH_F(15), VH_F(31));
      if constexpr (sizeof(T) == 1) for_each<T>(f, VH_D(5), VH_D(9), VH_D(27), VH_D(31));
      if constexpr (sizeof(T) == 1 && simd_abi::max_fixed_size<T> >= 64) for_each<T>(f, VH_D(37), VH_D(63));
      if constexpr (sizeof(T) == 2) for_each<T>(f, VH_D(5), VH_D(15), VH_D(19), VH_D(31));
      if constexpr (sizeof(T) == 4) for_each<T>(f, VH_D(5), VH_D(6), VH_D(15), VH_D(9));
      if constexpr (sizeof(T) == 8) for_each<T>(f, VH_D(5), VH_D(6));
    }
  return;
#endif
  for_each<T>(f, VH_N);
  if constexpr (VH_LEVEL >= 1) for_each<T>(f, VH_S, VH_F(5));
  if constexpr (sizeof(T) < 4) for_each<T>(f, VH_D(7)); else for_each<T>(f, VH_D(3));
  if constexpr (VH_LEVEL >= 2)
    {
      for_each<T>(f, VH_F(1), VH_F(8), VH_F(13));
      if constexpr (sizeof(T) == 1) for_each<T>(f, VH_D(8), VH_D(27), VH_F(32));
      if constexpr (sizeof(T) == 2) for_each<T>(f, VH_D(13), VH_D(4));
      if constexpr (sizeof(T) == 4) for_each<T>(f, VH_D(2), VH_D(5), VH_D(13));
      if constexpr (sizeof(T) == 8) for_each<T>(f, VH_D(2), VH_D(7), VH_C);
    }
}
}
static int init = [] { regs<VH_T>(); return 0; }();
