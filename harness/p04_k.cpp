// P04: threads that use distinct objects, or disjoint (selected) elements of one array.
// Every element has one owner; only the owner stores to it or loads it.  Observed: reports of ThreadSanitizer (when
// compiled with it), the content of every owned element after each store, and the final content of the arrays.
#include "vh_pairs.h"
#include <atomic>
#include <cmath>
#include <memory>
#include <string>
#include <thread>
#include <vector>
#ifdef __SANITIZE_THREAD__
extern "C" __attribute__((weak)) const char* __tsan_default_options() { return "suppress_equal_stacks=0:suppress_equal_addresses=0:report_signal_unsafe=0:exitcode=0:history_size=2"; }
#endif
inline std::atomic<int> tsan_reports{0};
namespace {
constexpr int K = 3; // threads
struct Log { std::string what; long n = 0, overlap = 0; char pad[64]; };
std::atomic<unsigned> progress[K * 16];
struct Others
{ // which operations of other threads this thread saw happening
  unsigned last = 0; int me;
  explicit Others(int t) : me(t) {}
  bool moved()
  {
    progress[me * 16].fetch_add(1, std::memory_order_relaxed);
    unsigned s = 0;
    for (int i = 0; i < K; ++i) if (i != me) s += progress[i * 16].load(std::memory_order_relaxed);
    const bool r = s != last; last = s; return r;
  }
};
template <class F> void threads(const char* key, F f)
{
  Log log[K];
  std::atomic<int> go{0};
  std::vector<std::thread> th;
  const int before = tsan_reports;
  for (int t = 0; t < K; ++t)
    th.emplace_back([&, t] { go.fetch_add(1, std::memory_order_relaxed); while (go.load(std::memory_order_relaxed) < K) std::this_thread::yield(); f(t, log[t]); });
  for (auto& t : th) t.join();
  long n = 0, o = 0;
  for (auto& l : log)
    { n += l.n; o += l.overlap; if (!l.what.empty()) vh::fail(key, "%s", l.what.c_str()); }
  if (tsan_reports > before) vh::fail((std::string("race|") + key).c_str(), "ThreadSanitizer reported %d data races, see the log", tsan_reports - before);
  vh::count(n, o);
  static int once = 0; if (once++ < 2) vh::sample("%s: %d threads, %ld checked elements, %ld operations overlapped with another thread's", key, K, n, o);
}
#ifdef __SANITIZE_THREAD__
constexpr int ROUNDS = VH_LEVEL >= 2 ? 150 : 50;
#else
constexpr int ROUNDS = VH_LEVEL >= 2 ? 1000 : 200;
#endif
constexpr int OWN = 5; // ownership patterns
constexpr int owner(int pat, int i) { return pat == 0 ? i % K : pat == 1 ? (i / 2) % K : pat == 2 ? (i == 0 ? 0 : 1 + (i & 1)) : pat == 3 ? (i * 7 + i / 3) % K : (i * i + 1) % K; }
template <class T> T val(int t, int r, int i) { return T((t * 40 + r % 13 * 3 + i % 3) % 120 + 1); }

// masked stores and loads of disjoint elements; out[0]: key
template <class V, class U> [[gnu::noipa]] void mstore(U* p, const V& v, const typename V::mask_type& k) { where(k, v).copy_to(p, stdx::element_aligned); }
template <class V, class U> [[gnu::noipa]] void mload(const U* p, V& v, const typename V::mask_type& k) { where(k, v).copy_from(p, stdx::element_aligned); }
template <class V, class U> [[gnu::noipa]] void store(U* p, const V& v) { v.copy_to(p, stdx::element_aligned); }
template <class V, class U> [[gnu::noipa]] void load(const U* p, V& v) { v.copy_from(p, stdx::element_aligned); }
template <class V, class U> void masked(const void* const*, void* const* out, long)
{
  using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = V::size();
  constexpr int ROWS = 6;
  std::unique_ptr<U[]> mem(new U[ROWS * N]);
  for (int pat = 0; pat < OWN; ++pat)
    {
      for (int i = 0; i < ROWS * N; ++i) mem[i] = U(0);
      threads(static_cast<const char*>(out[0]), [&](int t, Log& log) {
	Others o(t);
	for (int r = 0; r < ROUNDS; ++r)
	  for (int row = 0; row < ROWS; ++row)
	    {
	      U* const p = &mem[row * N];
	      const int d = row % 2; // shifts the pattern
	      bool b[N]; for (int i = 0; i < N; ++i) b[i] = owner(pat, i + d) == t;
	      const V v([&](auto i) { return val<T>(t, r, int(i)); });
	      const M k = row & 2 ? M(b, stdx::element_aligned) : V([&](auto i) { return T(b[int(i)]); }) == T(1);
	      mstore<V, U>(p, v, k);
	      V w(T(0));
	      mload<V, U>(p, w, k);
	      log.overlap += o.moved();
	      for (int i = 0; i < N; ++i)
		{
		  ++log.n;
		  if (b[i] && !(p[i] == U(val<T>(t, r, i)))) { if (log.what.empty()) log.what = "masked store: element " + std::to_string(i) + " of this thread was overwritten by another thread's store"; }
		  if (!(w[i] == (b[i] ? T(val<T>(t, r, i)) : T(0)))) { if (log.what.empty()) log.what = "masked load: element " + std::to_string(i) + " is not what this thread stored"; }
		}
	    }
      });
      for (int row = 0; row < ROWS; ++row)
	for (int i = 0; i < N; ++i)
	  if (!(mem[row * N + i] == U(val<T>(owner(pat, i + row % 2), ROUNDS - 1, i))))
	    { vh::fail(static_cast<const char*>(out[0]), "masked store: final value of element %d is not its owner's last store", i); i = N; row = ROWS; }
    }
}
// whole vectors in adjacent memory
template <class V, class U> void adjacent(const void* const*, void* const* out, long)
{
  using T = typename V::value_type; constexpr int N = V::size();
  constexpr int BL = 13;
  for (int off = 0; off < 2; ++off)
    {
      std::unique_ptr<U[]> mem(new U[BL * N + 1]);
      threads(static_cast<const char*>(out[0]), [&](int t, Log& log) {
	Others o(t);
	for (int r = 0; r < ROUNDS * 2; ++r)
	  for (int j = t; j < BL; j += K)
	    {
	      U* const p = &mem[j * N + off];
	      const V v([&](auto i) { return val<T>(t, r, int(i)); });
	      store<V, U>(p, v);
	      V w(T(0));
	      load<V, U>(p, w);
	      log.overlap += o.moved();
	      for (int i = 0; i < N; ++i)
		{
		  ++log.n;
		  if (!(p[i] == U(val<T>(t, r, i)))) { if (log.what.empty()) log.what = "store: element " + std::to_string(i) + " of this thread was overwritten by another thread's store"; }
		  if (!(w[i] == T(U(val<T>(t, r, i))))) { if (log.what.empty()) log.what = "load: element " + std::to_string(i) + " is not what this thread stored"; }
		}
	    }
      });
    }
}
// the same for masks and arrays of bool
template <class M> [[gnu::noipa]] void kstore(bool* p, const M& k) { k.copy_to(p, stdx::element_aligned); }
template <class M> [[gnu::noipa]] void kload(const bool* p, M& k) { k.copy_from(p, stdx::element_aligned); }
template <class M> [[gnu::noipa]] void kmstore(bool* p, const M& v, const M& k) { where(k, v).copy_to(p, stdx::element_aligned); }
template <class M> [[gnu::noipa]] void kmload(const bool* p, M& v, const M& k) { where(k, v).copy_from(p, stdx::element_aligned); }
template <class V> void bools(const void* const*, void* const* out, long)
{
  using T = typename V::value_type; using M = typename V::mask_type; constexpr int N = V::size();
  constexpr int BL = 11;
  std::unique_ptr<bool[]> mem(new bool[BL * N]), mm(new bool[BL * N]());
  threads(static_cast<const char*>(out[0]), [&](int t, Log& log) {
    Others o(t);
    for (int r = 0; r < ROUNDS * 2; ++r)
      for (int j = 0; j < BL; ++j)
	{
	  bool a[N], b[N]; for (int i = 0; i < N; ++i) a[i] = (i * 5 + r + t) % 3 == 0, b[i] = owner(j % OWN, i) == t;
	  const M x(a, stdx::element_aligned), k = j & 1 ? M(b, stdx::element_aligned) : V([&](auto i) { return T(b[int(i)]); }) == T(1);
	  if (j % K == t)
	    {
	      bool* p = &mem[j * N];
	      kstore<M>(p, x); M w(false); kload<M>(p, w);
	      for (int i = 0; i < N; ++i) { ++log.n; if ((p[i] != a[i] || w[i] != a[i]) && log.what.empty()) log.what = "mask store: element " + std::to_string(i) + " was overwritten by another thread's store"; }
	    }
	  bool* p = &mm[j * N];
	  kmstore<M>(p, x, k); M w(false); kmload<M>(p, w, k);
	  log.overlap += o.moved();
	  for (int i = 0; i < N; ++i) { ++log.n; if ((b[i] ? p[i] != a[i] || w[i] != a[i] : bool(w[i])) && log.what.empty()) log.what = "masked mask store: element " + std::to_string(i) + " was overwritten by another thread's store"; }
	}
  });
}
// neighbouring objects: element writes, masked assignment, compound operations on one's own object
template <class V> struct Battery
{
  using T = typename V::value_type; using M = typename V::mask_type; static constexpr int N = V::size();
  template <class P> [[gnu::noipa]] static void add(std::vector<long double>& o, const P& p)
  {
    if constexpr (stdx::is_simd_v<P> || stdx::is_simd_mask_v<P>) for (int i = 0; i < int(P::size()); ++i) { const long double x = (long double)p[i]; o.push_back(x == x ? x : -12345.L); }
    else { const long double x = (long double)p; o.push_back(x == x ? x : -12345.L); }
  }
  [[gnu::noipa]] static void fill(V& a, V& b, M& k, int t, int r)
  {
    for (int i = 0; i < N; ++i) { a[i] = val<T>(t, r, i); b[i] = T(int(val<T>(t, r, i + 1)) % 7 + 1); k[i] = (i + t + r) % 3 == 0; }
  }
  [[gnu::noipa]] static void ops(V& a, V& b, M& k, std::vector<long double>& o)
  {
    V c = a; c += b; add(o, c); c = a; c -= b; add(o, c); add(o, a / b); where(k, a) = b; add(o, a); where(!k, b) += T(1); add(o, b); add(o, a < b); add(o, k); add(o, stdx::popcount(k)); add(o, stdx::any_of(a == b));
    add(o, stdx::reduce(where(k, b))); add(o, stdx::hmin(a)); add(o, stdx::hmax(b)); add(o, stdx::min(a, b)); k = a > b; add(o, k); ++a; add(o, a); add(o, -b);
    const auto f = stdx::to_fixed_size(a); add(o, f);
    if constexpr (N <= stdx::simd_abi::max_fixed_size<float>) { add(o, stdx::static_simd_cast<stdx::fixed_size_simd<float, N>>(f)); add(o, stdx::static_simd_cast<stdx::fixed_size_simd<int, N>>(f)); }
    if constexpr (std::is_integral_v<T>) { add(o, a % b); add(o, b << (b & T(3))); add(o, b >> 1); add(o, a ^ b); add(o, ~a); }
    if constexpr (std::is_floating_point_v<T>)
      {
	V ip; stdx::fixed_size_simd<int, N> e;
	add(o, sin(a)); add(o, cos(b)); add(o, sqrt(a)); add(o, hypot(a, b)); add(o, hypot(a, b, a)); add(o, exp(-b)); add(o, log(a)); add(o, pow(b, a / T(8))); add(o, modf(a / b, &ip)); add(o, ip); add(o, floor(a / b)); add(o, round(a / b));
	add(o, ldexp(a, stdx::fixed_size_simd<int, N>(2))); add(o, fmod(a, b)); add(o, atan2(a, b)); add(o, fma(a, b, a)); add(o, tan(b)); add(o, erf(b)); add(o, cbrt(a)); add(o, logb(a)); add(o, ilogb(a)); add(o, isnan(a)); add(o, fpclassify(b));
	add(o, frexp(a, &e)); add(o, stdx::static_simd_cast<stdx::fixed_size_simd<int, N>>(e)); add(o, nextafter(a, b)); add(o, sinh(b)); add(o, acos(b / T(16))); add(o, remainder(a, b)); int q = 0; (void)q;
      }
  }
  static void all(const void* const*, void* const* out, long)
  {
    constexpr int R = VH_LEVEL >= 2 ? 40 : 15;
    struct Obj { V a = T(0), b = T(0); M k{false}; };
    std::vector<long double> want[K][R];
    for (int t = 0; t < K; ++t) for (int r = 0; r < R; ++r) { Obj x; fill(x.a, x.b, x.k, t, r); ops(x.a, x.b, x.k, want[t][r]); }
    std::unique_ptr<Obj[]> objs(new Obj[K * 2]); // neighbours in memory
    std::unique_ptr<V[]> va(new V[K * 3]());
    threads(static_cast<const char*>(out[0]), [&](int t, Log& log) {
      Others o(t);
      std::vector<long double> got;
      for (int r = 0; r < R; ++r)
	for (int j = t; j < K * 2; j += K)
	  {
	    got.clear();
	    Obj& x = objs[j];
	    fill(x.a, x.b, x.k, t, r);
	    for (int i = 0; i < N; ++i) { va[j][i] = T(i + t); va[j][i] += T(1); }
	    where(x.k, va[j]) = x.b;
	    ops(x.a, x.b, x.k, got);
	    log.overlap += o.moved();
	    log.n += long(got.size());
	    for (std::size_t i = 0; i < got.size(); ++i)
	      if (got[i] != want[t][r][i] && log.what.empty()) log.what = "operations on this thread's objects: result number " + std::to_string(i) + " is " + std::to_string(got[i]) + ", without other threads " + std::to_string(want[t][r][i]);
	    fill(x.a, x.b, x.k, t, r);
	    for (int i = 0; i < N; ++i) { ++log.n; if (va[j][i] != (x.k[i] ? T(x.b[i]) : T(i + t + 1)) && log.what.empty()) log.what = "element writes: an object of this thread changed"; }
	  }
    });
  }
};
template <class T> void regs()
{
  auto f = [](auto l) {
    using V = typename decltype(l)::type; constexpr int N = V::size();
#if VH_G == 0
    each_type(TL<T, signed char, unsigned short, int, float, double>(), [&](auto* q) {
      using U = std::remove_pointer_t<decltype(q)>;
      constexpr unsigned us = vh::ty_v<U>;
      constexpr bool own = std::is_same_v<T, U> && vh::ty_v<T> == us;
      if constexpr (vh_pick(VH_LEVEL, own ? 1 : 5, N, us, sizeof(T))) { regp("mstore", l, VL<stdx::simd<U, stdx::simd_abi::scalar>>{"mem"}, masked<V, U>); }
      if constexpr (vh_pick(VH_LEVEL, own ? 1 : 5, N, us, sizeof(T), 3)) { regp("store", l, VL<stdx::simd<U, stdx::simd_abi::scalar>>{"mem"}, adjacent<V, U>); }
    });
    if constexpr (N > 1) reg("mask", l, bools<V>);
#else
    reg("objects", l, Battery<V>::all);
#endif
  };
  if constexpr (VH_G == 0) for_each<T>(f, VH_N, VH_F(7), VH_D(3)); else for_each<T>(f, VH_N, VH_D(3));
  if constexpr (VH_G == 1) for_each<T>(f, VH_F(5));
  if constexpr (sizeof(T) == 1) for_each<T>(f, VH_D(13));
  if constexpr (sizeof(T) == 2) for_each<T>(f, VH_D(7));
  if constexpr (sizeof(T) == 4) for_each<T>(f, VH_D(5));
  if constexpr (VH_LEVEL >= 2)
    {
      for_each<T>(f, VH_S, VH_F(1), VH_F(3), VH_F(13), VH_F(17));
      if constexpr (sizeof(T) == 1) for_each<T>(f, VH_D(27), VH_D(8), VH_F(32));
      if constexpr (sizeof(T) == 2) for_each<T>(f, VH_D(13), VH_D(4));
      if constexpr (sizeof(T) == 4) for_each<T>(f, VH_D(2), VH_D(13), VH_D(7));
      if constexpr (sizeof(T) == 8) for_each<T>(f, VH_D(2), VH_D(5), VH_D(7));
    }
}
}
#ifdef __SANITIZE_THREAD__
extern "C" __attribute__((weak)) void __tsan_on_report(void*) { tsan_reports.fetch_add(1, std::memory_order_relaxed); }
#endif
static int init = [] { regs<VH_T>(); return 0; }();
