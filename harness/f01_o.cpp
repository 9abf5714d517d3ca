#include "vh_oracle.h"
#include <cfenv>
#include <climits>
#include <functional>
#include <map>
using namespace vh;
namespace {
enum { DOM_ANY, DOM_LONG };
template <class T> T gen(Rng& g, int cls)
{
  using L = std::numeric_limits<T>;
  const int D = L::digits;
  switch (cls)
    {
    case 0: return specials<T>()[g.below(specials<T>().size())];
    case 1: // any exponent, interesting mantissa
      {
	int e = L::min_exponent - D + int(g.below(L::max_exponent - L::min_exponent + D));
	T m;
	switch (g.below(5)) { case 0: m = 1; break; case 1: m = 1 + L::epsilon(); break; case 2: m = 2 - L::epsilon(); break; case 3: m = T(1.5); break; default: m = 1 + T(g.next() >> 11) * T(0x1p-53); }
	T x = std::ldexp(m, e); if (!std::isfinite(x)) x = L::max();
	return g.coin() ? x : -x;
      }
    case 2: // halves and integers of all magnitudes
      {
	uint64_t k = g.next() >> (g.below(64)); if (D < 64) k &= (1ull << (D < 63 ? D + 1 : 63)) - 1;
	T x = T(k) / 2;
	switch (g.below(4)) { case 0: x = std::nextafter(x, T(0)); break; case 1: x = std::nextafter(x, L::infinity()); break; default:; }
	return g.coin() ? x : -x;
      }
    case 3: // subnormals
      { T x = L::denorm_min() * T(1 + (g.next() & ((1ull << (D - 1)) - 1)) % (1ull << (1 + g.below(D - 1)))); return g.coin() ? x : -x; }
    case 4: return T((int64_t)(g.next() % 4001) - 2000) / T(8);
    default: return rand_value<T>(g);
    }
}
template <class T> T gen_normal(Rng& g) { T x; do x = gen<T>(g, 1 + g.below(2)); while (!std::isnormal(x)); return x; }
// one vector
template <class T> void gen_vec(Rng& g, T* v, int N)
{
  switch (g.below(6))
    {
    case 0: for (int i = 0; i < N; ++i) v[i] = gen_normal<T>(g); break;
    case 1: { for (int i = 0; i < N; ++i) v[i] = gen_normal<T>(g); v[g.below(N)] = gen<T>(g, g.coin() ? 0 : 3); break; }
    case 2: { int c = g.below(5); for (int i = 0; i < N; ++i) v[i] = gen<T>(g, c); break; }
    default: for (int i = 0; i < N; ++i) v[i] = gen<T>(g, g.below(6));
    }
}
int sgn(int x) { return (x > 0) - (x < 0); }
}
template <class T> void run_fp(const Reg& r, const char* key)
{
  const std::string o = r.op;
  const int N = r.n;
  Rng g = rng_for(key);
  const long nv = ((thorough ? 120000 : 24000) / (sizeof(T) > 8 ? 4 : 1) + N - 1) / N, n = nv * N;
  AVec<T> a(n), b(n), c(n);
  AVec<int> ei(n); AVec<long> el(n);
  for (long q = 0; q < nv; ++q) { gen_vec(g, &a[q * N], N); gen_vec(g, &b[q * N], N); gen_vec(g, &c[q * N], N); }
  const bool lr = o == "lrint" || o == "lround" || o == "llrint" || o == "llround";
  using L = std::numeric_limits<T>;
  for (long i = 0; i < n; ++i)
    {
      static const int es[] = {0, 1, -1, 2, -2, 10, 23, 24, -24, 52, 53, 54, -53, 64, 100, 126, 127, 128, 129, -125, -126, -127, -148, -149, -150, 253, 254, 255, 256, 276, 277, 280, -280, 1022, 1023, 1024, 1025,
	-1021, -1022, -1023, -1074, -1075, 2046, 2097, 2098, 2099, 2100, -2100, 16383, 16384, -16382, -16445, -16446, 32768, 70000, -70000, INT_MAX, INT_MIN, INT_MAX - 1, 1 << 20};
      ei[i] = g.below(3) ? es[g.below(sizeof es / sizeof *es)] : g.coin() ? int(g.below(700)) - 350 : int(g.below(4400)) - 2200;
      el[i] = g.below(9) == 0 ? (g.coin() ? LONG_MAX : LONG_MIN) : g.below(9) == 0 ? (g.coin() ? (1l << 32) + 1 : -(1l << 33)) : ei[i];
      // with -ffast-math the compiler expands scalbln inline, converting the exponent to floating point
      if (vh_fast) { ei[i] = std::min(std::max(ei[i], -3000), 3000); el[i] = ei[i]; }
      switch (g.below(10))
	{
	case 0: b[i] = a[i]; break;
	case 1: b[i] = -a[i]; break;
	case 2: b[i] = std::nextafter(a[i], b[i]); break;
	case 3: b[i] = a[i] / 2; break;
	case 4: c[i] = -a[i] * b[i]; break; // cancellation in fma
	default:;
	}
      if (lr) while (!(std::abs(a[i]) < T(0x1p62))) a[i] = gen<T>(g, g.below(6));
      if (lr && g.below(16) == 0) { static const T lim[] = {T(-0x1p63L), T(0x1p63L) - T(0x1p63L) * L::epsilon(), T(0x1p62), T(-0x1p62)}; a[i] = lim[g.below(4)]; if (!(a[i] < T(0x1p63L))) a[i] = T(-0x1p63L); }
    }
  for (long i = 0; i < n; ++i) { a[i] = fast_value(a[i]); b[i] = fast_value(b[i]); c[i] = fast_value(c[i]); }
  AVec<long double> r0(n), r1(n); // room for any element type
  const void* in[] = {a.p, b.p, c.p, ei.p, el.p}; void* out[] = {r0.p, r1.p};
  static const int modes[] = {FE_TONEAREST, FE_DOWNWARD, FE_UPWARD, FE_TOWARDZERO};
  const std::string cf = config;
  const bool has_round = cf.find("sse2") == cf.npos && cf != "sse3" && cf != "ssse3" && cf.find("neon") == cf.npos && cf.find("ppc") == cf.npos && cf != "novec";
  const bool dyn = o == "rint" || o == "nearbyint" || o == "lrint" || o == "llrint";
  long nt = 0;
  auto txt = [&](long i) { return str(a[i]) + ", " + str(b[i]) + ", " + str(c[i]) + ", " + std::to_string(ei[i]) + ", " + std::to_string(el[i]); };
  for (int m : modes)
    {
      // without SSE4.1 GCC expands rint for the default rounding mode only, in scalar code too
      if (m != FE_TONEAREST && (!dyn || !has_round || vh_fast)) break;
      std::memset(r0.p, 0x5a, n * 16); std::memset(r1.p, 0x5a, n * 16);
      std::fesetround(m);
      call(r, in, out, nv);
      // results as an array of the type of the function
      const T* t0 = reinterpret_cast<T*>(r0.p); const T* t1 = reinterpret_cast<T*>(r1.p);
      const int* i0 = reinterpret_cast<int*>(r0.p); const int* i1 = reinterpret_cast<int*>(r1.p);
      const long* l0 = reinterpret_cast<long*>(r0.p); const unsigned char* m0 = reinterpret_cast<unsigned char*>(r0.p);
      volatile T vx, vy, vz; (void)vz;
      auto cmp_t = [&](long i, T got, T e, const char* what = "") {
	if (!same(got, e)) { std::fesetround(FE_TONEAREST); fail(key, "element %ld of %d%s: (%s) -> %s, expected %s (rounding mode %d)", i % N, N, what, txt(i).c_str(), str(got).c_str(), str(e).c_str(), m); std::fesetround(m); }
	nt += !same(e, a[i]); };
      auto cmp_z = [&](long i, T got, T e) { if (!(got == e)) cmp_t(i, got, e); else nt += !same(e, a[i]); };
      auto cmp_l = [&](long i, long got, long e, const char* what = "") {
	if (got != e) { std::fesetround(FE_TONEAREST); fail(key, "element %ld of %d%s: (%s) -> %ld, expected %ld (rounding mode %d)", i % N, N, what, txt(i).c_str(), got, e, m); std::fesetround(m); }
	nt += e != 0; };
      auto cmp_b = [&](long i, bool e) {
	if (m0[i] != e) fail(key, "element %ld of %d: (%s) -> %d, expected %d", i % N, N, txt(i).c_str(), m0[i], e);
	nt += e; };
      for (long i = 0; i < n; ++i)
	{
	  vx = a[i]; vy = b[i]; vz = c[i];
	  const T x = vx, y = vy, z = vz, s = b[i / N * N];
#define O(name, expr) else if (o == name) cmp_t(i, t0[i], expr);
#define OL(name, expr) else if (o == name) cmp_l(i, l0[i], expr);
#define OI(name, expr) else if (o == name) cmp_l(i, i0[i], expr);
#define OB(name, expr) else if (o == name) cmp_b(i, expr);
	  // glibc's remainder rounds some ties of subnormal arguments to an odd quotient
#define OR(name, expr) else if (o == name) { if (t0[i] == T(std::remainder((long double)x, (long double)y))) ++nt; else cmp_z(i, t0[i], expr); }
#define OZ(name, expr) else if (o == name) cmp_z(i, t0[i], expr);
	  if (false) ;
	  O("abs", std::abs(x)) O("fabs", std::fabs(x)) O("ceil", std::ceil(x)) O("floor", std::floor(x)) O("trunc", std::trunc(x)) O("round", std::round(x))
	  O("rint", std::rint(x)) O("nearbyint", std::nearbyint(x)) O("sqrt", std::sqrt(x)) O("logb", std::logb(x))
	  OL("lrint", std::lrint(x)) OL("llrint", std::llrint(x)) OL("lround", std::lround(x)) OL("llround", std::llround(x))
	  OI("ilogb", std::ilogb(x)) OI("fpclassify", std::fpclassify(x))
	  OB("isfinite", std::isfinite(x)) OB("isinf", std::isinf(x)) OB("isnan", std::isnan(x)) OB("isnormal", std::isnormal(x)) OB("signbit", std::signbit(x))
	  O("fmod", std::fmod(x, y)) OR("remainder", std::remainder(x, y)) O("copysign", std::copysign(x, y)) OZ("fmin", std::fmin(x, y)) OZ("fmax", std::fmax(x, y)) O("fdim", std::fdim(x, y)) O("nextafter", std::nextafter(x, y))
	  OB("isgreater", std::isgreater(x, y)) OB("isgreaterequal", std::isgreaterequal(x, y)) OB("isless", std::isless(x, y)) OB("islessequal", std::islessequal(x, y))
	  OB("islessgreater", std::islessgreater(x, y)) OB("isunordered", std::isunordered(x, y))
	  O("fma", std::fma(x, y, z))
	  O("ldexp", std::ldexp(x, ei[i])) O("scalbn", std::scalbn(x, ei[i])) O("scalbln", std::scalbln(x, el[i]))
	  O("fmodS", std::fmod(x, s)) O("Sfmod", std::fmod(s, x)) OZ("fminS", std::fmin(x, s)) OZ("Sfmax", std::fmax(s, x)) O("fmaS", std::fma(x, y, s)) O("Sfma", std::fma(s, x, y)) O("fmaSS", std::fma(s, x, s))
	  O("fmaI", std::fma(T(2), x, T(1))) O("ldexpI", std::ldexp(x, ei[i / N * N])) OZ("fminI", std::fmin(x, T(3)))
	  O("negabs", T(-std::abs(x)))
	  O("whereround", std::isfinite(x) ? T(std::floor(x) + std::ceil(y)) : x)
	  O("selnan", std::isnan(x) || std::isinf(y) ? T(3) : x)
	  else if (o == "frexp") { int e; T w = std::frexp(x, &e); cmp_t(i, t0[i], w); if (std::isfinite(x)) cmp_l(i, i1[i], e, " (exponent)"); }
	  else if (o == "modf") { T e; T w = std::modf(x, &e); cmp_t(i, t0[i], w); cmp_t(i, t1[i], e, " (integral part)"); }
	  else if (o == "remquo")
	    {
	      int e; T w = std::remquo(x, y, &e); if (t0[i] == T(std::remainder((long double)x, (long double)y))) w = t0[i]; cmp_z(i, t0[i], w);
	      if (std::isfinite(x) && !std::isnan(y) && y != 0 && !((e & 7) == (i1[i] & 7) || ((-e & 7) == (-i1[i] & 7))))
		fail(key, "element %ld of %d: quotient %d, expected %d (mod 8)", i % N, N, i1[i], e);
	      else if (std::isfinite(x) && !std::isnan(y) && y != 0 && std::isfinite(y) && sgn(e) && sgn(e) != sgn(i1[i]))
		fail(key, "element %ld of %d: sign of quotient %d, expected %d", i % N, N, i1[i], e);
	    }
	  else __builtin_abort();
	}
      std::fesetround(FE_TONEAREST);
      count(n, nt); nt = 0;
    }
  if (g.below(60) == 0) sample("%s: (%s)", key, txt(3).c_str());
}
template <class T> void run_int(const Reg& r, const char* key)
{
  const std::string o = r.op;
  const int N = r.n;
  Rng g = rng_for(key);
  std::vector<T> v; make_values(g, v);
  if (o != "isignbit") for (T& x : v) if (x == std::numeric_limits<T>::min()) x = T(-3); // abs(min) is not representable
  pad_to(v, N);
  AVec<T> a(v); const long n = a.n, nv = n / N;
  AVec<T> r0(n); std::memset(r0.p, 0x5a, n * sizeof(T));
  AVec<int> z(n); AVec<long> zl(n);
  const void* in[] = {a.p, a.p, a.p, z.p, zl.p}; void* out[] = {r0.p};
  call(r, in, out, nv);
  long nt = 0;
  for (long i = 0; i < n; ++i)
    if (o == "isignbit")
      { bool e = a[i] < T(0); if (reinterpret_cast<unsigned char*>(r0.p)[i] != e) fail(key, "signbit of element %ld of %d: %s -> %d", i % N, N, str(a[i]).c_str(), reinterpret_cast<unsigned char*>(r0.p)[i]); nt += e; }
    else
      { T e = a[i] < T(0) ? T(-a[i]) : a[i]; if (r0[i] != e) fail(key, "abs of element %ld of %d: %s -> %s", i % N, N, str(a[i]).c_str(), str(r0[i]).c_str()); nt += e != a[i]; }
  count(n, nt);
}
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{ with_arith(r.t, [&](auto t) { using T = decltype(t); if constexpr (is_fp<T>) run_fp<T>(r, key); else run_int<T>(r, key); }); }
