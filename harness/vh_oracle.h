// Oracle-side utilities: RNG, value generation, bit-exact comparison.
#ifndef VH_ORACLE_H
#define VH_ORACLE_H
#include "vh.h"
#include <algorithm>
#include <cmath>
#include <cstdio>
#include <cstring>
#include <limits>
#include <string>
#include <vector>

void vh_begin();
void vh_run(const vh::Reg&, const char* key);
void vh_end();

namespace vh {
struct Rng
{
  uint64_t s;
  explicit Rng(uint64_t x) : s(x * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); }
  uint64_t next()
  {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  uint64_t below(uint64_t n) { return next() % n; }
  bool coin() { return next() >> 63; }
};
inline uint64_t hash_str(const char* s)
{ uint64_t h = 1469598103934665603ull; for (; *s; ++s) h = (h ^ (unsigned char)*s) * 1099511628211ull; return h; }
inline Rng rng_for(const char* what) { return Rng(seed() ^ hash_str(what)); }

template <class T> constexpr bool is_fp = std::is_floating_point_v<T>;
template <class T> struct uint_of { using type = std::make_unsigned_t<T>; };
template <> struct uint_of<bool> { using type = unsigned char; };
template <> struct uint_of<float> { using type = uint32_t; };
template <> struct uint_of<double> { using type = uint64_t; };
template <> struct uint_of<long double> { using type = unsigned __int128; };
template <class T> using uint_of_t = typename uint_of<T>::type;

// bytes of a value that carry information (80-bit long double has 10)
template <class T> constexpr int vbytes = sizeof(T) == 16 ? 10 : sizeof(T);
#ifdef VH_FAST
constexpr bool vh_fast = true;
// -ffast-math: operands are ordinary numbers; neither overflow nor the sign of zero count, and quotients may be off by an ulp or two
template <class T> bool fast_ok(T x)
{
  if constexpr (!is_fp<T>) return true;
  else if (x == 0) return !std::signbit(x);
  else return std::isnormal(x) && std::abs(x) < std::numeric_limits<T>::max() / 8 && std::abs(x) > std::numeric_limits<T>::min() * 8;
}
template <class T> T fast_value(T x) { return fast_ok(x) ? x : T(1.25); }
#else
constexpr bool vh_fast = false;
template <class T> constexpr T fast_value(T x) { return x; }
#endif
template <class T> bool fast_same(T got, T e)
{
  using L = std::numeric_limits<T>;
  if (got == e) return true;
  if (!std::isfinite(e) || std::abs(e) > L::max() / 8) return true;
  if (std::abs(e) < L::min() * 8) return std::abs(got) < L::min() * 9;
  return std::abs(got - e) <= 3 * L::epsilon() * std::abs(e);
}
template <class T> bool same(T a, T b)
{
#ifdef VH_FAST
  if constexpr (is_fp<T>) return fast_same(a, b);
#endif
  if constexpr (is_fp<T>) { if (a != a && b != b) return true; }
  return std::memcmp(&a, &b, vbytes<T>) == 0;
}
template <class T> std::string str(T v)
{
  char b[96];
  if constexpr (std::is_same_v<T, long double>) snprintf(b, sizeof b, "%La", v);
  else if constexpr (is_fp<T>) snprintf(b, sizeof b, "%a(%.9g)", (double)v, (double)v);
  else if constexpr (std::is_signed_v<T>) snprintf(b, sizeof b, "%lld", (long long)v);
  else snprintf(b, sizeof b, "%llu", (unsigned long long)v);
  return b;
}

template <class T> T from_bits(uint64_t x)
{
  T r;
  if constexpr (std::is_same_v<T, long double>)
    {
      uint64_t m = x | (1ull << 63); // normalised mantissa
      uint16_t e = uint16_t(x * 0x9E3779B97F4A7C15ull >> 48);
      if ((e & 0x7fff) == 0) e |= 1;
      if ((e & 0x7fff) == 0x7fff) e ^= 1;
      std::memset(&r, 0, sizeof r);
      std::memcpy(&r, &m, 8); std::memcpy(reinterpret_cast<char*>(&r) + 8, &e, 2);
    }
  else if constexpr (std::is_same_v<T, bool>) r = x & 1;
  else { uint_of_t<T> u = uint_of_t<T>(x); std::memcpy(&r, &u, sizeof r); }
  return fast_value(r);
}

template <class T> const std::vector<T>& specials()
{
  static const std::vector<T> v = [] {
    std::vector<T> r;
    using L = std::numeric_limits<T>;
    if constexpr (std::is_same_v<T, bool>) { r = {false, true}; }
    else if constexpr (is_fp<T>)
      {
	for (T x : {T(0), L::denorm_min(), T(3 * L::denorm_min()), T(L::min() - L::denorm_min()), L::min(), T(L::min() * 1.5), T(L::min()*4),
		    L::epsilon(), T(L::epsilon() / 2), T(0.25), T(0.4999999), T(0.5), std::nextafter(T(0.5), T(0)), std::nextafter(T(0.5), T(1)), T(0.75),
		    std::nextafter(T(1), T(0)), T(1), std::nextafter(T(1), T(2)), T(1.5), T(2), T(2.5), T(3), T(3.5), T(4), T(7), T(7.5), T(8), T(10), T(15.5),
		    T(100), T(127), T(127.5), T(128), T(255), T(256), T(1000.25), T(32767), T(32768), T(65535), T(65535.5), T(65536),
		    T(8388607.5), T(8388608), T(8388609), T(16777215), T(16777216), T(16777218), T(2147483520.), T(2147483647.), T(2147483648.),
		    T(4294967040.), T(4294967295.), T(4294967296.), T(4503599627370495.5L), T(4503599627370496.L), T(4503599627370497.L),
		    T(9007199254740991.L), T(9007199254740992.L), T(9007199254740994.L), T(9223371487098961920.L), T(9223372036854774784.L), T(9223372036854775808.L),
		    T(18446742974197923840.L), T(18446744073709549568.L), T(18446744073709551616.L), T(1e30), T(L::max() / 2), std::nextafter(L::max(), T(0)), L::max(),
		    L::infinity()})
	  { r.push_back(x); r.push_back(-x); }
	r.push_back(L::quiet_NaN());
	r.push_back(-L::quiet_NaN());
	// different NaN payloads (quiet)
	if constexpr (sizeof(T) == 4) { r.push_back(from_bits<T>(0x7fc12345u)); r.push_back(from_bits<T>(0xffffffffu)); }
	if constexpr (sizeof(T) == 8) { r.push_back(from_bits<T>(0x7ff8123456789abcull)); r.push_back(from_bits<T>(~0ull)); }
      }
    else
      {
	using U = std::make_unsigned_t<T>;
	constexpr int B = sizeof(T) * 8;
	std::vector<U> u;
	for (int i = 0; i < B; ++i)
	  for (int d = -1; d <= 1; ++d) { u.push_back(U((U(1) << i) + U(d))); if (i % 8 == 7 || i == 0 || i + 1 == B || i % 8 == 0) u.push_back(U(0) - U((U(1) << i) + U(d))); }
	for (int x : {2, 3, 5, 6, 7, 9, 10, 11, 13, 100}) { u.push_back(U(x)); u.push_back(U(0) - U(x)); }
	u.push_back(U(0x5555555555555555ull)); u.push_back(U(0xAAAAAAAAAAAAAAAAull));
	u.push_back(U(0x0123456789ABCDEFull)); u.push_back(U(0xFEDCBA9876543210ull));
	u.push_back(U(0x00FF00FF00FF00FFull)); u.push_back(U(0xFF00FF00FF00FF00ull));
	u.push_back(U(0x8080808080808080ull)); u.push_back(U(0x7F7F7F7F7F7F7F7Full));
	if constexpr (B == 64) for (uint64_t x : {0x20000000000000ull, 0x20000000000001ull, 0x1fffffffffffffull, 0x1000001ull << 8, 0x7fffffff80000000ull, 0xffffffff7fffffffull, 0x100000000ull*3}) { u.push_back(x); u.push_back(0 - x); }
	if constexpr (B >= 32) for (uint64_t x : {0xffffffull, 0x1000001ull, 0x1000003ull, 0x3000001ull}) { u.push_back(U(x)); u.push_back(U(0) - U(x)); }
	std::sort(u.begin(), u.end()); u.erase(std::unique(u.begin(), u.end()), u.end());
	for (U x : u) r.push_back(T(x));
      }
#ifdef VH_FAST
    r.erase(std::remove_if(r.begin(), r.end(), [](T x) { return !fast_ok(x); }), r.end());
#endif
    return r;
  }();
  return v;
}

// "typical" spread of values: specials, random bit patterns, small numbers,
// random exponents
template <class T> T rand_value_any(Rng& g)
{
  auto& s = specials<T>();
  if constexpr (std::is_same_v<T, bool>) return g.coin();
  else switch (g.below(8))
    {
    case 0: case 1: return s[g.below(s.size())];
    case 2: case 3: case 4:
      { T x = from_bits<T>(g.next()); if constexpr (is_fp<T> && sizeof(T) <= 8) if (x != x) return T(1.25); return x; }
    case 5: if constexpr (is_fp<T>) return T((int64_t)(g.next() % 4001) - 2000) / T(8); else return T(g.next() % 200);
    case 6: if constexpr (is_fp<T>) return std::ldexp(T(g.next() >> 11), -53 + int(g.below(140)) - 70) * (g.coin() ? 1 : -1);
	    else return T(from_bits<T>(g.next()) >> g.below(sizeof(T) * 8));
    default: if constexpr (is_fp<T>) return T(g.next() >> 11) * T(0x1p-53) * (g.coin() ? T(1) : T(-1)); else return T(0 - uint64_t(g.next() % 200));
    }
}

template <class T> T rand_value(Rng& g) { return fast_value(rand_value_any<T>(g)); }

template <class T> void shuffle_pair(Rng& g, std::vector<T>& a, std::vector<T>& b)
{ for (size_t i = a.size(); i > 1; --i) { size_t j = g.below(i); std::swap(a[i - 1], a[j]); if (b.size() == a.size()) std::swap(b[i - 1], b[j]); } }

// exhaustive for 8-bit types, all special pairs plus random otherwise
template <class T> void make_pairs(Rng& g, std::vector<T>& a, std::vector<T>& b, size_t random = 12000, bool exhaustive8 = true)
{
  a.clear(); b.clear();
  if (sizeof(T) == 1 && exhaustive8)
    { for (int i = 0; i < 256; ++i) for (int j = 0; j < 256; ++j) { a.push_back(from_bits<T>(i)); b.push_back(from_bits<T>(j)); } }
  else
    {
      for (T x : specials<T>()) for (T y : specials<T>()) { a.push_back(x); b.push_back(y); }
      for (size_t i = 0; i < random; ++i) { a.push_back(rand_value<T>(g)); b.push_back(rand_value<T>(g)); if (g.below(16) == 0) b.back() = a.back(); }
    }
  shuffle_pair(g, a, b);
}
template <class T> void make_values(Rng& g, std::vector<T>& a, size_t random = 12000)
{
  a.clear();
  if (sizeof(T) == 1) for (int i = 0; i < 256; ++i) a.push_back(from_bits<T>(i));
  else if (sizeof(T) == 2) for (int i = 0; i < 65536; ++i) a.push_back(from_bits<T>(i));
  else { for (T x : specials<T>()) a.push_back(x); for (size_t i = 0; i < random; ++i) a.push_back(rand_value<T>(g)); }
  std::vector<T> none; shuffle_pair(g, a, none);
}
// round length up to a multiple of n by repeating elements from the front
template <class T> void pad_to(std::vector<T>& v, size_t n)
{ size_t m = v.size(), k = (m + n - 1) / n * n; v.reserve(k); for (size_t i = m; i < k; ++i) v.push_back(v[(i - m) % m]); }

// aligned output buffer
struct Buf
{
  std::vector<unsigned char> raw; unsigned char* p;
  explicit Buf(size_t bytes) : raw(bytes + 256 + 128) { p = raw.data() + 128; p += (256 - (uintptr_t)p % 256) % 256; if (p + bytes > raw.data() + raw.size()) p -= 128; }
};
// 256-byte aligned copy of a vector
template <class T> struct AVec
{
  void* mem = nullptr; T* p = nullptr; size_t n = 0;
  AVec() {}
  explicit AVec(size_t k) { alloc(k); }
  explicit AVec(const std::vector<T>& v) { alloc(v.size()); for (size_t i = 0; i < n; ++i) p[i] = v[i]; }
  void alloc(size_t k) { n = k; mem = ::operator new(k * sizeof(T) + 512, std::align_val_t(256)); p = static_cast<T*>(mem); std::memset(mem, 0, k * sizeof(T) + 512); }
  AVec(const AVec&) = delete;
  AVec& operator=(const AVec&) = delete;
  ~AVec() { if (mem) ::operator delete(mem, std::align_val_t(256)); }
  T& operator[](size_t i) { return p[i]; }
  const T& operator[](size_t i) const { return p[i]; }
};

// dispatch a Ty to a generic lambda taking a value of the type
template <class F> auto with_type(Ty t, F&& f)
{
  switch (t)
    {
#define X(e, c) case e: return f(static_cast<c>(0));
      VH_TYPES(X)
#undef X
    default: __builtin_abort();
    }
}
template <class F> auto with_arith(Ty t, F&& f)
{
  switch (t)
    {
#define X(e, c) case e: if constexpr (!std::is_same_v<c, bool>) return f(static_cast<c>(0)); else __builtin_abort();
      VH_TYPES(X)
#undef X
    default: __builtin_abort();
    }
}
} // namespace vh
#endif
