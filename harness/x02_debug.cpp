// X02: what simd_debug.h prints.
#define _GLIBCXX_SIMD_DEBUG 0x26 // Cosine, SIMD_TUPLE, Frexp
#include <experimental/simd>
#include <experimental/bits/simd_debug.h>
#include <array>
#include <cstdio>
#include <string>
#include <vector>
using namespace std::experimental;
static long facts;
static std::string grab(std::stringstream& s)
{ // without colours
  std::string r, t = s.str(); s.str("");
  for (std::size_t i = 0; i < t.size(); ++i) { if (t[i] == '\033') while (i < t.size() && t[i] != 'm') ++i; else r += t[i]; }
  return r;
}
static std::stringstream cap;
static void expect(const char* key, const std::string& got, const std::string& want)
{
  ++facts;
  if (got.find(want) == std::string::npos)
    { std::string g; for (char c : got) g += c == '\n' ? '/' : c; std::printf("FAIL %s prints [%s], expected to contain [%s]\n", key, g.c_str(), want.c_str()); }
}
template <class V> std::string text(const V& v)
{
  std::ostringstream o; o << " {";
  for (std::size_t i = 0; i < V::size(); ++i) o << (i ? ", " : "") << +v[i];
  o << '}';
  return o.str();
}
template <class V> void one(const char* key)
{
  using T = typename V::value_type;
  const V v([](auto i) { return T(int(i) * 7 - 3); }), w = T(5);
  _GLIBCXX_SIMD_DEBUG(_)(v); expect(key, grab(cap), text(v));
  _GLIBCXX_SIMD_DEBUG(_SIMD_TUPLE)(w, v); expect(key, grab(cap), text(w) + text(v));
  const auto k = v > w;
  _GLIBCXX_SIMD_DEBUG(_Frexp)(k, !k); expect((std::string(key) + "-mask").c_str(), grab(cap), text(k) + text(!k));
}
template <class T> void type(const char* key)
{
  one<native_simd<T>>(key); one<fixed_size_simd<T, 5>>(key); one<fixed_size_simd<T, 8>>(key); one<fixed_size_simd<T, 1>>(key); one<simd<T, simd_abi::scalar>>(key); one<simd<T, simd_abi::deduce_t<T, 3>>>(key); one<simd<T>>(key);
}
int main()
{
  std::streambuf* old = std::cout.rdbuf(cap.rdbuf());
  type<signed char>("schar"); type<unsigned short>("ushort"); type<int>("int"); type<long>("long"); type<float>("float"); type<double>("double");
  _GLIBCXX_SIMD_DEBUG(_SIMD_TUPLE)(1, 2.5, "text", 'x', 7u); expect("scalars", grab(cap), " 1 2.5 text x 7");
  std::array<float, 3> q = {1.5f, 2, 3}; int r[4] = {1, -2, 3, -4};
  _GLIBCXX_SIMD_DEBUG(_SIMD_TUPLE)(q); expect("array", grab(cap), " {1.5, 2, 3}");
  (void)r;
  struct S { unsigned char b[6]; } st = {{1, 2, 0xab, 4, 5, 0xff}};
  _GLIBCXX_SIMD_DEBUG(_SIMD_TUPLE)(st); expect("object", grab(cap), " 0102ab04'05ff");
  _GLIBCXX_SIMD_DEBUG(_Sine)("never"); ++facts; if (!cap.str().empty()) std::printf("FAIL disabled prints although its area is disabled\n"); cap.str("");
  { _GLIBCXX_SIMD_DEBUG_DEFERRED(_Cosine, "later"); ++facts; if (!cap.str().empty()) std::printf("FAIL deferred prints too early\n"); }
  expect("deferred", grab(cap), " later");
  native_simd<int> a = 3;
  _GLIBCXX_SIMD_DEBUG(_SIMD_TUPLE)(_GLIBCXX_SIMD_PRETTY_PRINT(a)); { const std::string s = grab(cap); expect("pretty", s, "a = "); expect("pretty", s, text(a)); }
  _GLIBCXX_SIMD_DEBUG(_SIMD_TUPLE)(1)(2); { const std::string s = grab(cap); expect("chain", s, " 1\n"); expect("chain", s, " 2"); expect("function", s, "main"); expect("file", s, "x02_debug.cpp:"); }
  std::cout.rdbuf(old);
  std::printf("DONE %ld\n", facts);
}
