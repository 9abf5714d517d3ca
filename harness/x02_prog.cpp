// X02: a program using many parts of the library; its output must not depend on where the headers came from.
#include <experimental/simd>
#include <cstdio>
#include <cmath>
namespace stdx = std::experimental;
template <class V> void show(const char* n, const V& v)
{
  std::printf("%s", n);
  for (std::size_t i = 0; i < V::size(); ++i) std::printf(" %.17Lg", (long double)v[i]);
  std::puts("");
}
template <class V> void all(const char* n)
{
  using T = typename V::value_type;
  std::printf("%s %zu\n", n, V::size());
  const V a([](auto i) { return T(int(i) * 3 + 1); }), b([](auto i) { return T(int(i) % 5 + 1); });
  show("+", a + b); show("*", a * b); show("/", a / b); show("-", -a);
  show("<", a < b); show("max", stdx::max(a, b));
  V c = a; where(a > b, c) += b; show("where", c);
  std::printf("%.17Lg %.17Lg %d\n", (long double)stdx::reduce(a), (long double)stdx::hmin(where(a > b, a)), stdx::popcount(a == b));
  T m[V::size() + 2]; a.copy_to(m, stdx::element_aligned); where(a < b, b).copy_to(m, stdx::element_aligned);
  for (std::size_t i = 0; i < V::size(); ++i) std::printf(" %.17Lg", (long double)m[i]);
  show("cast", stdx::static_simd_cast<stdx::fixed_size_simd<float, V::size()>>(stdx::to_fixed_size(a)));
  if constexpr (std::is_floating_point_v<T>) { show("sqrt", sqrt(a)); show("sin", sin(b)); show("hypot", hypot(a, b)); show("floor", floor(a / b)); show("exp", exp(-b)); }
  else { show("<<", b << 1); show("&", a & b); show("%", a % b); }
}
template <class T> void type(const char* n)
{
  all<stdx::native_simd<T>>(n); all<stdx::simd<T, stdx::simd_abi::scalar>>(n); all<stdx::fixed_size_simd<T, 7>>(n); all<stdx::simd<T, stdx::simd_abi::deduce_t<T, 3>>>(n);
}
int main()
{
  type<signed char>("schar"); type<unsigned short>("ushort"); type<int>("int"); type<unsigned long>("ulong"); type<float>("float"); type<double>("double");
}
