// N01: numeric traits against std::numeric_limits and the arithmetic of the type
#include "vh_kernel.h"
#include <cmath>
#include <limits>
#include <cfloat>
struct Cls { int x; };
enum En { e1 }; enum class Ec : int { e2 };
static const char* key;
static long nchk;
#include <string>
[[gnu::noinline]] static void chk(bool ok, const char* a, const char* b, const char* cond)
{ ++nchk; if (!ok) vh::fail((std::string(a) + b + "|" + key).c_str(), "%s", cond); }
#define C(cond, what) chk((cond), what, "", #cond)
#define C2(cond, what, what2) chk((cond), what, what2, #cond)
template <class T> bool eqbits(T a, T b)
{
  if constexpr (std::is_floating_point_v<T>)
    { constexpr int n = sizeof(T) > 8 ? 10 : sizeof(T); return std::memcmp(&a, &b, n) == 0; }
  else return a == b;
}
template <template <class> class Tr, class T, class = void> struct has : std::false_type {};
template <template <class> class Tr, class T> struct has<Tr, T, std::void_t<decltype(Tr<T>::value)>> : std::true_type {};
template <template <class> class Tr, class T> constexpr bool ex() 
{
  static_assert(noexcept(std::__value_exists_v<Tr, T>));
  return std::__value_exists_v<Tr, T>;
}
// value, type of the value, cv-qualified argument, value_or
template <template <class> class Tr, class T, class X> void val(const char* what, X want)
{
  if constexpr (!has<Tr, T>::value) { vh::fail((std::string(what) + "|exists|" + key).c_str(), "no value"); return; }
  else {
    C2((ex<Tr, T>()), what, "|value_exists");
    C2((std::is_same_v<std::remove_cv_t<decltype(Tr<T>::value)>, X>), what, "|type");
    volatile X got = Tr<T>::value; X g = got;
    C2(eqbits<X>(g, want), what, "|value");
    C2(eqbits<X>(Tr<const T>::value, g) && eqbits<X>(Tr<volatile T>::value, g) && eqbits<X>(Tr<const volatile T>::value, g), what, "|cv");
    C2((std::is_same_v<decltype(Tr<const volatile T>::value), decltype(Tr<T>::value)>), what, "|cvtype");
    C2(eqbits<X>(static_cast<X>(std::__value_or<Tr, T, X>(X(42))), g), what, "|value_or");
  }
}
template <template <class> class Tr, class T> void none(const char* what)
{
  C2((!has<Tr, T>::value && !ex<Tr, T>()), what, "|exists_not");
  if constexpr (std::is_arithmetic_v<T>)
    { C2((std::__value_or<Tr, T>(T(42)) == T(42)), what, "|value_or_default"); C2((std::__value_or<Tr, T, int>() == 0), what, "|value_or_zero"); }
}
#define FORALL(M) M(__digits) M(__digits10) M(__max_digits10) M(__max_exponent) M(__max_exponent10) M(__min_exponent) M(__min_exponent10) M(__radix) \
  M(__denorm_min) M(__epsilon) M(__finite_max) M(__finite_min) M(__infinity) M(__norm_min) M(__quiet_NaN) M(__signaling_NaN) M(__reciprocal_overflow_threshold) M(__round_error)
template <class T> void not_defined(const char* name)
{
  key = name;
#define M(x) none<std::x, T>(#x);
  FORALL(M)
#undef M
  vh::count(nchk, nchk); nchk = 0;
}
template <class T> [[gnu::noipa]] void run(const void* const*, void* const* out, long)
{
  key = static_cast<const char*>(out[0]);
  using L = std::numeric_limits<T>;
  static_assert(L::is_specialized);
  constexpr bool fp = std::is_floating_point_v<T>;
#define V(tr, w) val<std::tr, T>(#tr, w)
#define VV(tr) do { if constexpr (has<std::tr, T>::value) { C(eqbits(std::tr##_v<T>, std::tr<T>::value), #tr "_v"); C(eqbits(std::tr##_v<const T>, std::tr<T>::value), #tr "_v|const"); } } while (0)
  V(__digits, L::digits); V(__digits10, L::digits10); V(__radix, L::radix);
  V(__max_digits10, fp ? L::max_digits10 : L::digits10 + 1);
  V(__finite_max, L::max()); V(__finite_min, L::lowest());
  V(__norm_min, fp ? L::min() : T(1));
  V(__denorm_min, fp ? L::denorm_min() : T(1));
  VV(__digits); VV(__digits10); VV(__radix); VV(__max_digits10); VV(__finite_max); VV(__finite_min); VV(__norm_min); VV(__denorm_min);
  // the extreme values relate to the arithmetic of the type
  volatile T mx = std::__finite_max_v<T>, mn = std::__finite_min_v<T>, one = T(1);
  C(mx > mn && mn <= T(0) && mx >= one, "order");
  if constexpr (fp)
    {
      V(__max_exponent, L::max_exponent); V(__max_exponent10, L::max_exponent10); V(__min_exponent, L::min_exponent); V(__min_exponent10, L::min_exponent10);
      V(__epsilon, L::epsilon()); V(__infinity, L::infinity()); V(__quiet_NaN, L::quiet_NaN()); V(__round_error, L::round_error());
      VV(__max_exponent); VV(__max_exponent10); VV(__min_exponent); VV(__min_exponent10); VV(__epsilon); VV(__infinity); VV(__quiet_NaN); VV(__signaling_NaN); VV(__round_error); VV(__reciprocal_overflow_threshold);
#if __FINITE_MATH_ONLY__ == 0
      C((ex<std::__signaling_NaN, T>()), "__signaling_NaN");
      // bit pattern: quiet bit clear, NaN exponent
      T sn; const T snc = std::__signaling_NaN<T>::value; std::memcpy(&sn, &snc, sizeof(T));
      unsigned char b[sizeof(T)]; std::memcpy(b, &snc, sizeof(T));
      constexpr int mb = sizeof(T) == 16 ? 62 : L::digits - 2;
      C(!(b[mb / 8] >> (mb % 8) & 1) && __builtin_isnan(sn), "__signaling_NaN|bits");
      volatile T inf = mx; inf = inf * T(2); C(inf == std::__infinity_v<T>, "__infinity|overflow");
      volatile T r = std::__reciprocal_overflow_threshold_v<T>, below = std::nextafter(T(r), T(0));
      volatile T q = one / r, qb = one / below;
      C(q <= mx && r > 0, "__reciprocal_overflow_threshold|finite");
      C(below == 0 || qb > mx, "__reciprocal_overflow_threshold|smallest");
      val<std::__reciprocal_overflow_threshold, T>("__reciprocal_overflow_threshold", T(r));
#endif
      volatile T dm = std::__denorm_min_v<T>, nm = std::__norm_min_v<T>, ep = std::__epsilon_v<T>;
      C(dm > 0 && dm / 2 == 0, "__denorm_min|smallest");
      C(nm >= dm && std::fpclassify(T(nm)) == FP_NORMAL, "__norm_min|normal");
      C(std::nextafter(T(1), T(2)) - one == ep, "__epsilon|next");
      C(nm == std::ldexp(T(1), std::__min_exponent_v<T> - 1), "__norm_min|exponent");
      C(mx == std::ldexp(T(1) - ep / 2, std::__max_exponent_v<T>), "__finite_max|exponent");
      // IEC 559 properties: storage format of IEEE types
      using std::__has_iec559_storage_format_v;
      C((std::__has_iec559_storage_format_v<T>), "__has_iec559_storage_format");
      const bool nans = !__FINITE_MATH_ONLY__;
      C((std::__has_iec559_behavior_v<std::__quiet_NaN, T> == nans), "__has_iec559_behavior|quiet_NaN");
      C((std::__has_iec559_behavior_v<std::__infinity, T> == nans), "__has_iec559_behavior|infinity");
#ifdef __SUPPORT_SNAN__
      C((std::__has_iec559_behavior_v<std::__signaling_NaN, T> == nans), "__has_iec559_behavior|signaling_NaN");
#else
      C((!std::__has_iec559_behavior_v<std::__signaling_NaN, T>), "__has_iec559_behavior|signaling_NaN");
#endif
    }
  else
    {
      none<std::__max_exponent, T>("__max_exponent"); none<std::__max_exponent10, T>("__max_exponent10"); none<std::__min_exponent, T>("__min_exponent"); none<std::__min_exponent10, T>("__min_exponent10");
      none<std::__epsilon, T>("__epsilon"); none<std::__infinity, T>("__infinity"); none<std::__quiet_NaN, T>("__quiet_NaN"); none<std::__signaling_NaN, T>("__signaling_NaN");
      none<std::__round_error, T>("__round_error"); none<std::__reciprocal_overflow_threshold, T>("__reciprocal_overflow_threshold");
      C((!std::__has_iec559_behavior_v<std::__quiet_NaN, T> && !std::__has_iec559_behavior_v<std::__infinity, T>), "iec559|integer");
    }
  vh::count(nchk, nchk); nchk = 0;
}
static void not_arith(const void* const*, void* const*, long)
{
  not_defined<Cls>("class"); not_defined<En>("enum"); not_defined<Ec>("enum_class"); not_defined<int*>("int*"); not_defined<int&>("int&"); not_defined<void>("void");
  not_defined<int[2]>("int[2]"); not_defined<std::nullptr_t>("nullptr_t"); not_defined<const float&>("const_float&"); not_defined<stdx::native_simd<float>>("simd"); not_defined<int()>("function");
}
static int init = [] {
#define X(e, t) vh::add({"traits", vh::e, vh::e, "-", 1, 0, run<t>, nullptr, 0});
  VH_TYPES(X)
#undef X
#ifdef __SIZEOF_INT128__
#ifndef __STRICT_ANSI__
  vh::add({"int128", vh::I64, vh::I64, "-", 1, 0, run<__int128>, nullptr, 0});
  vh::add({"uint128", vh::I64, vh::I64, "-", 1, 0, run<unsigned __int128>, nullptr, 0});
#endif
#endif
#ifdef __cpp_char8_t
  vh::add({"char8_t", vh::U8, vh::U8, "-", 1, 0, run<char8_t>, nullptr, 0});
#endif
  vh::add({"not_arithmetic", vh::I32, vh::I32, "-", 1, 0, not_arith, nullptr, 0});
  return 0; }();
