// T02: which uses participate in overload resolution
#include "vh_pairs.h"
#include "chk.h"
#include <functional>
#include <limits>
#include <string>
#include <complex>
#ifndef VH_T
#define VH_T int
#endif
using namespace stdx;
namespace prop = stdx::__proposed;
enum UE { ue0 }; enum UEc : unsigned char { uec0 }; enum class SE { a };
struct Empty {}; struct ToInt { operator int() const { return 1; } }; struct ToDouble { operator double() const { return 1.5; } };
struct ToV { template <class T, class A> operator simd<T, A>() const; };
template <class T> struct ToT { operator T() const { return T(2); } };
template <class T> struct ExplT { explicit operator T() const { return T(2); } };
// --- expressions as traits
template <class Op, class A, class B, class = void> struct Res { using type = void; static constexpr bool value = false; };
template <class Op, class A, class B> struct Res<Op, A, B, std::void_t<decltype(Op::f(std::declval<A>(), std::declval<B>()))>>
{ using type = decltype(Op::f(std::declval<A>(), std::declval<B>())); static constexpr bool value = true; };
#define OP2(NAME, OP) struct NAME { template <class A, class B> static auto f(A&& a, B&& b) -> decltype(static_cast<A&&>(a) OP static_cast<B&&>(b)); };
OP2(Add, +) OP2(Sub, -) OP2(Mul, *) OP2(Div, /) OP2(Mod, %) OP2(And, &) OP2(Or, |) OP2(Xor, ^) OP2(Shl, <<) OP2(Shr, >>) OP2(LAnd, &&) OP2(LOr, ||)
OP2(Eq, ==) OP2(Ne, !=) OP2(Lt, <) OP2(Le, <=) OP2(Gt, >) OP2(Ge, >=)
OP2(AddA, +=) OP2(SubA, -=) OP2(MulA, *=) OP2(DivA, /=) OP2(ModA, %=) OP2(AndA, &=) OP2(OrA, |=) OP2(XorA, ^=) OP2(ShlA, <<=) OP2(ShrA, >>=) OP2(Asg, =)
#define OP1(NAME, ...) struct NAME { template <class A, class B> static auto f(A&& a, B&& b) -> decltype(__VA_ARGS__); };
OP1(Compl, ~a) OP1(LNot, !a) OP1(Neg, -a) OP1(Pos, +a) OP1(Inc, ++a) OP1(PInc, a++) OP1(Dec, --a) OP1(PDec, a--)
OP1(Where, stdx::where(static_cast<A&&>(a), static_cast<B&&>(b)))
OP1(WhereAsg, stdx::where(static_cast<A&&>(a), static_cast<B&&>(b)) = static_cast<B&&>(b))
OP1(WhereInc, ++stdx::where(static_cast<A&&>(a), static_cast<B&&>(b)))
OP1(WhereNeg, -stdx::where(static_cast<A&&>(a), static_cast<B&&>(b)))
OP1(CopyFrom, a.copy_from(b, element_aligned)) OP1(CopyTo, a.copy_to(b, element_aligned))
OP1(WCopyFrom, stdx::where(std::declval<typename std::decay_t<A>::mask_type&>(), a).copy_from(b, element_aligned))
OP1(WCopyTo, stdx::where(std::declval<typename std::decay_t<A>::mask_type&>(), a).copy_to(b, element_aligned))
OP1(Cast, simd_cast<std::decay_t<B>>(a)) OP1(SCast, static_simd_cast<std::decay_t<B>>(a))
OP1(MCast, prop::static_simd_cast<std::decay_t<B>>(a)) OP1(RCast, prop::resizing_simd_cast<std::decay_t<B>>(a))
OP1(Min, stdx::min(a, b)) OP1(Max, stdx::max(a, b)) OP1(MinMax, stdx::minmax(a, b)) OP1(Clamp, stdx::clamp(a, b, b))
OP1(Abs, abs(a)) OP1(Sqrt, sqrt(a)) OP1(Sin, sin(a)) OP1(Floor, floor(a)) OP1(Pow, pow(a, b)) OP1(Fmod, fmod(a, b)) OP1(IsNan, isnan(a)) OP1(Hypot, hypot(a, b)) OP1(Ldexp, ldexp(a, b))
OP1(ToFixed, to_fixed_size(a)) OP1(ToNative, to_native(a)) OP1(ToCompat, to_compatible(a))
OP1(AllOf, stdx::all_of(a)) OP1(AnyOf, stdx::any_of(a)) OP1(NoneOf, stdx::none_of(a)) OP1(SomeOf, stdx::some_of(a)) OP1(PopC, stdx::popcount(a)) OP1(FFS, stdx::find_first_set(a)) OP1(FLS, stdx::find_last_set(a))
OP1(Reduce, stdx::reduce(a)) OP1(ReduceOp, stdx::reduce(a, b)) OP1(HMin, stdx::hmin(a)) OP1(HMax, stdx::hmax(a))
OP1(ReduceW, stdx::reduce(stdx::where(b, a)))
OP1(Split, stdx::split<std::decay_t<B>>(a)) OP1(Concat, stdx::concat(a, b))
template <class Op, class A, class B = A> constexpr bool ok = Res<Op, A, B>::value;
template <class Op, class A, class B, class R> constexpr bool gives = std::is_same_v<typename Res<Op, A, B>::type, R>;
// default construction: is the type usable?
template <class X> constexpr bool usable = std::is_default_constructible_v<X> && std::is_copy_constructible_v<X>;

template <class U, class T> constexpr bool broadcast_ok()
{
  if constexpr (std::is_same_v<U, bool>) return false;
  else if constexpr (std::is_arithmetic_v<U>)
    return value_preserving<U, T>() || std::is_same_v<U, int> || (std::is_same_v<U, unsigned> && std::is_unsigned_v<T>);
  else return std::is_convertible_v<U, T>;
}
template <class T> constexpr int rank()
{
  if (std::is_same_v<T, long long> || std::is_same_v<T, unsigned long long>) return 5;
  if (std::is_same_v<T, long> || std::is_same_v<T, unsigned long>) return 4;
  return sizeof(T) == 4 ? 3 : sizeof(T) == 2 ? 2 : 1;
}
using Arith = TL<char, signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, long long, unsigned long long, wchar_t, char16_t, char32_t, float, double, long double
#ifdef __cpp_char8_t
  , char8_t
#endif
  >;
static std::string pre;
template <class V, class U> void scalar_ops(const char* un, bool b)
{ // V op U, U op V as if U were converted to V
  using T = typename V::value_type; using M = typename V::mask_type;
  constexpr bool I = std::is_integral_v<T>;
  const std::string k = pre + "|" + un; chk_key = k;
#define BIN(OP, cond, R) C(#OP " V,U", ok<OP, const V&, U> == (cond) && (!(cond) || gives<OP, const V&, U, R>)); C(#OP " U,V", ok<OP, U, const V&> == (cond) && (!(cond) || gives<OP, U, const V&, R>)); \
  C(#OP " V,const U&", ok<OP, V, const U&> == (cond)); C(#OP " U&,V", ok<OP, U&, V> == (cond));
  BIN(Add, b, V) BIN(Sub, b, V) BIN(Mul, b, V) BIN(Div, b, V)
  BIN(Mod, b && I, V) BIN(And, b && I, V) BIN(Or, b && I, V) BIN(Xor, b && I, V)
  BIN(Eq, b, M) BIN(Ne, b, M) BIN(Lt, b, M) BIN(Le, b, M) BIN(Gt, b, M) BIN(Ge, b, M)
  C("Shl U,V", ok<Shl, U, const V&> == (b && I)); C("Shr U,V", ok<Shr, U, const V&> == (b && I));
  if (!I) C("Shl V,U", !ok<Shl, const V&, U> && !ok<Shr, const V&, U> && !ok<ShlA, V&, U> && !ok<ShrA, V&, U>);
#define CAS(OP, cond) C(#OP, ok<OP, V&, U> == (cond) && (!(cond) || gives<OP, V&, U, V&>) && !ok<OP, const V&, U>);
  CAS(AddA, b) CAS(SubA, b) CAS(MulA, b) CAS(DivA, b) CAS(ModA, b && I) CAS(AndA, b && I) CAS(OrA, b && I) CAS(XorA, b && I)
  C("Asg", std::is_assignable_v<V&, U> == b && std::is_assignable_v<V&, const U&> == b);
  C("LAnd", !ok<LAnd, V, U> && !ok<LOr, V, U> && !ok<LAnd, U, V> && !ok<LOr, U, V>);
}
template <class V, class U> void one_scalar(const char* un)
{
  using T = typename V::value_type;
  constexpr bool b = broadcast_ok<U, T>();
  chk_key = pre + "|" + un;
  C("convertible", std::is_convertible_v<U, V> == b && std::is_convertible_v<const U&, V> == b && std::is_convertible_v<U&, V> == b && std::is_convertible_v<const U, V> == b);
  C("constructible", std::is_constructible_v<V, U> == b && std::is_constructible_v<V, const U&> == b && std::is_constructible_v<V, U&> == b);
  scalar_ops<V, U>(un, b);
  // reference assignment
  if constexpr (std::is_arithmetic_v<U> && !std::is_same_v<U, bool>)
    {
      C("ref_assign", std::is_assignable_v<typename V::reference, U> == b && std::is_assignable_v<typename V::reference, const U&> == b && !std::is_assignable_v<typename V::reference&, U>);
      // generator
      auto g = [](auto) { return U(); }; using G = decltype(g);
      C("generator", std::is_constructible_v<V, G> == b && std::is_constructible_v<V, G&> == b && std::is_constructible_v<V, const G&> == b && !std::is_convertible_v<G, V> && !std::is_assignable_v<V&, G>);
      auto gr = [](auto i) -> const U& { static U u; return u; }; using GR = decltype(gr);
      C("generator_ref", std::is_constructible_v<V, GR> == b && !std::is_convertible_v<GR, V>);
      using FP = U (*)(size_t);
      C("generator_fp", std::is_constructible_v<V, FP> == b);
      // memory
      C("copy_from", ok<CopyFrom, V&, const U*> && ok<CopyFrom, V&, U*> && !ok<CopyFrom, const V&, const U*>);
      C("copy_to", ok<CopyTo, V&, U*> && ok<CopyTo, const V&, U*> && !ok<CopyTo, V&, const U*>);
      C("where_copy_from", ok<WCopyFrom, V&, const U*> && ok<WCopyFrom, V&, U*>);
      C("where_copy_to", ok<WCopyTo, V&, U*> && ok<WCopyTo, const V&, U*> && !ok<WCopyTo, V&, const U*>);
      C("load_ctor", std::is_constructible_v<V, const U*, element_aligned_tag> && std::is_constructible_v<V, U*, vector_aligned_tag> && std::is_constructible_v<V, const U*, overaligned_tag<64>>);
      // casts to an element type
      constexpr bool vp = value_preserving<T, U>();
      if constexpr (std::is_same_v<U, bool>) ;
      else
	C("simd_cast<U>", ok<Cast, const V&, U> == vp), C("static_simd_cast<U>", ok<SCast, const V&, U>);
    }
  else
    C("ref_assign", std::is_assignable_v<typename V::reference, U> == (!std::is_same_v<U, bool> ? b : std::is_assignable_v<typename V::reference, U>));
}
template <class V, class U> void rejected(const char* un)
{
  chk_key = pre + "|" + un;
  C("convertible", !std::is_convertible_v<U, V> && !std::is_convertible_v<const U&, V> && !std::is_convertible_v<U&, V>);
  C("constructible", !std::is_constructible_v<V, U> && !std::is_constructible_v<V, const U&>);
  scalar_ops<V, U>(un, false);
  C("ref_assign", !std::is_assignable_v<typename V::reference, U>);
}
template <class V, class U> void not_memory(const char* un)
{
  chk_key = pre + "|" + un;
  C("copy", !ok<CopyFrom, V&, const U*> && !ok<CopyTo, V&, U*> && !ok<WCopyFrom, V&, const U*> && !ok<WCopyTo, V&, U*>);
  C("load_ctor", !std::is_constructible_v<V, const U*, element_aligned_tag> && !std::is_constructible_v<V, U*, vector_aligned_tag>);
  C("cast", std::is_same_v<U, V> || std::is_volatile_v<U> || !ok<Cast, V&, U>);
}
template <class A> constexpr int fixed_n = 0;
template <int N> constexpr int fixed_n<simd_abi::fixed_size<N>> = N;
template <class T> constexpr bool is_chr = std::is_integral_v<T> && sizeof(T) > 1 && !std::is_same_v<T, short> && !std::is_same_v<T, unsigned short> && !std::is_same_v<T, int> && !std::is_same_v<T, unsigned>
  && !std::is_same_v<T, long> && !std::is_same_v<T, unsigned long> && !std::is_same_v<T, long long> && !std::is_same_v<T, unsigned long long>;
// V and another simd type W
template <class V, class W> void two_simds(const char* wn)
{
  using T = typename V::value_type; using U = typename W::value_type; using A = typename V::abi_type; using B = typename W::abi_type;
  using M = typename V::mask_type; using MW = typename W::mask_type;
  if constexpr (std::is_same_v<V, W>) return;
  else if constexpr (fixed_n<A> > 0 && fixed_n<A> == fixed_n<B> && sizeof(T) == sizeof(U) && (is_chr<T> || is_chr<U>)) return; // wchar_t and int, ...: same rank, but promoted
  else {
  chk_key = pre + "|" + wn;
  constexpr bool fx = fixed_n<A> > 0 && fixed_n<A> == fixed_n<B>;
  constexpr bool vp = value_preserving<U, T>();
  // integral types: to a type of higher rank only, even if no value is lost (long long -> long, char -> signed char)
  constexpr bool rk = !std::is_integral_v<T> || !std::is_integral_v<U> || rank<T>() > rank<U>();
  constexpr bool conv = fx && vp && rk, back = fx && value_preserving<T, U>() && (!std::is_integral_v<T> || !std::is_integral_v<U> || rank<U>() > rank<T>());
  C("converts", std::is_convertible_v<W, V> == conv && std::is_convertible_v<const W&, V> == conv && std::is_assignable_v<V&, W> == conv);
  if (!conv) C("not_constructible", !std::is_constructible_v<V, W> && !std::is_constructible_v<V, const W&>);
  constexpr bool sz = V::size() == W::size();
  C("simd_cast", ok<Cast, const W&, V> == (sz && vp) && (!(sz && vp) || gives<Cast, const W&, V, V>));
  C("static_simd_cast", ok<SCast, const W&, V> == sz && (!sz || gives<SCast, const W&, V, V>));
  C("mask_cast", ok<MCast, const MW&, M> == sz);
  C("mask_converts", std::is_convertible_v<MW, M> == fx && std::is_assignable_v<M&, MW> == fx);
  C("mask_simd", !std::is_constructible_v<V, MW> && !std::is_constructible_v<M, W> && !std::is_convertible_v<V, M> && !std::is_convertible_v<M, V>);
  C("resize", ok<RCast, const W&, V> == std::is_same_v<T, U> && ok<RCast, const MW&, M>);
  constexpr bool I = std::is_integral_v<T>, J = std::is_integral_v<U>;
  // mixed operands: defined iff exactly one of the types converts to the other
  constexpr bool mix = conv != back;
  if constexpr (mix || !conv)
    {
      constexpr bool I2 = mix ? (conv ? I : J) : false;
      C("mixed", ok<Add, V, W> == mix && ok<Sub, V, W> == mix && ok<Mul, W, V> == mix && ok<Div, V, W> == mix && ok<Eq, V, W> == mix && ok<Ne, W, V> == mix && ok<Lt, V, W> == mix && ok<Ge, W, V> == mix);
      C("mixed_int", ok<Mod, V, W> == (mix && I2) && ok<And, V, W> == (mix && I2) && ok<Or, W, V> == (mix && I2) && ok<Xor, V, W> == (mix && I2));
      C("compound", ok<AddA, V&, W> == conv && ok<DivA, V&, W> == conv && ok<AndA, V&, W> == (conv && I) && ok<ModA, V&, W> == (conv && I));
    }
  C("minmax", !ok<Min, V, W> && !ok<Max, V, W> && !ok<MinMax, V, W> && !ok<Clamp, V, W>);
  if constexpr (!fx)
    C("masks", !ok<And, M, MW> && !ok<Or, M, MW> && !ok<LAnd, M, MW> && !ok<Eq, M, MW> && !ok<AndA, M&, MW> && !ok<XorA, M&, MW>);
  // the mask of another type does not select
  C("where", ok<Where, const MW&, V&> == std::is_convertible_v<MW, M> && ok<Where, MW&, const V&> == std::is_convertible_v<MW, M>);
  if constexpr (int(V::size() + W::size()) <= simd_abi::max_fixed_size<T>) C("concat", ok<Concat, V, W> == std::is_same_v<T, U>);
  }
}
template <class V> void own()
{
  using T = typename V::value_type; using M = typename V::mask_type;
  constexpr bool I = std::is_integral_v<T>;
  chk_key = pre;
  C("own_arith", gives<Add, const V&, const V&, V> && gives<Sub, const V&, const V&, V> && gives<Mul, const V&, const V&, V> && gives<Div, const V&, const V&, V>);
  C("own_int", ok<Mod, V, V> == I && ok<And, V, V> == I && ok<Or, V, V> == I && ok<Xor, V, V> == I && ok<Shl, V, V> == I && ok<Shr, V, V> == I && ok<Compl, V> == I
    && ok<ModA, V&, V> == I && ok<AndA, V&, V> == I && ok<OrA, V&, V> == I && ok<XorA, V&, V> == I && ok<ShlA, V&, V> == I && ok<ShrA, V&, V> == I && ok<ShlA, V&, int> == I && ok<Shr, V, int> == I);
  C("own_cmp", gives<Eq, V, V, M> && gives<Ne, V, V, M> && gives<Lt, V, V, M> && gives<Le, V, V, M> && gives<Gt, V, V, M> && gives<Ge, V, V, M>);
  C("own_logic", !ok<LAnd, V, V> && !ok<LOr, V, V> && gives<LNot, V, V, M> && gives<Neg, V, V, V> && gives<Pos, V, V, V>);
  C("own_inc", gives<Inc, V&, V, V&> && gives<Dec, V&, V, V&> && gives<PInc, V&, V, V> && gives<PDec, V&, V, V> && !ok<Inc, const V&> && !ok<PDec, const V&>);
  C("own_assign", !std::is_assignable_v<const V&, V>);
  // masks
  C("mask_bool", std::is_constructible_v<M, bool> && !std::is_convertible_v<bool, M> && !std::is_assignable_v<M&, bool> && std::is_constructible_v<M, const bool&>);
  C("mask_noconv", !std::is_convertible_v<M, bool> && !std::is_convertible_v<M, int> && !std::is_convertible_v<V, T> && !std::is_convertible_v<int, M> && !std::is_convertible_v<T, M>);
  C("mask_ops", gives<And, M, M, M> && gives<Or, M, M, M> && gives<Xor, M, M, M> && gives<LAnd, M, M, M> && gives<LOr, M, M, M> && gives<Eq, M, M, M> && gives<Ne, M, M, M> && gives<LNot, M, M, M>
    && gives<AndA, M&, M, M&> && gives<OrA, M&, M, M&> && gives<XorA, M&, M, M&>);
  C("mask_noops", !ok<Add, M, M> && !ok<Sub, M, M> && !ok<Mul, M, M> && !ok<Neg, M, M> && !ok<Pos, M, M> && !ok<Compl, M, M> && !ok<Lt, M, M> && !ok<Ge, M, M> && !ok<Shl, M, M> && !ok<Inc, M&, M> && !ok<Mod, M, M> && !ok<AddA, M&, M>);
  C("mask_bool_ops", !ok<And, M, bool> && !ok<LAnd, M, bool> && !ok<Or, bool, M> && !ok<LOr, bool, M> && !ok<Xor, M, bool> && !ok<Eq, M, bool> && !ok<Ne, bool, M> && !ok<AndA, M&, bool>);
  C("mask_load", std::is_constructible_v<M, const bool*, element_aligned_tag> && std::is_constructible_v<M, bool*, vector_aligned_tag> && !std::is_constructible_v<M, const int*, element_aligned_tag>
    && !std::is_constructible_v<M, const unsigned char*, element_aligned_tag> && ok<CopyFrom, M&, const bool*> && ok<CopyTo, const M&, bool*> && !ok<CopyFrom, M&, const char*> && !ok<CopyTo, M&, char*> && !ok<CopyTo, M&, const bool*>
    && !ok<CopyFrom, M&, const int*>);
  C("mask_ref", std::is_assignable_v<typename M::reference, bool> && !std::is_assignable_v<typename M::reference&, bool>);
  // references
  C("refs", !std::is_copy_constructible_v<typename V::reference> && !std::is_assignable_v<typename V::reference&, const typename V::reference&> && std::is_convertible_v<typename V::reference, T>
    && !std::is_copy_constructible_v<typename M::reference>);
  // where
  C("where", ok<Where, const M&, V&> && ok<Where, M, const V&> && ok<Where, M&, M&> && ok<Where, const M&, const M&> && ok<WhereAsg, M, V&> && !ok<WhereAsg, M, const V&> && ok<WhereInc, M, V&> && !ok<WhereInc, M, const V&>
    && ok<WhereNeg, M, const V&> && ok<WhereNeg, M, V&>);
  C("where_bool", !ok<Where, bool, V&> && !ok<Where, bool, const V&> && ok<Where, bool, T&> && ok<Where, bool, const T&> && !ok<Where, int, V&>);
  C("where_not_mask", !ok<Where, V, V&> && !ok<Where, const V&, M&> && !ok<Where, int, T&> && !ok<Where, T, T&>);
  C("const_where", !ok<WCopyFrom, const V&, T**> && !ok<WCopyTo, V&, void*>);
  // reductions
  C("mask_reductions", gives<AllOf, M, M, bool> && gives<AnyOf, M, M, bool> && gives<NoneOf, M, M, bool> && gives<SomeOf, M, M, bool> && gives<PopC, M, M, int> && gives<FFS, M, M, int> && gives<FLS, M, M, int>);
  C("no_mask_reductions", !ok<AllOf, V> && !ok<AnyOf, V> && !ok<PopC, V> && !ok<FFS, V> && !ok<AllOf, int> && !ok<PopC, int> && !ok<AnyOf, T> && !ok<FLS, T*> && !ok<NoneOf, Empty> && gives<AllOf, bool, bool, bool>
    && gives<PopC, const bool&, bool, int> && !ok<SomeOf, void*>);
  C("reduce", gives<Reduce, V, V, T> && gives<HMin, V, V, T> && gives<HMax, V, V, T> && gives<ReduceW, V&, M, T> && gives<ReduceOp, V, std::plus<>, T> && !ok<Reduce, M> && !ok<HMin, M>);
  C("min_scalar", gives<Min, V, V, V> && gives<Max, V, V, V> && gives<Clamp, V, V, V> && gives<MinMax, V, V, std::pair<V, V>> && !ok<Min, M, M>);
  // math
  C("abs", ok<Abs, V> == std::is_signed_v<T>);
  C("math_fp", !std::is_floating_point_v<T> || (gives<Sqrt, V, V, V> && gives<Sin, V, V, V> && gives<Floor, V, V, V> && gives<Pow, V, V, V> && gives<Fmod, V, V, V> && gives<Hypot, V, V, V> && gives<IsNan, V, V, M>
    && gives<Ldexp, V, fixed_size_simd<int, V::size()>, V>));
  C("math_mask", !ok<Abs, M> && !ok<Sqrt, M> && !ok<Sin, M> && !ok<IsNan, M>);
  // casts
  constexpr int N = V::size();
  if constexpr (N <= simd_abi::max_fixed_size<T>)
    C("to_fixed_size", gives<ToFixed, V, V, fixed_size_simd<T, N>> && gives<ToFixed, M, M, fixed_size_simd_mask<T, N>>);
  constexpr bool fx = fixed_n<typename V::abi_type> > 0;
  C("to_native", ok<ToNative, V> == (fx && N == int(native_simd<T>::size())) && ok<ToNative, M> == (fx && N == int(native_simd<T>::size())));
  C("to_compatible", ok<ToCompat, V> == (fx && N == int(simd<T>::size())) && ok<ToCompat, M> == (fx && N == int(simd<T>::size())));
  C("cast_bad", !ok<Cast, V, bool> && !ok<Cast, V, UE> && !ok<Cast, V, T*>);
}
template <class V> void generators()
{
  using T = typename V::value_type;
  chk_key = pre;
  auto none = []() { return T(); }; auto two = [](int, int) { return T(); }; auto str = [](auto) { return "x"; }; auto ptr = [](auto) -> T* { return nullptr; }; auto bl = [](auto) { return true; };
  auto vd = [](auto) {}; auto sen = [](auto) { return SE::a; }; auto pt = [](T*) { return T(); };
  C("gen_bad", !std::is_constructible_v<V, decltype(none)> && !std::is_constructible_v<V, decltype(two)> && !std::is_constructible_v<V, decltype(str)> && !std::is_constructible_v<V, decltype(ptr)>
    && !std::is_constructible_v<V, decltype(vd)> && !std::is_constructible_v<V, decltype(sen)> && !std::is_constructible_v<V, decltype(pt)>);
  auto sz = [](size_t) { return T(); }; auto ic = [](std::integral_constant<size_t, 0>) { return T(); };
  C("gen_good", std::is_constructible_v<V, decltype(sz)> && std::is_constructible_v<V, T (&)(size_t)> && std::is_constructible_v<V, T (*)(int)> && std::is_constructible_v<V, std::function<T(size_t)>>);
  (void)ic; (void)bl;
}
template <class T> void run(const void* const*, void* const* out, long)
{
  const std::string base = static_cast<const char*>(out[0]);
  for_abis<T, 0>([&](auto l) {
    using V = typename decltype(l)::type;
    pre = base + "|" + l.name;
    own<V>(); generators<V>();
    each_type(Arith(), [](auto* u) { using U = std::remove_reference_t<decltype(*u)>; one_scalar<V, U>(typeid(U).name()); });
    one_scalar<V, bool>("bool");
    one_scalar<V, UE>("enum"); one_scalar<V, UEc>("enum-char"); one_scalar<V, ToInt>("ToInt"); one_scalar<V, ToDouble>("ToDouble"); one_scalar<V, ToT<T>>("ToT");
    rejected<V, SE>("enum-class"); rejected<V, Empty>("Empty"); rejected<V, T*>("pointer"); rejected<V, const char*>("string"); rejected<V, ExplT<T>>("explicit");
    rejected<V, void*>("void*"); rejected<V, std::string>("std::string"); rejected<V, std::complex<float>>("complex");
    not_memory<V, bool>("bool"); not_memory<V, UE>("enum"); not_memory<V, SE>("enum-class"); not_memory<V, Empty>("Empty"); not_memory<V, T*>("pointer"); not_memory<V, ToT<T>>("class"); not_memory<V, V>("simd");
    not_memory<V, volatile T>("volatile");
  });
  chk_done();
}
// conversions between simd types
template <class T> void run2(const void* const*, void* const* out, long)
{
  const std::string base = static_cast<const char*>(out[0]);
  for_each<T>([&](auto l) {
    using V = typename decltype(l)::type;
    constexpr int N = V::size();
    pre = base + "|" + l.name;
    each_type(Arith(), [](auto* u) {
      using U = std::remove_reference_t<decltype(*u)>;
      const std::string n = typeid(U).name();
      if_fixed<U, N>([&](auto w) { two_simds<V, typename decltype(w)::type>((n + "|same-count fixed").c_str()); });
      if_fixed<U, N + 1>([&](auto w) { two_simds<V, typename decltype(w)::type>((n + "|count+1 fixed").c_str()); });
      if_deduce<U, N>([&](auto w) { two_simds<V, typename decltype(w)::type>((n + "|same-count deduce").c_str()); });
      two_simds<V, simd<U, simd_abi::scalar>>((n + "|scalar").c_str());
      two_simds<V, native_simd<U>>((n + "|native").c_str());
    });
  }, VH_F(4), VH_F(1), VH_F(8), VH_S, VH_N, VH_C
#if VH_LEVEL >= 2
  , VH_F(32), VH_F(3)
#endif
  );
  chk_done();
}
static int init = [] {
  vh::add({"accept", vh::ty_v<VH_T>, vh::ty_v<VH_T>, "all", 1, 0, &run<VH_T>, nullptr, 0});
  vh::add({"pairs", vh::ty_v<VH_T>, vh::ty_v<VH_T>, "all", 1, 0, &run2<VH_T>, nullptr, 0});
  return 0; }();
