// T01: ABI tags, traits and layout
#include "vh_pairs.h"
#include "chk.h"
#include <bitset>
#include <limits>
#ifndef VH_T
#define VH_T int
#endif
using namespace stdx;
struct Cls { int i; };
template <class T, class A, class = void> struct has_size : std::false_type {};
template <class T, class A> struct has_size<T, A, std::void_t<decltype(simd_size<T, A>::value)>> : std::true_type {};
template <class T, size_t N, class = void> struct can_deduce : std::false_type {};
template <class T, size_t N> struct can_deduce<T, N, std::void_t<simd_abi::deduce_t<T, N>>> : std::true_type {};
template <class T, class V, class = void> struct can_rebind : std::false_type {};
template <class T, class V> struct can_rebind<T, V, std::void_t<rebind_simd_t<T, V>>> : std::true_type {};
template <int N, class V, class = void> struct can_resize : std::false_type {};
template <int N, class V> struct can_resize<N, V, std::void_t<resize_simd_t<N, V>>> : std::true_type {};
template <class X> constexpr bool disabled = !std::is_default_constructible_v<X> && !std::is_copy_constructible_v<X> && !std::is_move_constructible_v<X> && !std::is_destructible_v<X>
  && !std::is_copy_assignable_v<X> && !std::is_move_assignable_v<X>;
// what the compiler flags promise
template <class T> constexpr size_t native_bytes()
{
  if (sizeof(T) > 8) return sizeof(T);
#if defined __AVX512BW__
  return 64;
#elif defined __AVX512F__
  return sizeof(T) >= 4 ? 64 : 32;
#elif defined __AVX2__
  return 32;
#elif defined __AVX__
  return std::is_floating_point_v<T> ? 32 : 16;
#else
  return 16;
#endif
}
constexpr size_t ceil2(size_t x) { size_t r = 1; while (r < x) r *= 2; return r; }

template <class V, bool Register> void type_facts()
{
  using T = typename V::value_type; using A = typename V::abi_type; using M = typename V::mask_type;
  constexpr size_t N = V::size();
  constexpr bool fix = is_fixed<V>;
  C("size", N >= 1 && N == simd_size_v<T, A> && N == simd_size<T, A>::value && N == M::size());
  C("size_type", std::is_same_v<std::remove_cv_t<decltype(V::size())>, size_t> && std::is_same_v<typename simd_size<T, A>::value_type, size_t>);
  C("members", std::is_same_v<V, simd<T, A>> && std::is_same_v<M, simd_mask<T, A>> && std::is_same_v<typename M::value_type, bool> && std::is_same_v<typename M::simd_type, V> && std::is_same_v<typename M::abi_type, A>);
  C("reference", std::is_convertible_v<typename V::reference, T> && std::is_convertible_v<typename M::reference, bool> && !std::is_copy_constructible_v<typename V::reference>);
  C("is_simd", is_simd_v<V> && !is_simd_mask_v<V> && !is_simd_v<M> && is_simd_mask_v<M> && is_simd<V>::value && is_simd_mask<M>::value);
  C("is_simd_not", !is_simd_v<T> && !is_simd_mask_v<T> && !is_simd_v<V&> && !is_simd_v<V*> && !is_simd_v<A> && !is_simd_mask_v<M&> && !is_abi_tag_v<V> && !is_abi_tag_v<M> && !is_abi_tag_v<T>);
  C("is_abi_tag", is_abi_tag_v<A> && is_abi_tag<A>::value);
  C("fits", sizeof(V) >= N * sizeof(T) && sizeof(V) % alignof(V) == 0 && alignof(V) >= alignof(T) && sizeof(M) % alignof(M) == 0);
  C("trivial", std::is_trivially_default_constructible_v<V> && std::is_trivially_default_constructible_v<M> && std::is_trivially_destructible_v<V> && std::is_trivially_destructible_v<M>);
  C("trivially_copyable", std::is_trivially_copyable_v<V> == !fix && std::is_trivially_copyable_v<M>);
  C("regular", std::is_copy_constructible_v<V> && std::is_copy_assignable_v<V> && std::is_nothrow_move_constructible_v<V> && std::is_nothrow_move_assignable_v<V> && std::is_copy_constructible_v<M> && std::is_copy_assignable_v<M>
    && std::is_nothrow_move_constructible_v<M> && std::is_nothrow_move_assignable_v<M> && !std::is_polymorphic_v<V> && std::is_nothrow_default_constructible_v<V>);
  C("memory_alignment", memory_alignment_v<V> == memory_alignment<V>::value && memory_alignment_v<V> == memory_alignment_v<V, T> && memory_alignment_v<V> >= alignof(T) && ceil2(memory_alignment_v<V>) == memory_alignment_v<V>
    && memory_alignment_v<V> <= ceil2(N * sizeof(T)));
  C("memory_alignment_mask", memory_alignment_v<M> == memory_alignment_v<M, bool> && memory_alignment_v<M> >= 1 && ceil2(memory_alignment_v<M>) == memory_alignment_v<M> && memory_alignment_v<M> <= ceil2(N));
  // an aligned object's elements can be transferred with vector_aligned through an array with the object's alignment
  if constexpr (Register)
    {
      C("one_register", N * sizeof(T) <= native_bytes<T>() && sizeof(V) <= native_bytes<T>() && ceil2(sizeof(V)) == sizeof(V));
      C("mask_register", sizeof(M) <= native_bytes<T>());
    }
  // representation: element i at offset i * sizeof(T)
  alignas(64) T mem[N];
  for (size_t i = 0; i < N; ++i) mem[i] = T(T(3) * T(i) + T(1));
  V v(mem, element_aligned);
  unsigned char raw[sizeof(V)]; std::memcpy(raw, static_cast<const void*>(&v), sizeof(V));
  bool lay = true;
  for (size_t i = 0; i < N; ++i) lay &= std::memcmp(raw + i * sizeof(T), &mem[i], sizeof(T) > 8 ? 10 : sizeof(T)) == 0;
  C("layout", lay);
  if constexpr (fix)
    {
      bool mb[N]; for (size_t i = 0; i < N; ++i) mb[i] = i % 3 == 1 || i + 1 == N;
      M m(mb, element_aligned); unsigned char mr[sizeof(M)]; std::memcpy(mr, &m, sizeof(M));
      bool bits = sizeof(M) == sizeof(std::bitset<N>) || sizeof(M) * 8 >= N;
      if (N > 1 || sizeof(M) * 8 > 8) for (size_t i = 0; i < N; ++i) bits &= (mr[i / 8] >> (i % 8) & 1) == mb[i];
      C("mask_layout", bits);
    }
  // a mutable reference writes element i only
  if constexpr (N > 1) { V w(mem, element_aligned); w[N - 1] = T(99); T o[N]; w.copy_to(o, element_aligned); bool ok = o[N - 1] == T(99); for (size_t i = 0; i + 1 < N; ++i) ok &= o[i] == mem[i]; C("reference_write", ok); }
}

template <class V, class U> void rebind_facts()
{
  constexpr size_t N = V::size();
  using M = typename V::mask_type;
  constexpr bool can = N <= size_t(simd_abi::max_fixed_size<U>);
  C("rebind_exists", can_rebind<U, V>::value == can && can_rebind<U, M>::value == can);
  if constexpr (can && can_rebind<U, V>::value)
    {
      using R = rebind_simd_t<U, V>; using RM = rebind_simd_t<U, M>;
      C("rebind", R::size() == N && std::is_same_v<typename R::value_type, U> && std::is_same_v<typename rebind_simd<U, V>::type, R> && std::is_default_constructible_v<R>);
      C("rebind_mask", std::is_same_v<RM, typename R::mask_type> && std::is_default_constructible_v<RM>);
    }
}
template <class V, int K> void resize_facts()
{
  using T = typename V::value_type; using M = typename V::mask_type;
  constexpr bool can = K >= 1 && K <= simd_abi::max_fixed_size<T>;
  C("resize_exists", can_resize<K, V>::value == can && can_resize<K, M>::value == can);
  if constexpr (can && can_resize<K, V>::value)
    {
      using R = resize_simd_t<K, V>;
      C("resize", R::size() == K && std::is_same_v<typename R::value_type, T> && std::is_same_v<R, simd<T, simd_abi::deduce_t<T, K>>> && std::is_same_v<resize_simd_t<K, M>, typename R::mask_type>);
    }
}
template <class V> void transform_facts()
{
  each_type(TL<signed char, unsigned short, int, unsigned long, float, double, long double, char16_t>(), [](auto* u) { rebind_facts<V, std::remove_pointer_t<decltype(u)>>(); });
  C("rebind_bool", !can_rebind<bool, V>::value && !can_rebind<Cls, V>::value && !can_rebind<bool, typename V::mask_type>::value);
  resize_facts<V, 1>(); resize_facts<V, 3>(); resize_facts<V, 4>(); resize_facts<V, 32>(); resize_facts<V, 33>(); resize_facts<V, 64>(); resize_facts<V, 65>(); resize_facts<V, 0>();
}

template <class T, size_t... Ns> void deduce_facts(std::index_sequence<Ns...>)
{
  auto one = [](auto nc) {
    constexpr size_t N = nc;
    const std::string save = chk_key;
    chk_key += "|N=" + std::to_string(N);
    constexpr bool fits = N >= 1 && N <= size_t(simd_abi::max_fixed_size<T>);
    C("deduce_exists", can_deduce<T, N>::value == fits);
    if constexpr (fits && can_deduce<T, N>::value)
      {
	using A = simd_abi::deduce_t<T, N>; using V = simd<T, A>;
	C("deduce_size", V::size() == N && simd_size_v<T, A> == N);
	C("deduce_register", std::is_same_v<A, simd_abi::fixed_size<N>> == (N > 1 && N * sizeof(T) > native_bytes<T>()));
	C("deduce_scalar", std::is_same_v<A, simd_abi::scalar> == (N == 1));
	C("deduce_hint", std::is_same_v<A, simd_abi::deduce_t<T, N, simd_abi::scalar>> && std::is_same_v<A, typename simd_abi::deduce<T, N, simd_abi::fixed_size<N>, simd_abi::native<T>>::type>);
	if constexpr (N * sizeof(T) == native_bytes<T>() && N > 1) C("deduce_native", std::is_same_v<A, simd_abi::native<T>>);
	type_facts<V, (N * sizeof(T) <= native_bytes<T>())>();
	type_facts<fixed_size_simd<T, N>, false>();
	C("fixed_size", fixed_size_simd<T, N>::size() == N && std::is_same_v<fixed_size_simd<T, N>, simd<T, simd_abi::fixed_size<N>>> && std::is_same_v<fixed_size_simd_mask<T, N>, simd_mask<T, simd_abi::fixed_size<N>>>);
	using F = fixed_size_simd<T, N>;
	if (N <= 32) printf("LAYOUT %s|%zu %zu %zu %zu %zu\n", vh::ty_name(vh::ty_v<T>), N, sizeof(F), alignof(F), sizeof(typename F::mask_type), alignof(typename F::mask_type));
	if constexpr (N % 5 == 3) { transform_facts<V>(); transform_facts<F>(); }
      }
    else
      {
	C("fixed_size_invalid", disabled<simd<T, simd_abi::fixed_size<N>>> && disabled<simd_mask<T, simd_abi::fixed_size<N>>>);
      }
    chk_key = save;
  };
  (one(std::integral_constant<size_t, Ns>()), ...);
}
template <class T, class A> constexpr bool unusable = disabled<simd<T, A>> && disabled<simd_mask<T, A>>;
template <class T, class A> constexpr bool usable = std::is_default_constructible_v<simd<T, A>> && std::is_copy_constructible_v<simd<T, A>> && std::is_destructible_v<simd<T, A>> && std::is_default_constructible_v<simd_mask<T, A>>;
// register ABI tags of every byte count: usable iff the flags provide such registers
template <class T, int B> void tag_facts()
{
  const std::string save = chk_key;
  chk_key += "|bytes=" + std::to_string(B);
  constexpr bool shape = B % sizeof(T) == 0 && B / sizeof(T) > 1 && B <= int(native_bytes<T>());
#if defined __AVX512VL__
  constexpr bool btm = shape && (sizeof(T) >= 4 || native_bytes<T>() == 64), vec = shape && B <= 32;
#elif defined __AVX512F__
  constexpr bool btm = shape && B > 32, vec = shape && B <= 32;
#else
  constexpr bool btm = false, vec = shape;
#endif
  C("tag_VecBuiltin", usable<T, simd_abi::_VecBuiltin<B>> == vec && unusable<T, simd_abi::_VecBuiltin<B>> == !vec);
  C("tag_VecBltnBtmsk", usable<T, simd_abi::_VecBltnBtmsk<B>> == btm && unusable<T, simd_abi::_VecBltnBtmsk<B>> == !btm);
  C("tag_is_abi_tag", B <= 1 || (is_abi_tag_v<simd_abi::_VecBuiltin<B>> && is_abi_tag_v<simd_abi::_VecBltnBtmsk<B>>));
  if constexpr (vec) C("tag_size", simd<T, simd_abi::_VecBuiltin<B>>::size() == B / sizeof(T));
  if constexpr (btm) C("tag_size", simd<T, simd_abi::_VecBltnBtmsk<B>>::size() == B / sizeof(T));
  chk_key = save;
}
template <class T> void no_simd(const char* n)
{
  const std::string save = chk_key;
  chk_key += std::string("|") + n;
  C("unusable_element", unusable<T, simd_abi::scalar> && unusable<T, simd_abi::fixed_size<1>> && unusable<T, simd_abi::fixed_size<4>> && unusable<T, simd_abi::_VecBuiltin<16>> && unusable<T, simd_abi::_VecBltnBtmsk<64>>);
  C("unusable_size", !has_size<T, simd_abi::scalar>::value && !has_size<T, simd_abi::fixed_size<4>>::value && !has_size<T, simd_abi::_VecBuiltin<16>>::value);
  C("unusable_deduce", !can_deduce<T, 1>::value && !can_deduce<T, 4>::value);
  chk_key = save;
}

template <class T> [[gnu::noipa]] void run(const void* const*, void* const* out, long)
{
  chk_key = vh::ty_name(vh::ty_v<T>);
  using N = simd_abi::native<T>; using Cp = simd_abi::compatible<T>;
  C("native_size", native_simd<T>::size() * sizeof(T) == native_bytes<T>());
  C("native_types", std::is_same_v<native_simd<T>, simd<T, N>> && std::is_same_v<native_simd_mask<T>, simd_mask<T, N>> && std::is_same_v<typename native_simd<T>::mask_type, native_simd_mask<T>>);
  C("default_abi", std::is_same_v<simd<T>, simd<T, Cp>> && std::is_same_v<simd_mask<T>, simd_mask<T, Cp>> && simd_size_v<T> == simd<T>::size());
  C("compatible", sizeof(T) > 8 ? std::is_same_v<Cp, simd_abi::scalar> : simd<T>::size() * sizeof(T) == 16);
  C("scalar", simd<T, simd_abi::scalar>::size() == 1 && sizeof(simd<T, simd_abi::scalar>) == sizeof(T));
  C("scalar_native", std::is_same_v<N, simd_abi::scalar> == (native_bytes<T>() == sizeof(T)));
  C("max_fixed_size", simd_abi::max_fixed_size<T> >= 32 && size_t(simd_abi::max_fixed_size<T>) >= native_simd<T>::size());
  type_facts<simd<T, simd_abi::scalar>, true>(); type_facts<native_simd<T>, true>(); type_facts<simd<T>, true>();
  transform_facts<native_simd<T>>(); transform_facts<simd<T>>(); transform_facts<simd<T, simd_abi::scalar>>();
  C("resize_identity", std::is_same_v<resize_simd_t<int(native_simd<T>::size()), native_simd<T>>, native_simd<T>> && std::is_same_v<rebind_simd_t<T, native_simd<T>>, native_simd<T>>);
  deduce_facts<T>(std::make_index_sequence<67>());
  tag_facts<T, 1>(); tag_facts<T, 2>(); tag_facts<T, 3>(); tag_facts<T, 4>(); tag_facts<T, 6>(); tag_facts<T, 8>(); tag_facts<T, 12>(); tag_facts<T, 13>(); tag_facts<T, 15>(); tag_facts<T, 16>(); tag_facts<T, 18>(); tag_facts<T, 20>();
  tag_facts<T, 24>(); tag_facts<T, 28>(); tag_facts<T, 31>(); tag_facts<T, 32>(); tag_facts<T, 36>(); tag_facts<T, 40>(); tag_facts<T, 48>(); tag_facts<T, 56>(); tag_facts<T, 60>(); tag_facts<T, 63>(); tag_facts<T, 64>(); tag_facts<T, 80>(); tag_facts<T, 128>();
  no_simd<bool>("bool"); no_simd<Cls>("class"); no_simd<int*>("pointer"); no_simd<const T>("const"); no_simd<volatile T>("volatile"); no_simd<std::nullptr_t>("nullptr_t"); no_simd<simd<T>>("simd");
  C("bad_abi", disabled<simd<T, int>> && disabled<simd_mask<T, int>> && disabled<simd<T, Cls>> && disabled<simd<T, void>> && !has_size<T, int>::value && !has_size<T, Cls>::value && !has_size<T, void>::value);
  C("bad_tag", !is_abi_tag_v<int> && !is_abi_tag_v<Cls> && !is_abi_tag_v<void> && !is_abi_tag_v<simd_abi::fixed_size<0>> && is_abi_tag_v<simd_abi::scalar> && is_abi_tag_v<simd_abi::fixed_size<7>>);
  C("bad_simd", !is_simd_v<int> && !is_simd_v<void> && !is_simd_v<Cls> && !is_simd_mask_v<bool> && !is_simd_mask_v<void>);
  chk_done();
}
static int init = [] { vh::add({"traits", vh::ty_v<VH_T>, vh::ty_v<VH_T>, "all", 1, 0, run<VH_T>, nullptr, 0}); return 0; }();
