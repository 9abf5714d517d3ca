// V01: construction and element access
#include "vh_pairs.h"
#include <array>
#include <utility>
// in: a, b (vectors), ij (two indices per vector); out: vector, scalar per vector
#define K(NAME, ...) VH_KERNEL(NAME) { using T = typename V::value_type; constexpr int N = V::size(); (void)N; for (long q = 0; q < n; ++q) { \
  V v = ld<V>(in[0], q); const T x = static_cast<const T*>(in[1])[q * N]; const int* ij = static_cast<const int*>(in[2]) + 2 * q; const int i = ij[0], j = ij[1]; T r = x; \
  const T* pa = static_cast<const T*>(in[0]) + q * N; (void)x; (void)i; (void)j; (void)pa; __VA_ARGS__; st(out[0], q, v); static_cast<T*>(out[1])[q] = r; } }
K(k_gen, int cnt[N] = {}; v = V([&](auto e) { ++cnt[e]; return pa[e]; }); for (int e = 0; e < N; ++e) if (cnt[e] != 1) v[e] = pa[e] == T(77) ? T(78) : T(77))
K(k_genrev, v = V([&](auto e) { return pa[N - 1 - e]; }))
K(k_genint, v = V([](auto e) { return int(e) - 3; }))
K(k_genidx, v = V([](auto e) { return T(e + 1); }))
K(k_bc, v = V(x))
K(k_bcimpl, v = x)
K(k_bcarg, V w = [](V y) { return y; }(x); v = w)
K(k_bc7, v = V(7); v = v + T(0))
template <class V, class U> [[gnu::noipa]] void k_bcu(const void* const* in, void* const* out, long n)
{ for (long q = 0; q < n; ++q) { const U u = static_cast<const U*>(in[0])[q]; V v = u; st(out[0], q, v); } }
K(k_copy, V w(v); V y; y = w; V z(std::move(y)); w = V(x); v = z; z = w)
K(k_assign, V w; w = v; V y = std::move(w); std::swap(y, v); v = y)
K(k_read, r = v[i])
K(k_readc, const V c = v; r = c[i])
template <class V, size_t... Is> [[gnu::always_inline]] inline void readall(const V& c, typename V::value_type* o, std::index_sequence<Is...>) { ((o[Is] = c[Is]), ...); }
template <class V, class T, size_t... Is> [[gnu::always_inline]] inline void writeall(V& c, const T* o, std::index_sequence<Is...>) { ((c[Is] = o[Is]), ...); }
K(k_readall, T t[N]; readall(v, t, std::make_index_sequence<N>()); v = V(t, VH_ELEM))
K(k_writeall, T t[N]; for (int e = 0; e < N; ++e) t[e] = pa[e]; V w; writeall(w, t, std::make_index_sequence<N>()); v = w)
K(k_writeloop, V w(x); for (int e = 0; e < N; ++e) w[e] = pa[e]; v = w)
K(k_write, v[i] = x)
K(k_write0, v[0] = x)
K(k_writeN, v[N - 1] = x)
K(k_writeM, v[N / 2] = x)
K(k_write2, v[i] = x; v[j] = T(v[i]))
K(k_writeref, auto&& ref = v[i]; std::move(ref) = x; r = ref)
K(k_add, v[i] += x)
K(k_sub, v[i] -= x)
K(k_mul, v[i] *= x)
K(k_div, v[i] /= x)
K(k_mod, v[i] %= x)
K(k_and, v[i] &= x)
K(k_or, v[i] |= x)
K(k_xor, v[i] ^= x)
K(k_shl, v[i] <<= x)
K(k_shr, v[i] >>= x)
K(k_addint, v[i] += 3)
K(k_inc, ++v[i])
K(k_dec, --v[i])
K(k_pinc, r = v[i]++)
K(k_pdec, r = v[i]--)
K(k_incret, r = ++v[i])
K(k_addret, r = (v[i] += x))
K(k_asgret, r = (v[i] = x))
K(k_swapij, swap(v[i], v[j]))
K(k_swapjc, swap(v[N - 1], v[0]))
K(k_swaprx, T y = x; swap(v[i], y); r = y)
K(k_swapxr, T y = x; swap(y, v[i]); r = y)
K(k_swap2, V w = V(x); swap(v[i], w[j]); r = w[j])
// masks: bool arrays in place of the values
#define KM(NAME, ...) VH_KERNEL(NAME) { using M = typename V::mask_type; constexpr int N = V::size(); for (long q = 0; q < n; ++q) { \
  M v = ldm<M>(in[0], q); const bool x = static_cast<const bool*>(in[1])[q * N]; const int* ij = static_cast<const int*>(in[2]) + 2 * q; const int i = ij[0], j = ij[1]; bool r = x; (void)j; (void)x; \
  __VA_ARGS__; stm(out[0], q, v); static_cast<bool*>(out[1])[q] = r; } }
KM(m_write, v[i] = x)
KM(m_write2, v[i] = x; v[j] = bool(v[i]))
KM(m_read, const M c = v; r = c[i])
KM(m_read2, r = v[i])
KM(m_swapij, swap(v[i], v[j]))
KM(m_swaprx, bool y = x; swap(v[i], y); r = y)
KM(m_swapxr, bool y = x; swap(y, v[i]); r = y)
KM(m_bc, v = M(x))
KM(m_gen, const bool* pa = static_cast<const bool*>(in[0]) + q * N; M w(false); for (int e = 0; e < N; ++e) w[e] = pa[e]; v = w)
template <class T, int L> void regs()
{
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
    constexpr int N = V::size();
#define R(x) reg(#x, l, k_##x<V>)
#define RM(x) vh::add({"m_" #x, vh::BOOL, vh::ty_v<T>, l.name, N, 0, m_##x<V>, "mask", 0})
#define PICK(mod, salt) if constexpr (vh_pick(L, mod, salt, N, sizeof(T), std::is_floating_point_v<T>))
    R(gen); R(bc); R(read); R(readc); R(write); R(swapij); R(writeloop);
    PICK(2, 1) { R(genrev); R(genidx); R(readall); }
    PICK(2, 2) { R(writeall); R(copy); R(add); }
    PICK(3, 3) { R(genint); R(bcimpl); R(bcarg); R(bc7); R(assign); }
    PICK(3, 4) { R(write0); R(writeN); R(writeM); R(write2); }
    PICK(3, 5) { R(writeref); R(sub); R(mul); R(div); }
    PICK(3, 6) { R(inc); R(dec); R(pinc); R(pdec); R(incret); }
    PICK(3, 7) { R(addret); R(asgret); R(swapjc); R(swaprx); }
    PICK(3, 8) { R(swapxr); R(swap2); R(addint); }
    if constexpr (std::is_integral_v<T>) { PICK(3, 9) { R(mod); R(and); R(or); } PICK(3, 10) { R(xor); R(shl); R(shr); } }
    PICK(2, 11) { RM(write); RM(read); RM(swapij); }
    PICK(3, 12) { RM(write2); RM(read2); RM(swaprx); RM(swapxr); RM(bc); RM(gen); }
    each_type(TL<signed char, unsigned char, short, unsigned short, int, unsigned, long, unsigned long, float, double, long double, char16_t>(), [&](auto* u) {
      using U = std::remove_pointer_t<decltype(u)>;
      if constexpr ((value_preserving<U, T>() || std::is_same_v<U, int> || (std::is_same_v<U, unsigned> && std::is_unsigned_v<T>)) && !std::is_same_v<T, U>)
	if constexpr (vh_pick(L, 4, 13, N, vh::ty_v<U>, vh::ty_v<T>))
	  vh::add({"bcu", vh::ty_v<T>, vh::ty_v<U>, l.name, N, 0, k_bcu<V, U>, nullptr, 0});
    });
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
