// W01: where-expressions: assignment, compound assignment, ++, --, unary minus
#include "vh_pairs.h"
#define WK(NAME, ...) VH_KERNEL(NAME) { using M = typename V::mask_type; using T = typename V::value_type; for (long i = 0; i < n; ++i) { \
  V a = ld<V>(in[0], i), b = ld<V>(in[1], i); M k = ldm<M>(in[2], i); const T s = static_cast<const T*>(in[1])[i * long(V::size())]; (void)s; (void)b; __VA_ARGS__; } }
#define WV(NAME, ...) WK(NAME, __VA_ARGS__; st(out[0], i, a))
WV(k_asg, where(k, a) = b)
WV(k_asgs, where(k, a) = s)
WV(k_asgn, where(!k, b) = a; a = b)
WV(k_add, where(k, a) += b)
WV(k_sub, where(k, a) -= b)
WV(k_mul, where(k, a) *= b)
WV(k_div, where(k, a) /= b)
WV(k_mod, where(k, a) %= b)
WV(k_and, where(k, a) &= b)
WV(k_or, where(k, a) |= b)
WV(k_xor, where(k, a) ^= b)
WV(k_shl, where(k, a) <<= b)
WV(k_shr, where(k, a) >>= b)
WV(k_adds, where(k, a) += s)
WV(k_subs, where(k, a) -= s)
WV(k_muls, where(k, a) *= s)
WV(k_divs, where(k, a) /= s)
WV(k_mods, where(k, a) %= s)
WV(k_ands, where(k, a) &= s)
WV(k_ors, where(k, a) |= s)
WV(k_xors, where(k, a) ^= s)
WV(k_shls, where(k, a) <<= s)
WV(k_shrs, where(k, a) >>= s)
WV(k_inc, ++where(k, a))
WV(k_dec, --where(k, a))
WV(k_pinc, where(k, a)++)
WV(k_pdec, where(k, a)--)
WK(k_neg, V r = -where(k, a); st(out[0], i, r))
WK(k_cneg, const V c = a; V r = -where(k, c); st(out[0], i, r))
// literal operands
WV(k_asgz, where(k, a) = T())
WV(k_asgm, where(k, a) = -T())
WV(k_asgc, where(k, a) = T(3))
WV(k_addc, where(k, a) += T(3))
WV(k_subc, where(k, a) -= T(3))
WV(k_mulc, where(k, a) *= T(3))
WV(k_divc, where(k, a) /= T(3))
WV(k_addz, where(k, a) += T())
WV(k_addm, where(k, a) += -T())
WV(k_subz, where(k, a) -= T())
WV(k_mulz, where(k, a) *= T())
WV(k_asgvz, where(k, a) = V())
WV(k_asgvm, where(k, a) = -V())
WV(k_modc, where(k, a) %= T(3))
WV(k_andc, where(k, a) &= T(3))
WV(k_orc, where(k, a) |= T(3))
WV(k_xorc, where(k, a) ^= T(3))
WV(k_shlc, where(k, a) <<= T(3))
WV(k_shrc, where(k, a) >>= T(3))
// masks the optimiser knows
WV(k_asgT, where(M(true), a) = b)
WV(k_addT, where(M(true), a) += b)
WV(k_asgF, where(M(false), a) = b; where(M(false), a) -= b; --where(M(false), a))
WK(k_negT, V r = -where(M(true), a); st(out[0], i, r))
// chains; the mask is a comparison result, its negation, a disjunction
WV(k_cmp, M q(false); where(k, q) = (a == a) || (a != a); where(q, a) = b)
WV(k_chain, const V o = a; where(k, a) = b; where(!k, b) = a; where(!k, a) = b; where(!k, a) = o)
// bool overload: mask element 0, applied to vectors as objects and to scalars
WV(k_bool, bool q = k[0]; T x = a[0], y = b[0]; stdx::where(q, x) = y; a[0] = x)
WV(k_booladd, bool q = k[0]; T x = a[0], y = b[0]; stdx::where(q, x) += y; a[0] = x)
WV(k_boolinc, bool q = k[0]; T x = a[0]; if (i & 1) ++stdx::where(q, x); else stdx::where(q, x)++; a[0] = x)
WV(k_booldec, bool q = k[0]; T x = a[0]; if (i & 1) --stdx::where(q, x); else stdx::where(q, x)--; a[0] = x)
WV(k_boolneg, bool q = k[0]; T x = a[0]; const T z = x; T w = -stdx::where(q, z); a[0] = w)
template <class T, int L> void regs()
{
  for_abis<T, L>([](auto l) {
    using V = typename decltype(l)::type;
    constexpr int N = V::size();
#define R(x) reg(#x, l, k_##x<V>)
#define PICK(mod, salt) if constexpr (vh_pick(L, mod, salt, N, sizeof(T), std::is_floating_point_v<T>))
    R(asg); R(asgs); R(add); R(neg); R(inc);
    PICK(2, 1) { R(sub); R(pdec); R(asgn); }
    PICK(2, 2) { R(dec); R(chain); }
    PICK(2, 3) { R(mul); R(adds); }
    PICK(2, 4) { R(div); R(divs); }
    PICK(3, 5) { R(subs); R(muls); R(pinc); R(cneg); }
    PICK(3, 6) { R(asgT); R(addT); R(asgF); R(negT); R(cmp); }
    PICK(4, 7) { R(bool); R(booladd); R(boolinc); R(booldec); R(boolneg); }
    PICK(3, 11) { R(asgz); R(asgm); R(addc); R(divc); }
    PICK(4, 12) { R(asgc); R(mulc); R(subz); R(asgvz); }
    PICK(4, 13) { R(subc); R(addz); R(addm); R(mulz); R(asgvm); }
    if constexpr (std::is_integral_v<T>)
      {
	PICK(2, 8) { R(mod); R(and); R(shl); R(shrs); }
	PICK(2, 9) { R(or); R(xor); R(shr); R(shls); }
	PICK(4, 14) { R(modc); R(shlc); R(andc); }
	PICK(4, 15) { R(orc); R(xorc); R(shrc); }
	PICK(4, 10) { R(mods); R(ands); R(ors); R(xors); }
      }
  });
}
static int init = [] { regs<VH_T, VH_LEVEL>(); return 0; }();
