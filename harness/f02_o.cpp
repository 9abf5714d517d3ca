#include "vh_oracle.h"
#include <cfenv>
#include <exception>
using namespace vh;
namespace {
template <class T> double ulps(T got, T e)
{
  if (std::isnan(e) || std::isnan(got)) return std::isnan(e) && std::isnan(got) ? 0 : 1e300;
  if (got == e) return 0;
  if (std::isinf(e) || std::isinf(got))
    { // overflow threshold: one is infinite, the other within an ulp or two of it
      T f = std::isinf(e) ? got : e, i = std::isinf(e) ? e : got;
      if (std::isinf(f) || std::signbit(f) != std::signbit(i)) return 1e300;
      return std::abs(f) >= std::numeric_limits<T>::max() * (1 - 3 * std::numeric_limits<T>::epsilon()) ? 2 : 1e300;
    }
  using L = std::numeric_limits<T>;
  int ex; std::frexp(std::max(std::abs(e), L::min()), &ex);
  T u = std::ldexp(T(1), std::max(ex - L::digits, L::min_exponent - L::digits));
  return double(std::abs((got - e) / u));
}
struct Max { double u = 0; std::string what; };
}
template <class T> void run_fp(const Reg& r, const char* key)
{
  using L = std::numeric_limits<T>;
  std::string o = r.op;
  if (o == "dlegendre" || o == "dcomp_ellint_1" || o == "dcyl_bessel_j") o = o.substr(1);
  const int N = r.n;
  Rng g = rng_for(key);
  const bool special = o.find("ellint") != o.npos || o == "expint" || o == "riemann_zeta" || o.find("beta") != o.npos || o.find("cyl") == 0 || o.find("sph") == 0 || o.find("legendre") != o.npos
    || o.find("laguerre") != o.npos || o == "hermite";
  const bool hyp = o.find("hypot") != o.npos;
  const bool trig = o == "sin" || o == "cos" || o == "sincos";
  const long nv = (special ? 300 : (thorough ? 100000 : trig || hyp ? 40000 : 8000) / (sizeof(T) > 8 ? 4 : 1)) / N + 2, n = nv * N;
  AVec<T> a(n), b(n), c(n), r0(n); AVec<unsigned> ul(n), um(n);
  auto uni = [&](double lo, double hi) { return T(lo + (hi - lo) * double(g.next() >> 11) * 0x1p-53); };
  auto spec = [&](T lo, T hi) { const auto& s = specials<T>(); for (int k = 0; k < 20; ++k) { T x = s[g.below(s.size())]; if (x >= lo && x <= hi) return x; } return lo; };
  for (long q = 0; q < nv; ++q)
    {
      const int cls = g.below(8); // kind of vector
      for (int j = 0; j < N; ++j)
	{
	  const long i = q * N + j;
	  T x = rand_value<T>(g), y = rand_value<T>(g), z = rand_value<T>(g);
	  if (trig)
	    {
	      switch (cls)
		{
		case 0: x = uni(-.75, .75); break;
		case 1: x = uni(-4.7, 4.7); break;
		case 2: x = uni(-800, 800); break;
		case 3: x = uni(-390000, 390000); break;
		case 4: x = T(int(g.below(2001)) - 1000) * T(0.785398163397448309615660845819875721L); for (int k = g.below(3); k; --k) x = std::nextafter(x, g.coin() ? L::infinity() : -L::infinity()); break;
		case 5: { x = uni(-1.6, 1.6); if (j == int(q % N)) x = rand_value<T>(g); break; }
		case 6: x = rand_value<T>(g); break;
		default: x = uni(-1e9, 1e9); break;
		}
	    }
	  else if (hyp)
	    {
	      auto scaled = [&](int e) { T v = std::ldexp(1 + T(g.next() >> 11) * T(0x1p-53), e); if (!std::isfinite(v)) v = L::max(); return g.coin() ? v : -v; };
	      const int e = L::min_exponent + 2 + int(g.below(L::max_exponent - L::min_exponent - 4));
	      auto near = [&] { return scaled(std::min(std::max(e - int(g.below(L::digits + 4)), L::min_exponent), L::max_exponent - 1)); };
	      switch (cls)
		{
		case 0: case 1: x = scaled(e); y = near(); z = near(); if (g.coin()) std::swap(x, z); if (g.coin()) std::swap(x, y); break; // normal
		case 2: x = scaled(L::max_exponent - 1 - int(g.below(3))); y = scaled(L::max_exponent - 1 - int(g.below(20))); z = near(); if (g.coin()) std::swap(y, z); break;
		case 3: x = scaled(L::min_exponent - 1 - int(g.below(L::digits))); y = scaled(L::min_exponent - 1 - int(g.below(L::digits))); z = scaled(L::min_exponent - 1 - int(g.below(L::digits))); break;
		case 4: x = scaled(e); y = near(); z = near(); if (j == int(q % N)) { (g.coin() ? x : g.coin() ? y : z) = specials<T>()[g.below(specials<T>().size())]; } break;
		case 5: { static const int tri[][3] = {{3, 4, 12}, {5, 12, 84}, {8, 15, 144}, {1, 2, 2}, {2, 3, 6}, {0, 7, 0}}; const int* t = tri[g.below(6)]; x = t[0]; y = t[1]; z = t[2]; break; }
		default:;
		}
	    }
	  else if (!special)
	    {
	      if (cls == 0) { x = uni(-1, 1); y = uni(-1, 1); }
	      if (cls == 1) { x = uni(-20, 20); y = uni(-20, 20); }
	      if (cls == 2) { x = uni(0, 100); y = uni(-10, 10); }
	      if (cls == 3) { x = T(int(g.below(60)) - 30); y = T(int(g.below(60)) - 30) / (g.coin() ? 1 : 2); }
	      if (cls == 4 && j != int(q % N)) { x = uni(0.1, 10); y = uni(0.1, 3); }
	    }
	  else if (o == "expint" ) x = g.below(5) ? uni(-40, 40) : spec(-50, 50);
	  else if (o == "riemann_zeta") { do x = uni(-8, 20); while (std::abs(x - 1) < T(.01)); }
	  else if (o.find("beta") != o.npos) { x = uni(0.1, 15); y = uni(0.1, 15); }
	  else if (o == "comp_ellint_1" || o == "comp_ellint_2") x = g.below(4) ? uni(-.99, .99) : T(0);
	  else if (o == "comp_ellint_3") { x = uni(-.99, .99); y = uni(-.9, .9); }
	  else if (o == "ellint_1" || o == "ellint_2") { x = uni(-.99, .99); y = uni(-3, 3); }
	  else if (o == "ellint_3") { x = uni(-.9, .9); y = uni(-.9, .9); z = uni(-1.5, 1.5); }
	  else if (o.find("cyl") == 0) { x = uni(0, 8); y = uni(.1, 30); }
	  else if (o == "assoc_legendre" || o == "legendre") x = g.below(5) ? uni(-1, 1) : T(int(g.below(3)) - 1);
	  else if (o == "sph_legendre") x = uni(0, 3.1);
	  else if (o.find("sph_") == 0) x = uni(.1, 30);
	  else if (o.find("laguerre") != o.npos) x = uni(0, 20);
	  else if (o == "hermite") x = uni(-5, 5);
	  a[i] = fast_value(x); b[i] = fast_value(y); c[i] = fast_value(z);
	  ul[i] = g.below(9); um[i] = o == "sph_legendre" || o == "assoc_legendre" ? g.below(ul[i] + 1) : g.below(6);
	}
    }
  std::memset(r0.p, 0x5a, n * sizeof(T));
  const void* in[] = {a.p, b.p, c.p, ul.p, um.p}; void* out[] = {r0.p};
  try { call(r, in, out, nv); } catch (const std::exception& x) { fail(key, "threw %s for arguments inside the domain", x.what()); return; }
  long nt = 0; Max mx;
  for (long i = 0; i < n; ++i)
    {
      const T x = a[i], y = b[i], z = c[i], s = b[i / N * N];
      T e; double tol = 1;
      if (false) ;
#define U(f) else if (o == #f) e = std::f(x);
#define B(f) else if (o == #f) e = std::f(x, y);
      U(acos) U(asin) U(atan) U(tan) U(acosh) U(asinh) U(atanh) U(cosh) U(sinh) U(tanh)
      U(exp) U(exp2) U(expm1) U(log) U(log10) U(log1p) U(log2) U(cbrt) U(erf) U(erfc) U(lgamma) U(tgamma)
      B(atan2) B(pow)
      U(comp_ellint_1) U(comp_ellint_2) U(expint) U(riemann_zeta)
      B(beta) B(comp_ellint_3) B(cyl_bessel_i) B(cyl_bessel_j) B(cyl_bessel_k) B(cyl_neumann) B(ellint_1) B(ellint_2)
      U(sin) U(cos)
      else if (o == "sincos") e = std::isfinite(x) ? T(1) : L::quiet_NaN();
      else if (o == "powS") e = std::pow(x, s); else if (o == "Spow") e = std::pow(s, x); else if (o == "powI") e = std::pow(x, T(2)); else if (o == "powIb") e = std::pow(T(2), x);
      else if (o == "atan2S") e = std::atan2(x, s); else if (o == "Satan2") e = std::atan2(s, x);
      else if (o == "betaS") e = std::beta(x, s); else if (o == "Sbeta") e = std::beta(s, x);
      else if (o == "ellint_3") e = std::ellint_3(x, y, z);
      else if (o == "assoc_laguerre") e = std::assoc_laguerre(ul[i], um[i], x); else if (o == "assoc_legendre") e = std::assoc_legendre(ul[i], um[i], x);
      else if (o == "sph_legendre") e = std::sph_legendre(ul[i], um[i], x); else if (o == "hermite") e = std::hermite(ul[i], x);
      else if (o == "laguerre") e = std::laguerre(ul[i], x); else if (o == "legendre") e = std::legendre(ul[i], x);
      else if (o == "sph_bessel") e = std::sph_bessel(ul[i], x); else if (o == "sph_neumann") e = std::sph_neumann(ul[i], x);
      else if (hyp)
	{
	  auto h2 = [](T p, T q) { return std::hypot(p, q); };
	  // reference of the three-argument form in extended precision (std::hypot is inaccurate)
	  auto h3 = [](T p, T q, T w) -> T {
	    if (std::isinf(p) || std::isinf(q) || std::isinf(w)) return L::infinity();
	    if (std::isnan(p) || std::isnan(q) || std::isnan(w)) return L::quiet_NaN();
	    if (sizeof(T) <= 8) { long double P = p, Q = q, W = w; return T(std::sqrt((P * P + Q * Q) + W * W)); }
	    T m = std::max(std::max(std::abs(p), std::abs(q)), std::abs(w)); if (m == 0) return 0;
	    int ex; std::frexp(m, &ex); p = std::ldexp(p, -ex); q = std::ldexp(q, -ex); w = std::ldexp(w, -ex);
	    __float128 P = p, Q = q, W = w, S = P * P + Q * Q + W * W; T t = std::sqrt(T(S)); return std::ldexp(T(t + T((S - (__float128)t * t) / (2 * (__float128)t))), ex);
	  };
	  if (o == "hypot") e = h2(x, y); else if (o == "hypotS" || o == "Shypot") e = h2(x, s); else if (o == "hypot3") e = h3(x, y, z);
	  else if (o == "hypotVVS" || o == "hypotVSV" || o == "hypotSVV") e = h3(x, y, s); else e = h3(x, s, s);
	}
      else __builtin_abort();
      double u = ulps(r0[i], e);
      if (hyp) tol = 2;
      // templates of the standard library: compiled with and without contraction to FMA
      if (special && u < 1e300 && std::abs(r0[i] - e) <= (sizeof(T) == 4 ? T(1e-4) : T(1e-12)) * std::max(T(1), std::abs(e))) u = 0;
      if (o == "sincos") tol = 8;
      else if (trig)
	{ // in the vicinity of the zeros the argument reduction leaves an absolute error
	  tol = 3;
	  if (std::abs(x) > 100 && std::abs(r0[i] - e) <= 2 * L::epsilon()) u = 0;
	}
      if (vh_fast)
	{
	  if (o == "powIb") continue; // the compiler uses exp(x * log(2))
	  // the compiler may merge the steps of the argument reduction
	  if (fast_same(r0[i], e) || ((trig || o == "tan") && std::abs(r0[i] - e) <= 4 * L::epsilon() * std::max(T(1), std::abs(x)))) continue;
	  tol *= hyp || trig ? 4 : 16;
	}
      if (u > mx.u && u < 1e300) { mx.u = u; mx.what = str(x) + "," + str(y) + "," + str(z) + " -> " + str(r0[i]) + " ref " + str(e); }
      if (u > tol) fail(key, "element %ld of %d: (%s, %s, %s, %u, %u) -> %s, expected %s (%.3g ulp)", i % N, N, str(x).c_str(), str(y).c_str(), str(z).c_str(), ul[i], um[i], str(r0[i]).c_str(), str(e).c_str(), u);
      else if (!special && e == 0 && r0[i] == 0 && std::signbit(e) != std::signbit(r0[i])) fail(key, "element %ld of %d: (%s, %s, %s) -> %s, expected %s", i % N, N, str(x).c_str(), str(y).c_str(), str(z).c_str(), str(r0[i]).c_str(), str(e).c_str());
      nt += !same(x, r0[i]);
    }
  count(n, nt);
  if (getenv("VH_ULP") && mx.u > 1) printf("ULP %s %g %s\n", key, mx.u, mx.what.c_str());
  if (g.below(40) == 0) sample("%s: (%s, %s) -> %s, largest error %.3g ulp", key, str(a[3]).c_str(), str(b[3]).c_str(), str(r0[3]).c_str(), mx.u);
}
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{ with_arith(r.t, [&](auto t) { using T = decltype(t); if constexpr (is_fp<T>) run_fp<T>(r, key); }); }
