#include "vh_oracle.h"
#include <cfenv>
#include <map>
using namespace vh;
void vh_begin() {}
void vh_end() {}
namespace {
// what one element raises
template <class T> struct Op
{
  using Fn = T (*)(T, T);
  Fn f; char kind; // b: every element, m: where(k), r: reduction (no inexact/underflow claimed), 0: element 0 is the second operand, s: (b[0], a), x: no flags at all
  int ignore = 0; // flags the standard leaves open
};
#define E(...) [](T a, T b) [[gnu::noipa]] -> T { (void)a; (void)b; volatile T r_; r_ = (__VA_ARGS__); return r_; }
template <class T> const std::map<std::string, Op<T>>& table()
{
  static const std::map<std::string, Op<T>> t = {
    {"add", {E(a + b), 'b'}}, {"sub", {E(a - b), 'b'}}, {"mul", {E(a * b), 'b'}}, {"div", {E(a / b), 'b'}}, {"cdiv", {E(a / b), 'b'}}, {"neg", {E(-a), 'x'}}, {"adds", {E(a + b), '0'}}, {"sdiv", {E(a / b), 's'}},
    {"inc", {E(a + 1), 'b'}}, {"dec", {E(a - 1), 'b'}}, {"eq", {E(a == b), 'b'}}, {"ne", {E(a != b), 'b'}}, {"lnot", {E(a == 0), 'b'}},
    {"lt", {E(a < b), 'b'}}, {"le", {E(a <= b), 'b'}}, {"gt", {E(a > b), 'b'}}, {"ge", {E(a >= b), 'b'}},
    {"wadd", {E(a + b), 'b'}}, {"wdiv", {E(a / b), 'b'}}, {"wmul", {E(a * b), 'b'}}, {"winc", {E(a + 1), 'b'}}, {"wneg", {E(-a), 'x'}}, {"wasg", {E(a), 'x'}}, {"ldst", {E(a), 'x'}},
    {"rsum", {E(a + b), 'r'}}, {"rwsum", {E(a + b), 'r'}}, {"rmul", {E(a * b), 'r'}}, {"hmin", {E(a < b), 'h'}}, {"hmax", {E(a < b), 'h'}},
    {"todouble", {E((double)a), 'b'}}, {"toint", {E((int)a), 'b'}}, {"toint2", {E((int)a), 'b'}}, {"tofloat2", {E((float)a), 'b'}},
    {"min", {E(a < b), 'b'}}, {"max", {E(a < b), 'b'}}, {"sqrt", {E(std::sqrt(a)), 'b'}}, {"abs", {E(a), 'x'}}, {"copysign", {E(a), 'x'}},
    {"fma", {E(std::fma(a, b, a)), 'b'}},
    {"isnan", {E(a), 'x'}}, {"isinf", {E(a), 'x'}}, {"isfinite", {E(a), 'x'}}, {"isnormal", {E(a), 'x'}}, {"signbit", {E(a), 'x'}}, {"isunordered", {E(a), 'x'}}, {"isless", {E(a), 'x'}}, {"isgreaterequal", {E(a), 'x'}}, {"islessgreater", {E(a), 'x'}},
    {"fmin", {E(std::fmin(a, b)), 'b'}}, {"fmax", {E(std::fmax(a, b)), 'b'}}, {"ldexp", {E(std::ldexp(a, 1)), 'b'}}, {"fmod", {E(std::fmod(a, b)), 'b'}},
  };
  return t;
}
std::string fl(int f)
{
  std::string s;
  if (f & FE_INVALID) s += " invalid"; if (f & FE_DIVBYZERO) s += " divbyzero"; if (f & FE_OVERFLOW) s += " overflow"; if (f & FE_UNDERFLOW) s += " underflow"; if (f & FE_INEXACT) s += " inexact";
  return s.empty() ? " none" : s;
}
template <class T> int raised(const Op<T>& o, T a, T b) { std::feclearexcept(FE_ALL_EXCEPT); o.f(a, b); return std::fetestexcept(FE_ALL_EXCEPT); }
}
void vh_run(const Reg& r, const char* key)
{
  with_arith(r.t, [&](auto z) {
    using T = decltype(z);
    if constexpr (is_fp<T>)
      {
	const std::string name(r.op);
	const Op<T>& o = table<T>().at(name);
	const size_t N = r.n;
	// operand classes: one block uses few classes so that a flag is missing from the expectation most of the time
	Rng g = rng_for(("p02" + name).c_str());
	using L = std::numeric_limits<T>;
	const std::vector<std::vector<T>> cls = {
	  {T(1), T(2), T(-4), T(8)}, {T(0), T(-0.)}, {T(1), T(3), T(0.5), T(-2)}, {L::infinity(), -L::infinity()}, {L::quiet_NaN()}, {L::max(), L::lowest()}, {L::min(), L::denorm_min()}, {T(0.3), T(-7.1), T(1e5)}, {T(1e10), T(-1e12)}, {T(-1), T(-16)}};
	const size_t nv = thorough ? 4000 : 1400;
	std::vector<T> a, b; std::vector<unsigned char> k;
	const bool small = name.compare(0, 5, "toint") == 0;
	for (size_t v = 0; v < nv; ++v)
	  {
	    size_t c1 = g.below(cls.size()), c2 = g.below(cls.size()), c3 = g.below(4) ? c1 : g.below(cls.size()), c4 = g.below(4) ? c2 : g.below(cls.size());
	    if (small) { c1 = 2 * g.below(2); c3 = 7 * g.coin(); }
	    for (size_t i = 0; i < N; ++i)
	      {
		auto& s = cls[i % 2 ? c1 : c3]; auto& u = cls[i % 2 ? c2 : c4];
		a.push_back(s[g.below(s.size())]); b.push_back(u[g.below(u.size())]); k.push_back(g.coin());
	      }
	  }
	AVec<T> A(a), B(b), out(a.size()); AVec<unsigned char> K(k); AVec<int> F(nv);
	const void* in[] = {A.p, B.p, K.p}; void* op[] = {out.p, F.p};
	call(r, in, op, nv);
	size_t quiet = 0;
	for (size_t v = 0; v < nv; ++v)
	  {
	    const T* x = &A[v * N]; const T* y = &B[v * N];
	    int ex = o.ignore | (v % 7 == 6 || v / 7 % 7 == 6 ? FE_INEXACT | FE_UNDERFLOW : 0); // 2 in the padding
	    if (o.kind == 'b') for (size_t i = 0; i < N; ++i) ex |= raised(o, x[i], y[i]);
	    else if (o.kind == '0') for (size_t i = 0; i < N; ++i) ex |= raised(o, x[i], y[0]);
	    else if (o.kind == 's') for (size_t i = 0; i < N; ++i) ex |= raised(o, y[0], x[i]);
	    else if (o.kind == 'h')
	      { for (size_t i = 0; i < N; ++i) if (x[i] != x[i]) ex |= FE_INVALID; }
	    else if (o.kind == 'r')
	      { // the order of operations is open: only flags no order can raise are excluded
		bool open = false, frac = name == "rmul";
		for (size_t i = 0; i < N; ++i) { open |= std::isinf(x[i]) || std::abs(x[i]) > (name == "rmul" ? 500 : T(1e9)) || (x[i] != 0 && std::abs(x[i]) < T(1e-9)); frac |= x[i] != std::rint(x[i]) && std::abs(x[i]) != T(0.5); }
		if (open) ex |= FE_INVALID | FE_OVERFLOW | FE_INEXACT | FE_UNDERFLOW;
		if (frac) ex |= FE_INEXACT;
	      }
	    if (F[v] & ~ex & (FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW | FE_INEXACT))
	      {
		std::string s;
		for (size_t i = 0; i < N && i < 8; ++i) s += (i ? ", " : "") + str(x[i]) + (o.kind == 'x' ? "" : " op " + str(y[i]));
		fail(key, "raised%s; the elements raise%s; operands %s; padding histories %zu, %zu", fl(F[v] & FE_ALL_EXCEPT).c_str(), fl(ex).c_str(), s.c_str(), v % 7, v / 7 % 7);
	      }
	    if (!ex) ++quiet;
	    if (v == 9 && N == 3) sample("%s: raised%s, elements raise%s", key, fl(F[v] & FE_ALL_EXCEPT).c_str(), fl(ex).c_str());
	  }
	count(nv, quiet);
      }
    else if constexpr (!std::is_same_v<T, bool>)
      {
	const std::string name(r.op);
	const size_t N = r.n, nv = thorough ? 2000 : 600;
	Rng g = rng_for(("p02" + name).c_str());
	using L = std::numeric_limits<T>;
	AVec<T> A(nv * N), B(nv * N), out(nv * N); AVec<unsigned char> K(nv * N); AVec<int> F(nv);
	for (size_t i = 0; i < nv * N; ++i)
	  {
	    const T s[] = {T(1), T(5), T(100), T(7), L::max(), T(L::max() - 3), T(L::max() / 2), T(12)};
	    A[i] = g.coin() ? s[g.below(8)] : T(1 + g.below(120)); B[i] = g.coin() ? s[g.below(8)] : T(1 + g.below(16)); K[i] = g.coin();
	    if (std::is_signed_v<T> && name != "irsum") { if (g.coin()) A[i] = T(-A[i]); if (g.coin() && B[i] != T(1)) B[i] = T(-B[i]); }
	    if (sizeof(T) >= 4 && std::is_signed_v<T> && (name == "imul" || name == "iadd" || name == "iwadd" || name == "irsum" || name == "ishl")) { A[i] = T(A[i] % 1000); B[i] = T(B[i] % 1000); }
	  }
	const void* in[] = {A.p, B.p, K.p}; void* op[] = {out.p, F.p};
	call(r, in, op, nv);
	for (size_t v = 0; v < nv; ++v)
	  if (F[v] & (FE_INVALID | FE_DIVBYZERO | FE_OVERFLOW | FE_UNDERFLOW))
	    {
	      std::string s;
	      for (size_t i = 0; i < N && i < 8; ++i) s += (i ? ", " : "") + str(A[v * N + i]) + " op " + str(B[v * N + i]);
	      fail(key, "raised%s; integer elements raise none; operands %s; padding histories %zu, %zu", fl(F[v] & FE_ALL_EXCEPT & ~FE_INEXACT).c_str(), s.c_str(), v % 7, v / 7 % 7);
	    }
	count(nv, nv);
      }
  });
}
