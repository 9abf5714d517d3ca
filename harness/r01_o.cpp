#include "m_data.h"
using namespace vh;
template <class T> void run(const Reg& r, const char* key)
{
  std::string o = r.op;
  const int N = r.n;
  const bool masked = o.compare(0, 2, "m_") == 0;
  if (masked) o = o.substr(2);
  bool alltrue = false, neg = false;
  if (o[0] == 'T') { o = o.substr(1); alltrue = true; }
  if (o[0] == 'c') o = o.substr(1);
  if (o == "dplus" || o == "dhmax") neg = true;
  if (o[0] == 'd') o = o.substr(1);
  char op = 0;
  bool extid = o == "plusid" || (masked && o[0] == 'u');
  if (o == "plus" || o == "plus2" || o == "uadd" || o == "plusid") op = '+';
  else if (o == "mul" || o == "umul") op = '*';
  else if (o == "and") op = '&'; else if (o == "or") op = '|'; else if (o == "xor" || o == "uxor") op = '^';
  else if (o == "hmin" || o == "umin") op = 'm'; else if (o == "hmax" || o == "umax") op = 'M';
  else __builtin_abort();
  Rng g = rng_for(key);
  using L = std::numeric_limits<T>;
  T id = op == '*' ? T(1) : op == '&' ? T(~(long long)0) : T(0);
  if (op == 'M') id = is_fp<T> && !vh_fast ? -L::infinity() : L::lowest();
  if (op == 'm') id = is_fp<T> && !vh_fast ? L::infinity() : L::max();
  const auto& pat = patterns(N, "R01");
  const int np = pat.size() / N;
  const int nv = std::min(std::max(np, 400), thorough ? 3000 : 1024);
  AVec<T> a(size_t(nv) * N), res(nv); AVec<unsigned char> k(size_t(nv) * N); AVec<T> idv(16);
  idv[0] = id;
  std::vector<long double> tol(nv, 0), e(nv);
  std::vector<T> ei(nv); std::vector<char> none(nv);
  long nt = 0;
  for (int q = 0; q < nv; ++q)
    {
      T* p = a.p + size_t(q) * N; unsigned char* kk = k.p + size_t(q) * N;
      for (int i = 0; i < N; ++i) kk[i] = masked && !alltrue ? pat[(q % np) * N + i] : 1;
      const int style = g.below(4);
      for (int i = 0; i < N; ++i)
	{
	  T x;
	  if constexpr (is_fp<T>)
	    {
	      if (op == '+') x = style < 3 ? T((long)g.below(1 << 18) - (1 << 17)) : T((g.next() >> 11) * 0x1p-53) * (g.coin() ? 1 : -1);
	      else if (op == '*') { x = style < 3 ? std::ldexp(T(1), int(g.below(3)) - 1) * (g.coin() ? 1 : -1) : T(1) + T(g.next() >> 40) * T(0x1p-26); if (style == 2 && i == q % N) x = T(int(g.below(1000)) - 500); }
	      else { do x = rand_value<T>(g); while (!(x == x)); if (style == 0) x = T(int(g.below(100)) - 50); if (style == 1 && !vh_fast && g.below(3)) x = op == 'm' ? L::infinity() : -L::infinity(); if (style == 1 && neg) x = -x; }
	    }
	  else
	    {
	      using P = decltype(T() + T());
	      x = rand_value<T>(g);
	      if (std::is_signed_v<T> && sizeof(T) >= sizeof(P) && op == '+') x = T(x / 64);
	      if (std::is_signed_v<T> && sizeof(T) >= sizeof(P) && op == '*') { x = g.coin() ? T(1) : T(-1); if (g.below(N) == 0 && i < 8) x = T(2 + g.below(4)); }
	      else if (op == '*') x = T(x | (g.below(4) ? 1 : 0));
	      if (neg && std::is_signed_v<T> && sizeof(T) >= sizeof(P) && x == L::min()) x = T(1);
	    }
	  p[i] = x;
	}
      // extreme values that are not selected must not matter
      if (masked && !alltrue)
	for (int i = 0; i < N; ++i)
	  if (!kk[i] && g.below(3) == 0)
	    {
	      if constexpr (is_fp<T>) p[i] = vh_fast ? (g.coin() ? L::max() : -L::max()) / 8 : g.below(3) == 0 ? L::quiet_NaN() : g.coin() ? L::infinity() : -L::infinity();
	      else p[i] = g.coin() ? L::max() : L::min();
	    }
      // reference
      bool first = true; none[q] = 1;
      T acc = id; long double facc = id, fabsacc = 0;
      for (int i = 0; i < N; ++i)
	{
	  if (!kk[i]) continue;
	  none[q] = 0;
	  T x = neg ? T(-p[i]) : p[i];
	  if constexpr (is_fp<T>)
	    {
	      if (op == '+') { facc += x; fabsacc += std::fabs((long double)x); }
	      else if (op == '*') { facc *= x; fabsacc = std::fabs(facc); }
	      else { if (first || (op == 'm' ? x < acc : acc < x)) acc = x; facc = acc; }
	    }
	  else
	    {
	      uint64_t u = uint64_t(acc), y = uint64_t(x);
	      switch (op)
		{
		case '+': acc = T(u + y); break; case '*': acc = T(u * y); break;
		case '&': acc = T(u & y); break; case '|': acc = T(u | y); break; case '^': acc = T(u ^ y); break;
		case 'm': if (first || x < acc) acc = x; break; case 'M': if (first || acc < x) acc = x; break;
		}
	    }
	  first = false;
	}
      ei[q] = acc; e[q] = facc;
      if constexpr (is_fp<T>) if (style == 3 && (op == '+' || op == '*')) tol[q] = fabsacc * L::epsilon() * N;
      nt += !none[q];
    }
  std::memset(res.p, 0x5a, nv * sizeof(T));
  const void* in[] = {a.p, k.p, idv.p}; void* out[] = {res.p};
  call(r, in, out, nv);
  for (int q = 0; q < nv; ++q)
    {
      bool ok;
      if constexpr (is_fp<T>)
	{
	  if (none[q] && (op == 'm' || op == 'M') && !extid)
	    ok = res[q] == id || res[q] == (op == 'm' ? L::max() : L::lowest()); // nothing selected
	  else if (tol[q] > 0) ok = std::fabs((long double)res[q] - e[q]) <= tol[q];
	  else ok = (long double)res[q] == e[q];
	}
      else ok = res[q] == ei[q];
      if (!ok)
	{
	  std::string s; for (int i = 0; i < N && i < 20; ++i) s += (k[size_t(q) * N + i] ? " " : " !") + str(a[size_t(q) * N + i]);
	  fail(key, "result %s, expected %s; elements (! = not selected):%s", str(res[q]).c_str(), is_fp<T> ? str((T)e[q]).c_str() : str(ei[q]).c_str(), s.c_str());
	}
    }
  count(nv, nt);
  if (g.below(60) == 0 && N > 2) sample("%s: %d elements -> %s (vector 1; mask has element 0 %d)", key, N, str(res[1]).c_str(), k[N]);
}
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{ with_arith(r.t, [&](auto t) { run<decltype(t)>(r, key); }); }
