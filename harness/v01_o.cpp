#include "ls_o.h"
using namespace vh;
// performs op on the plain array v; false if undefined for these operands
template <class T> bool ref(const std::string& o, T* v, const T* a, int N, T& x, int i, int j, T& r)
{
  using P = decltype(T() + T());
  auto put = [&](int e, P y) { v[e] = T(y); };
  auto arith = [&](char op, T& d, T y) {
    P p{};
    if constexpr (is_fp<T>) { switch (op) { case '+': d += y; return true; case '-': d -= y; return true; case '*': d *= y; return true; case '/': d /= y; return true; } return false; }
    else if constexpr (!std::is_same_v<T, bool>)
      {
	switch (op)
	  {
	  case '+': if (std::is_signed_v<P> && __builtin_add_overflow(P(d), P(y), &p)) return false; d = T(P(d) + P(y)); return true;
	  case '-': if (std::is_signed_v<P> && __builtin_sub_overflow(P(d), P(y), &p)) return false; d = T(P(d) - P(y)); return true;
	  case '*': if (std::is_signed_v<P> && __builtin_mul_overflow(P(d), P(y), &p)) return false; d = T(P(d) * P(y)); return true;
	  case '/': case '%': if (y == 0 || (std::is_signed_v<P> && P(d) == std::numeric_limits<P>::min() && P(y) == P(-1))) return false; d = op == '/' ? T(P(d) / P(y)) : T(P(d) % P(y)); return true;
	  case '&': d = T(d & y); return true;
	  case '|': d = T(d | y); return true;
	  case '^': d = T(d ^ y); return true;
	  case '<': case '>': if ((std::is_signed_v<T> && y < T(0)) || uint64_t(y) >= sizeof(P) * 8) return false;
	    d = op == '<' ? T(std::make_unsigned_t<P>(P(d)) << int(y)) : T(P(d) >> int(y)); return true;
	  }
	return false;
      }
    else return false;
  };
  if (o == "gen" || o == "copy" || o == "assign" || o == "readall" || o == "writeall" || o == "writeloop") return true;
  if (o == "genrev") { for (int e = 0; e < N; ++e) v[e] = a[N - 1 - e]; return true; }
  if (o == "genint") { for (int e = 0; e < N; ++e) put(e, P(e - 3)); return true; }
  if (o == "genidx") { for (int e = 0; e < N; ++e) put(e, P(e + 1)); return true; }
  if (o == "bc" || o == "bcimpl" || o == "bcarg") { for (int e = 0; e < N; ++e) v[e] = x; return true; }
  if (o == "bc7") { for (int e = 0; e < N; ++e) v[e] = T(7); return true; }
  if (o == "read" || o == "readc" || o == "read2") { r = v[i]; return true; }
  if (o == "write" || o == "asgret") { v[i] = x; return true; }
  if (o == "write0") { v[0] = x; return true; }
  if (o == "writeN") { v[N - 1] = x; return true; }
  if (o == "writeM") { v[N / 2] = x; return true; }
  if (o == "write2") { v[i] = x; v[j] = v[i]; return true; }
  if (o == "writeref") { v[i] = x; r = x; return true; }
  static const std::pair<const char*, char> t[] = {{"add", '+'}, {"sub", '-'}, {"mul", '*'}, {"div", '/'}, {"mod", '%'}, {"and", '&'}, {"or", '|'}, {"xor", '^'}, {"shl", '<'}, {"shr", '>'}};
  for (auto& p : t) if (o == p.first) return arith(p.second, v[i], x);
  if (o == "addint") { if constexpr (std::is_same_v<T, bool>) return false; else return arith('+', v[i], T(3)); }
  if (o == "addret") { if (!arith('+', v[i], x)) return false; r = v[i]; return true; }
  if (o == "inc") return arith('+', v[i], T(1));
  if (o == "dec") return arith('-', v[i], T(1));
  if (o == "incret") { if (!arith('+', v[i], T(1))) return false; r = v[i]; return true; }
  if (o == "pinc") { T y = v[i]; if (!arith('+', v[i], T(1))) return false; r = y; return true; }
  if (o == "pdec") { T y = v[i]; if (!arith('-', v[i], T(1))) return false; r = y; return true; }
  if (o == "swapij") { std::swap(v[i], v[j]); return true; }
  if (o == "swapjc") { std::swap(v[0], v[N - 1]); return true; }
  if (o == "swaprx" || o == "swapxr" || o == "swap2") { r = v[i]; v[i] = x; return true; }
  __builtin_abort();
}
template <class T, class U> void run_bcu(const Reg& r, const char* key)
{
  Rng g = rng_for(key);
  std::vector<U> u;
  for (U x : specials<U>()) u.push_back(x);
  for (int i = 0; i < 3000; ++i) u.push_back(rand_value<U>(g));
  if (sizeof(U) == 1) for (int i = 0; i < 256; ++i) u.push_back(from_bits<U>(i));
  std::vector<U> ok; for (U x : u) if (conv_ok<T>(x)) ok.push_back(x);
  AVec<U> a(ok); AVec<T> o(ok.size() * r.n);
  const void* in[] = {a.p}; void* out[] = {o.p};
  call(r, in, out, ok.size());
  for (size_t i = 0; i < ok.size(); ++i) for (int e = 0; e < r.n; ++e)
    if (!same(o[i * r.n + e], static_cast<T>(ok[i]))) fail(key, "broadcast of %s: element %d of %d is %s", str(ok[i]).c_str(), e, r.n, str(o[i * r.n + e]).c_str());
  count(ok.size() * r.n, ok.size() * r.n);
}
template <class T> void run(const Reg& r, const char* key, std::string o)
{
  const int N = r.n;
  Rng g = rng_for(key);
  const int nv = std::max(300, (thorough ? 4 : 1) * 8 * N);
  AVec<T> a(size_t(nv) * N), b(size_t(nv) * N), ov(size_t(nv) * N), os(nv);
  AVec<int> ij(2 * nv);
  AVec<T> ev(size_t(nv) * N), es(nv);
  long nt = 0;
  for (int q = 0; q < nv; ++q)
    {
      T* pa = a.p + size_t(q) * N; T* pb = b.p + size_t(q) * N;
      for (int e = 0; e < N; ++e) { pa[e] = rand_value<T>(g); pb[e] = rand_value<T>(g); }
      int i = q % N, j = q / N % N; // every pair of indices for small N
      if (g.below(4) == 0 || N > 16) j = g.below(N);
      ij[2 * q] = i; ij[2 * q + 1] = j;
      T* v = ev.p + size_t(q) * N;
      for (int tries = 0;; ++tries)
	{
	  std::copy(pa, pa + N, v);
	  T r0 = pb[0];
	  if (ref(o, v, pa, N, pb[0], i, j, r0)) { es[q] = r0; break; }
	  if (tries > 3) { pa[i] = T(1); pb[0] = T(1 + g.below(5)); } else { pa[i] = rand_value<T>(g); pb[0] = (o == "shl" || o == "shr") ? T(g.below(sizeof(T) * 8)) : rand_value<T>(g); }
	}
      for (int e = 0; e < N; ++e) nt += std::memcmp(&v[e], &pa[e], vbytes<T>) != 0;
    }
  std::memset(ov.p, 0x5a, ov.n * sizeof(T));
  const void* in[] = {a.p, b.p, ij.p}; void* out[] = {ov.p, os.p};
  call(r, in, out, nv);
  for (int q = 0; q < nv; ++q)
    {
      for (int e = 0; e < N; ++e)
	if (!same(ov[size_t(q) * N + e], ev[size_t(q) * N + e]))
	  fail(key, "i=%d j=%d x=%s: element %d of %d was %s, is %s, expected %s", ij[2 * q], ij[2 * q + 1], str(b[size_t(q) * N]).c_str(), e, N, str(a[size_t(q) * N + e]).c_str(),
	       str(ov[size_t(q) * N + e]).c_str(), str(ev[size_t(q) * N + e]).c_str());
      if (!same(os[q], es[q])) fail(key, "i=%d x=%s: scalar result %s, expected %s", ij[2 * q], str(b[size_t(q) * N]).c_str(), str(os[q]).c_str(), str(es[q]).c_str());
    }
  count(long(nv) * (N + 1), nt);
  if (g.below(150) == 0) sample("%s: i=%d j=%d x=%s: element i %s -> %s", key, ij[2], ij[3], str(b[N]).c_str(), str(a[N + ij[2]]).c_str(), str(ov[N + ij[2]]).c_str());
}
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{
  if (!std::strcmp(r.op, "bcu")) { with_arith(r.t, [&](auto t) { with_arith(r.u, [&](auto u) { run_bcu<decltype(t), decltype(u)>(r, key); }); }); return; }
  if (r.t == BOOL) { std::string o = r.op + 2; if (o == "gen") o = "writeloop"; run<bool>(r, key, o); return; }
  with_arith(r.t, [&](auto t) { run<decltype(t)>(r, key, r.op); });
}
