// A02 oracle
#include "vh_oracle.h"
using namespace vh;
template <class T> struct Data
{
  std::vector<T> a, b, sa, sb; // plain pairs; value + valid shift count
  Data()
  {
    Rng g = rng_for("a02"); g.s += sizeof(T) * 77 + is_fp<T>;
    make_pairs(g, a, b, 6000);
    if constexpr (!is_fp<T>)
      {
	using P = decltype(T() + T());
	const int W = sizeof(P) * 8;
	std::vector<T> v;
	if (sizeof(T) == 1) for (int i = 0; i < 256; ++i) v.push_back(from_bits<T>(i)); else v = specials<T>();
	for (T x : v) for (int c = 0; c < W; ++c) { sa.push_back(x); sb.push_back(T(c)); }
	for (int i = 0; i < 20000; ++i) { sa.push_back(rand_value<T>(g)); sb.push_back(T(g.below(g.coin() ? std::min<int>(W, sizeof(T) * 8) : W))); }
	shuffle_pair(g, sa, sb);
      }
  }
  static Data& get() { static Data d; return d; }
};
template <class T> T shl(T a, int c) { using P = std::make_unsigned_t<decltype(T() + T())>; return T(P(a) << c); }
template <class T> T shr(T a, int c) { return T((a + T(0)) >> c); }
template <class T> void run(const Reg& r, const char* key)
{
  auto& D = Data<T>::get();
  const size_t N = r.n;
  const std::string op = r.op;
  const bool shift = op.find("sh") != std::string::npos, lit = op == "shlc" || op == "shrc";
  std::vector<T> a, b;
  if constexpr (is_fp<T>) { a = D.a; b = D.b; }
  else { a = shift ? D.sa : D.a; b = shift ? D.sb : D.b; }
  pad_to(a, N); pad_to(b, N);
  const size_t m = a.size();
  std::vector<T> e(m);
  long distinct = 0;
  const bool rs = op == "shls" || op == "shrs" || op == "cshls" || op == "cshrs";
  const bool ls = op[0] == 's' && op[1] != 'h';
  for (size_t i = 0; i < m; ++i)
    {
      const size_t i0 = i / N * N;
      const T x = ls ? a[i0] : a[i], y = rs ? b[i0] : b[i];
      if constexpr (is_fp<T>)
	{
	  uint_of_t<T> u, v;
	  std::memcpy(&u, &x, sizeof u); std::memcpy(&v, &y, sizeof v);
	  u = op == "fand" ? u & v : op == "for" ? u | v : u ^ v;
	  std::memcpy(&e[i], &u, sizeof u);
	}
      else
	{
	  const int c = lit ? r.p : int(y);
	  if (op.find("shl") != std::string::npos) e[i] = shl(x, c);
	  else if (op.find("shr") != std::string::npos) e[i] = shr(x, c);
	  else if (op.find("and") != std::string::npos) e[i] = T(x & y);
	  else if (op.find("xor") != std::string::npos) e[i] = T(x ^ y);
	  else if (op == "not") e[i] = T(~x);
	  else e[i] = T(x | y);
	}
      distinct += std::memcmp(&e[i], &a[i], sizeof(T)) != 0 && std::memcmp(&e[i], &b[i], sizeof(T)) != 0;
    }
  AVec<T> va(a), vb(b), vo(m);
  std::memset(vo.p, 0x5a, m * sizeof(T));
  const void* in[] = {va.p, vb.p};
  void* out[] = {vo.p};
  call(r, in, out, m / N);
  char k2[450];
  snprintf(k2, sizeof k2, lit ? "%s|%d" : "%s", key, r.p);
  for (size_t i = 0; i < m; ++i)
    if (std::memcmp(&vo[i], &e[i], vbytes<T>))
      fail(k2, "lane %zu of %zu: a=%s b=%s p=%d expected %s got %s", i % N, N, str(a[ls ? i / N * N : i]).c_str(),
	   str(b[rs ? i / N * N : i]).c_str(), r.p, str(e[i]).c_str(), str(vo[i]).c_str());
  count(m, distinct);
  if (r.n == 3 || r.n == 7) sample("%s p=%d lane 1: a=%s b=%s -> %s", key, r.p, str(a[1]).c_str(), str(b[1]).c_str(), str(vo[1]).c_str());
}
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{ with_arith(r.t, [&](auto t) { if constexpr (sizeof(t) <= 8) run<decltype(t)>(r, key); }); }
