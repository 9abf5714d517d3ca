// A03 oracle: built-in comparisons
#include "vh_oracle.h"
using namespace vh;
template <class T> struct Data
{
  std::vector<T> a, b;
  Data()
  {
    Rng g = rng_for("a03"); g.s += sizeof(T) * 77 + is_fp<T>;
    make_pairs(g, a, b, 8000);
    if (sizeof(T) > 1)
      for (int i = 0; i < 8000; ++i)
	{ // close neighbours and values equal in one half only
	  T x = rand_value<T>(g), y = x;
	  if constexpr (is_fp<T>) y = fast_value(g.coin() ? std::nextafter(x, T(0)) : -x);
	  else { uint64_t m = g.below(3) ? 1ull << g.below(sizeof(T) * 8) : g.next() << (g.coin() ? 0 : sizeof(T) * 4); y = T(uint64_t(x) ^ m); }
	  a.push_back(x); b.push_back(y);
	}
    shuffle_pair(g, a, b);
  }
  static Data& get() { static Data d; return d; }
};
template <class T> bool apply(const std::string& op, T a, T b)
{
  const T z = T(0);
  if (op == "eq" || op == "eqs") return a == b;
  if (op == "ne" || op == "nes") return a != b;
  if (op == "lt" || op == "lts" || op == "ltidx" || op == "islt") return a < b;
  if (op == "le" || op == "isle") return a <= b;
  if (op == "gt" || op == "isgt") return a > b;
  if (op == "ge" || op == "ges" || op == "isge") return a >= b;
  if (op == "slt") return b < a;
  if (op == "sle") return b <= a;
  if (op == "sgt") return b > a;
  if (op == "islg") return a < b || a > b;
  if (op == "isun") return a != a || b != b;
  if (op == "lnot" || op == "eqz") return a == z;
  if (op == "nez") return a != z;
  if (op == "ltz") return a < z;
  if (op == "gez") return a >= z;
  __builtin_abort();
}
template <class T> void run(const Reg& r, const char* key)
{
  auto& D = Data<T>::get();
  const size_t N = r.n;
  const std::string op = r.op;
  std::vector<T> a = D.a, b = D.b;
  pad_to(a, N); pad_to(b, N);
  const size_t m = a.size();
  const bool rs = op == "lts" || op == "ges" || op == "eqs" || op == "nes" || op == "slt" || op == "sle" || op == "sgt";
  std::vector<unsigned char> e(m);
  long ntrue = 0;
  for (size_t i = 0; i < m; ++i) ntrue += e[i] = apply(op, a[i], b[rs ? i / N * N : i]);
  AVec<T> va(a), vb(b);
  AVec<unsigned char> vo(m);
  std::memset(vo.p, 0x5a, m);
  const void* in[] = {va.p, vb.p};
  void* out[] = {vo.p};
  call(r, in, out, m / N);
  for (size_t i = 0; i < m; ++i)
    if (vo[i] != e[i])
      fail(key, "lane %zu of %zu: a=%s b=%s expected %d got byte 0x%02x", i % N, N, str(a[i]).c_str(), str(b[rs ? i / N * N : i]).c_str(), e[i], vo[i]);
  // a comparison is a non-trivial observation when both outcomes occur
  count(m, 2 * std::min<long>(ntrue, m - ntrue));
  if (r.n == 3 || r.n == 7) sample("%s lane 1: a=%s b=%s -> %d", key, str(a[1]).c_str(), str(b[rs ? 0 : 1]).c_str(), vo[1]);
}
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key) { with_arith(r.t, [&](auto t) { run<decltype(t)>(r, key); }); }
