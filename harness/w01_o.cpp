#include "m_data.h"
using namespace vh;
// scalar operation; returns false if not defined for these operands
template <class T> bool apply(char op, T a, T b, T& r)
{
  using P = decltype(T() + T());
  switch (op)
    {
    case '=': r = b; return true;
    case 'n': if constexpr (!is_fp<T>) if (std::is_signed_v<T> && sizeof(T) >= 4 && a == std::numeric_limits<T>::min()) return false; r = T(-a); return true;
    case 'i': if constexpr (!is_fp<T>) if (std::is_signed_v<T> && sizeof(T) >= 4 && a == std::numeric_limits<T>::max()) return false; r = T(a + T(1)); return true;
    case 'd': if constexpr (!is_fp<T>) if (std::is_signed_v<T> && sizeof(T) >= 4 && a == std::numeric_limits<T>::min()) return false; r = T(a - T(1)); return true;
    }
  if constexpr (is_fp<T>)
    switch (op) { case '+': r = a + b; return true; case '-': r = a - b; return true; case '*': r = a * b; return true; case '/': r = a / b; return true; }
  else
    {
      P p = P();
      switch (op)
	{
	case '+': if (std::is_signed_v<P> && __builtin_add_overflow(P(a), P(b), &p)) return false; r = T(a + b); return true;
	case '-': if (std::is_signed_v<P> && __builtin_sub_overflow(P(a), P(b), &p)) return false; r = T(a - b); return true;
	case '*': if (std::is_signed_v<P> && __builtin_mul_overflow(P(a), P(b), &p)) return false; r = T(P(a) * P(b)); return true;
	case '/': case '%':
	  if (b == 0 || (std::is_signed_v<P> && P(a) == std::numeric_limits<P>::min() && P(b) == P(-1))) return false;
	  r = op == '/' ? T(a / b) : T(a % b); return true;
	case '&': r = T(a & b); return true;
	case '|': r = T(a | b); return true;
	case '^': r = T(a ^ b); return true;
	case '<': case '>':
	  {
	    using U = std::make_unsigned_t<P>;
	    if (!(std::is_signed_v<T> && b < T(0)) && U(b) < sizeof(P) * 8) { r = op == '<' ? T(U(P(a)) << int(b)) : T(P(a) >> int(b)); return true; }
	    return false;
	  }
	}
    }
  __builtin_abort();
}
static char op_of(const std::string& o)
{
  static const std::pair<const char*, char> t[] = {{"asg", '='}, {"add", '+'}, {"sub", '-'}, {"mul", '*'}, {"div", '/'}, {"mod", '%'}, {"and", '&'}, {"or", '|'}, {"xor", '^'},
    {"shl", '<'}, {"shr", '>'}, {"inc", 'i'}, {"dec", 'd'}, {"pinc", 'i'}, {"pdec", 'd'}, {"neg", 'n'}, {"cneg", 'n'}, {"cmp", '='}, {"chain", '='}, {"asgn", '='},
    {"bool", '='}, {"booladd", '+'}, {"boolinc", 'i'}, {"booldec", 'd'}, {"boolneg", 'n'}};
  if (o.compare(0, 4, "asgv") == 0) return '=';
  for (auto& p : t) if (o == p.first) return p.second;
  return op_of(o.substr(0, o.size() - 1));
}
template <class T> struct Data
{
  std::vector<T> a, b, sb;
  Data()
  {
    Rng g = rng_for("w01"); g.s += sizeof(T) * 77 + is_fp<T> + std::is_signed_v<T> * 3;
    make_pairs(g, a, b, 9000, false);
    while (a.size() < 12000) { a.push_back(rand_value<T>(g)); b.push_back(rand_value<T>(g)); }
    if constexpr (!is_fp<T>) for (size_t i = 0; i < a.size(); ++i) sb.push_back(T(g.below(g.coin() ? sizeof(T) * 8 : std::max<int>(32, sizeof(T) * 8))));
  }
  static Data& get() { static Data d; return d; }
};
template <class T> void run(const Reg& r, const char* key)
{
  auto& D = Data<T>::get();
  const size_t N = r.n;
  const std::string o = r.op;
  const char op = op_of(o);
  const bool scal = o.size() > 3 && o.back() == 's' && op != 'i', isbool = o.compare(0, 4, "bool") == 0;
  std::vector<T> a = D.a, b = D.b;
  if constexpr (!is_fp<T>) if (op == '<' || op == '>') b = D.sb;
  if (scal == false && o == "ors") {}
  const bool sc = scal || o == "ors";
  // literal operand
  const bool lit = o.size() > 2 && o != "dec" && o != "pdec" && o != "pinc" && o != "inc" && o.compare(0, 4, "bool") && (o.back() == 'z' || o.back() == 'm' || o.back() == 'c');
  if (lit) std::fill(b.begin(), b.end(), o.back() == 'z' ? T() : o.back() == 'm' ? T(-T()) : T(3));
  const auto& pat = patterns(N, "W01");
  if (a.size() < pat.size()) { size_t n0 = a.size(); for (size_t i = n0; i < pat.size(); ++i) { a.push_back(a[i % n0]); b.push_back(b[(i * 7) % n0]); } }
  pad_to(a, N); pad_to(b, N);
  const size_t m = a.size();
  Rng g = rng_for(key);
  std::vector<T> e(m);
  std::vector<unsigned char> k(m);
  long changed = 0;
  for (size_t i = 0; i < m; ++i)
    {
      const size_t i0 = i / N * N;
      k[i] = pat[i % pat.size()];
      bool sel = k[i];
      if (o == "asgT" || o == "addT" || o == "negT") sel = true;
      if (o == "asgF") sel = false;
      if (isbool) sel = sel && i == i0;
      T& y = sc ? b[i0] : b[i];
      e[i] = a[i];
      if (sel)
	{
	  if (lit) { T t; if (!apply(op, a[i], y, t)) a[i] = T(1); }
	  else if (sc && i > i0) { T t; for (T c : {T(0), T(1), T(-1)}) if (!apply(op, a[i], y, t)) a[i] = c; }
	  else if (sc)
	    { // the scalar serves the whole block; also if element 0 is not selected (below)
	      T t; if (!apply(op, a[i], y, t)) y = T(3); if (!apply(op, a[i], y, t)) a[i] = T(1);
	    }
	  else { T t; if (!apply(op, a[i], y, t)) y = T(3); if (!apply(op, a[i], y, t)) a[i] = T(1); }
	  if (!apply(op, a[i], y, e[i])) __builtin_abort();
	}
      else
	{
	  // nothing may happen here: signalling NaNs, zero divisors, out of range counts
	  if constexpr (is_fp<T> && sizeof(T) <= 8 && !vh_fast)
	    if (!isbool && !sc && g.below(6) == 0) { uint_of_t<T> u; T inf = std::numeric_limits<T>::infinity(); std::memcpy(&u, &inf, sizeof u); u |= 1 + g.below(1000); if (g.coin()) u |= uint_of_t<T>(1) << (sizeof(T) * 8 - 1); std::memcpy(&a[i], &u, sizeof u); }
	  if (lit) ;
	  else if (!sc) { if (!is_fp<T> && g.below(3) == 0) b[i] = T(0); if (!is_fp<T> && g.below(8) == 0) { b[i] = T(-1); a[i] = std::numeric_limits<T>::min(); } }
	  else if (i == i0 && !isbool) { T t; if (!apply(op, T(1), y, t)) y = T(3); if (op == '/' || op == '%') if (y == T(0)) y = T(3); }
	  e[i] = a[i];
	}
      if (std::memcmp(&e[i], &a[i], vbytes<T>)) ++changed;
    }
  AVec<T> va(a), vb(b), vo(m);
  AVec<unsigned char> vk(k);
  std::memset(vo.p, 0x5a, m * sizeof(T));
  const void* in[] = {va.p, vb.p, vk.p};
  void* out[] = {vo.p};
  call(r, in, out, m / N);
  for (size_t i = 0; i < m; ++i)
    {
      const bool sel = k[i] && o != "asgF" && !(isbool && i % N);
      if (o == "asgT" || o == "addT" || o == "negT" || sel ? !same(vo[i], e[i]) : std::memcmp(&vo[i], &e[i], vbytes<T>))
	fail(key, "lane %zu of %zu, mask element %d: v=%s x=%s expected %s got %s", i % N, N, k[i], str(a[i]).c_str(),
	     str(b[sc ? i / N * N : i]).c_str(), str(e[i]).c_str(), str(vo[i]).c_str());
    }
  count(m, changed);
  if (r.n == 3 || r.n == 7) sample("%s lane 1: mask element %d v=%s x=%s -> %s", key, k[1], str(a[1]).c_str(), str(b[1]).c_str(), str(vo[1]).c_str());
}
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{ with_arith(r.t, [&](auto t) { run<decltype(t)>(r, key); }); }
