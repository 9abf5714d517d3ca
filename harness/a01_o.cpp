// A01 oracle: built-in scalar operators, one element at a time
#include "vh_oracle.h"
using namespace vh;

// does the scalar expression have defined behaviour?
template <class T> bool valid(char op, T a, T b)
{
  if constexpr (is_fp<T>) return true;
  else
    {
      using P = decltype(T() + T());
      P r;
      switch (op)
	{
	case '+': return !std::is_signed_v<P> || !__builtin_add_overflow(P(a), P(b), &r);
	case '-': return !std::is_signed_v<P> || !__builtin_sub_overflow(P(a), P(b), &r);
	case '*': return !std::is_signed_v<P> || !__builtin_mul_overflow(P(a), P(b), &r);
	default: if (b == 0) return false;
	  return !(std::is_signed_v<P> && P(a) == std::numeric_limits<P>::min() && P(b) == P(-1));
	}
    }
}
template <class T> [[gnu::noinline]] T apply(char op, T a, T b)
{
  switch (op)
    {
    case '+': return T(a + b);
    case '-': return T(a - b);
    case '*': return T(a * b);
    case '/': return T(a / b);
    default: if constexpr (!is_fp<T>) return T(a % b); else return a;
    }
}
struct OpDesc { const char* name; char op; char form; }; // form: v vector, s scalar right, l scalar left, u unary
static const OpDesc descs[] = {
  {"add", '+', 'v'}, {"sub", '-', 'v'}, {"mul", '*', 'v'}, {"div", '/', 'v'}, {"mod", '%', 'v'},
  {"cadd", '+', 'v'}, {"csub", '-', 'v'}, {"cmul", '*', 'v'}, {"cdiv", '/', 'v'}, {"cmod", '%', 'v'},
  {"adds", '+', 's'}, {"subs", '-', 's'}, {"muls", '*', 's'}, {"divs", '/', 's'}, {"mods", '%', 's'},
  {"sadd", '+', 'l'}, {"ssub", '-', 'l'}, {"smul", '*', 'l'}, {"sdiv", '/', 'l'}, {"smod", '%', 'l'},
  {"neg", 'n', 'u'}, {"pos", 'p', 'u'}, {"preinc", 'i', 'u'}, {"predec", 'd', 'u'}, {"postinc", 'I', 'u'}, {"postdec", 'D', 'u'}};

template <class T> struct Data
{
  std::vector<T> a, b, u;
  Data() { Rng g = rng_for("a01"); g.s += sizeof(T) * 77 + is_fp<T>; make_pairs(g, a, b); make_values(g, u); }
  static Data& get() { static Data d; return d; }
};

template <class T> void run(const Reg& r, const char* key, const OpDesc& d)
{
  auto& D = Data<T>::get();
  const size_t N = r.n;
  std::vector<T> a = D.a, b = D.b;
  if (d.form == 'u') a = b = D.u;
  pad_to(a, N); pad_to(b, N);
  const size_t m = a.size();
  std::vector<T> e(m), e2;
  long distinct = 0;
  if (d.form == 'u')
    {
      e2.resize(m);
      for (size_t i = 0; i < m; ++i)
	{
	  using P = decltype(T() + T());
	  constexpr bool wide = !is_fp<T> && std::is_signed_v<P> && sizeof(T) == sizeof(P);
	  if (wide && (d.op == 'n' || d.op == 'd' || d.op == 'D') && a[i] == std::numeric_limits<T>::min()) a[i] = T(1);
	  if (wide && (d.op == 'i' || d.op == 'I') && a[i] == std::numeric_limits<T>::max()) a[i] = T(1);
	  switch (d.op)
	    {
	    case 'n': e[i] = T(-a[i]); break;
	    case 'p': e[i] = a[i]; break;
	    case 'i': e[i] = T(a[i] + T(1)); break;
	    case 'd': e[i] = T(a[i] - T(1)); break;
	    case 'I': e[i] = a[i]; e2[i] = T(a[i] + T(1)); break;
	    case 'D': e[i] = a[i]; e2[i] = T(a[i] - T(1)); break;
	    }
	  distinct += d.op != 'p';
	}
    }
  else
    for (size_t i = 0; i < m; ++i)
      {
	const size_t i0 = i / N * N;
	if (d.form == 's')
	  { // choose a scalar valid for the first element, then fix the others
	    if (i == i0 && !valid(d.op, a[i], b[i])) b[i] = T(1);
	    if (!valid(d.op, a[i], b[i0])) a[i] = T(1);
	    if (!valid(d.op, a[i], b[i0])) a[i] = T(0);
	    e[i] = apply(d.op, a[i], b[i0]);
	  }
	else if (d.form == 'l')
	  {
	    if (i == i0 && !valid(d.op, a[i], b[i])) { b[i] = T(1); if (!valid(d.op, a[i], b[i])) a[i] = T(1); }
	    if (!valid(d.op, a[i0], b[i])) b[i] = T(1);
	    if (!valid(d.op, a[i0], b[i])) b[i] = T(d.op == '+' || d.op == '-' ? 0 : 1);
	    if (!valid(d.op, a[i0], b[i])) b[i] = T(0);
	    e[i] = apply(d.op, a[i0], b[i]);
	  }
	else
	  {
	    if (!valid(d.op, a[i], b[i])) { b[i] = T(d.op == '/' || d.op == '%' ? 3 : 1); if (!valid(d.op, a[i], b[i])) a[i] = T(1); }
	    e[i] = apply(d.op, a[i], b[i]);
	  }
	distinct += !same(e[i], a[i]) && !same(e[i], b[i]);
      }
  AVec<T> va(a), vb(b), vo(m), vo2(m);
  std::memset(vo.p, 0x5a, m * sizeof(T));
  const void* in[] = {va.p, vb.p};
  void* out[] = {vo.p, vo2.p};
  call(r, in, out, m / N);
  for (size_t i = 0; i < m; ++i)
    {
      if (!same(vo[i], e[i]))
	fail(key, "lane %zu of %zu: a=%s b=%s expected %s got %s", i % N, N, str(a[d.form == 'l' ? i / N * N : i]).c_str(),
	     str(b[d.form == 's' ? i / N * N : i]).c_str(), str(e[i]).c_str(), str(vo[i]).c_str());
      if ((d.op == 'I' || d.op == 'D') && !same(vo2[i], e2[i]))
	fail(key, "lane %zu of %zu: object after a=%s expected %s got %s", i % N, N, str(a[i]).c_str(), str(e2[i]).c_str(), str(vo2[i]).c_str());
    }
  count(m, distinct);
  if (r.n == 3 || r.n == 7) sample("%s lane 1: a=%s b=%s -> %s", key, str(a[1]).c_str(), str(b[1]).c_str(), str(vo[1]).c_str());
}
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{
  for (auto& d : descs)
    if (!strcmp(d.name, r.op))
      return with_arith(r.t, [&](auto t) { run<decltype(t)>(r, key, d); });
  __builtin_abort();
}
