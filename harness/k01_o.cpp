#include "ls_o.h"
using namespace vh;
template <class T, class U> struct Data
{
  std::vector<T> a; std::vector<U> e;
  Data()
  {
    Rng g = rng_for("k01"); g.s += ty_v<T> * 100 + ty_v<U>;
    if (sizeof(T) <= 2) { for (int i = 0; i < (sizeof(T) == 1 ? 256 : 65536); ++i) a.push_back(from_bits<T>(i)); }
    else
      {
	for (T x : specials<T>()) if (conv_ok<U>(x)) a.push_back(x);
	if constexpr (is_fp<T> && !is_fp<U>) for (U u : specials<U>()) for (T d : {T(0), T(0.5), T(-0.5), T(0.25)}) { T x = T(u) + d; if (conv_ok<U>(x)) a.push_back(x); x = std::nextafter(x, T(0)); if (conv_ok<U>(x)) a.push_back(x); }
	for (int i = 0; i < (thorough ? 40000 : 9000); ++i) a.push_back(conv_value<U, T>(g));
      }
    std::vector<T> none; shuffle_pair(g, a, none);
    size_t n = a.size();
    for (int i = 0; i < 200; ++i) a.push_back(a[i % n]); // room for padding up to a multiple of N
    for (T x : a) e.push_back(static_cast<U>(x));
  }
  static const Data& get() { static Data d; return d; }
};
template <class T, class U> void run(const Reg& r, const char* key)
{
  auto& D = Data<T, U>::get();
  const size_t N = r.n;
  if (r.n != r.n2) { fail(key, "source has %d elements, result %d", r.n, r.n2); return; }
  const size_t nv = D.a.size() / N, m = nv * N;
  AVec<T> a(D.a); AVec<U> o(m + 64);
  std::memset(o.p, 0xee, m * sizeof(U));
  const void* in[1] = {a.p}; void* out[1] = {o.p};
  call(r, in, out, nv);
  long diff = 0;
  for (size_t i = 0; i < m; ++i)
    {
      if (!same(o[i], D.e[i])) { fail(key, "element %zu of %zu: %s converted to %s, expected %s", i % N, N, str(a[i]).c_str(), str(o[i]).c_str(), str(D.e[i]).c_str()); }
      diff += (long double)o[i] != (long double)a[i] || sizeof(T) != sizeof(U);
    }
  count(m, diff);
  if (rng_for(key).below(300) == 0) sample("%s: element 1: %s -> %s", key, str(a[1]).c_str(), str(o[1]).c_str());
}
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{ with_arith(r.t, [&](auto t) { with_arith(r.u, [&](auto u) { run<decltype(t), decltype(u)>(r, key); }); }); }
