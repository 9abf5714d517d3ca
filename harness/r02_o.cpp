#include "vh_oracle.h"
#include <algorithm>
#include <limits>
using namespace vh;
template <class T> void run(const Reg& r, const char* key)
{
  const std::string o = r.op;
  const int N = r.n;
  Rng g = rng_for(key);
  const long pairs = sizeof(T) == 1 ? 65536 : thorough ? 200000 : 40000;
  const long nv = (pairs + N - 1) / N;
  AVec<T> a(nv * N), b(nv * N), c(nv * N), r0(nv * N), r1(nv * N);
  for (long i = 0; i < nv * N; ++i)
    {
      auto val = [&] { T x; do x = rand_value<T>(g); while (!(x == x)); return x; };
      if (sizeof(T) == 1) { long k = (i * 40503u) & 0xffff; a[i] = T(k & 0xff); b[i] = T(k >> 8); c[i] = val(); }
      else
	{
	  a[i] = val(); b[i] = g.below(6) == 0 ? a[i] : val();
	  if (g.below(8) == 0) b[i] = T(-a[i]);
	  if (g.below(5) == 0 && std::is_integral_v<T>) b[i] = T((unsigned long long)a[i] ^ (1ull << g.below(sizeof(T) * 8)));
	  if (g.below(8) == 0 && !is_fp<T>) b[i] = T((unsigned long long)a[i] + (g.coin() ? 1 : -1ull));
	  c[i] = val();
	  if (g.below(10) == 0) a[i] = T(int(g.below(120)) - 30);
	}
      if (g.below(7) == 0) c[i] = b[i];
      if (o == "clamp" || o == "clampq") if (c[i] < b[i]) std::swap(b[i], c[i]);
    }
  std::memset(r0.p, 0x5a, nv * N * sizeof(T)); std::memset(r1.p, 0x5a, nv * N * sizeof(T));
  const void* in[] = {a.p, b.p, c.p}; void* out[] = {r0.p, r1.p};
  call(r, in, out, nv);
  long nt = 0;
  for (long i = 0; i < nv * N; ++i)
    {
      T x = a[i], y = b[i], z = c[i], s = b[i / N * N], e, e1 = x;
      if (o == "min" || o == "minself" || o == "minmax" || o == "negmin") { e = std::min(x, y); e1 = std::max(x, y); }
      else if (o == "max" || o == "maxswap") e = std::max(x, y);
      else if (o == "clamp" || o == "clampq") e = std::clamp(x, y, z);
      else if (o == "mins") e = std::min(x, s);
      else if (o == "maxs") e = std::max(x, s);
      else if (o == "minc") e = std::min(x, T(5));
      else if (o == "maxc") e = std::max(x, T(5));
      else if (o == "clampc") e = std::clamp(x, T(5), T(60));
      else if (o == "nested") e = std::max(std::min(x, y), z);
      else __builtin_abort();
      if (!(r0[i] == e)) fail(key, "element %ld of %d: (%s, %s, %s) -> %s, expected %s", i % N, N, str(x).c_str(), str(y).c_str(), str(z).c_str(), str(r0[i]).c_str(), str(e).c_str());
      if (o == "minmax" && !(r1[i] == e1)) fail(key, "element %ld of %d: (%s, %s) -> second %s, expected %s", i % N, N, str(x).c_str(), str(y).c_str(), str(r1[i]).c_str(), str(e1).c_str());
      nt += !(e == x);
    }
  count(nv * N, nt);
  if (g.below(60) == 0) sample("%s: (%s, %s, %s) -> %s", key, str(a[7]).c_str(), str(b[7]).c_str(), str(c[7]).c_str(), str(r0[7]).c_str());
}
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{ with_arith(r.t, [&](auto t) { run<decltype(t)>(r, key); }); }
