#include "m_data.h"
using namespace vh;
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{
  const size_t N = r.n;
  auto& E = patterns(N, "m02");
  const size_t m = E.size(), nv = m / N;
  Rng g = rng_for("m02ab"); g.s += N;
  AVec<unsigned char> e(E), a(m), b(m), any(nv);
  for (size_t i = 0; i < m; ++i) { b[i] = g.coin(); a[i] = E[i] ^ b[i]; if (E[i]) any[i / N] = 1; }
  AVec<int> o(nv * 8);
  std::memset(o.p, 0x5a, nv * 32);
  const void* in[] = {e.p, a.p, b.p, any.p};
  void* out[] = {o.p};
  call(r, in, out, nv);
  static const char* names[] = {"all_of", "any_of", "none_of", "some_of", "popcount", "find_first_set", "find_last_set"};
  for (size_t v = 0; v < nv; ++v)
    {
      int pc = 0, ff = -1, fl = -1;
      std::string s;
      for (size_t i = 0; i < N; ++i) { if (E[v * N + i]) { ++pc; if (ff < 0) ff = i; fl = i; } s += '0' + E[v * N + i]; }
      const int x[] = {pc == (int)N, pc > 0, pc == 0, pc > 0 && pc < (int)N, pc, ff, fl};
      for (int k = 0; k < 7; ++k)
	if (o[v * 8 + k] != x[k])
	  fail((std::string(names[k]) + "|" + key).c_str(), "%s(mask %s) expected %d got %d", names[k], s.c_str(), x[k], o[v * 8 + k]);
      if (v == 3 && (N == 3 || N == 7)) sample("%s: mask %s popcount=%d first=%d last=%d", key, s.c_str(), o[v * 8 + 4], o[v * 8 + 5], o[v * 8 + 6]);
    }
  count(7 * nv, 7 * nv);
}
