#include "m_data.h"
using namespace vh;
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{
  const size_t N = r.n;
  const std::string op = r.op;
  auto& A = patterns(N, "m01");
  const size_t m = A.size(), nv = m / N;
  Rng g = rng_for("m01bc"); g.s += N;
  std::vector<unsigned char> b(m), c(m), e(m);
  for (size_t v = 0; v < nv; ++v)
    { // second and third operand: patterns from elsewhere in the list
      size_t x = g.below(nv), y = g.below(nv);
      if (g.below(10) == 0) x = v;
      for (size_t i = 0; i < N; ++i) { b[v * N + i] = A[x * N + i]; c[v * N + i] = A[y * N + i]; }
    }
  long nt = 0;
  for (size_t i = 0; i < m; ++i)
    {
      const bool a = A[i], B = b[i], C = c[i];
      const size_t i0 = i / N * N;
      bool x;
      if (op == "load" || op == "copyfrom" || op == "set" || op == "clear" || op == "gen" || op == "genuninit" || op == "genuninit_fixed") x = a;
      else if (op == "not") x = !a;
      else if (op == "and" || op == "land" || op == "cand") x = a && B;
      else if (op == "or" || op == "lor" || op == "cor") x = a || B;
      else if (op == "xor" || op == "cxor" || op == "ne") x = a != B;
      else if (op == "eq") x = a == B;
      else if (op == "where") x = a ? C : B;
      else if (op == "wheres") x = a ? bool(c[i0]) : B;
      else if (op == "bcast") x = A[i0];
      else if (op == "swap") x = b[i0 + N - 1 - (i - i0)];
      else if (op == "chain") { x = (a != !B) || (C && !(a || B)); x = x && (!(C == B) || a); x = !x; }
      else if (op == "allnot") { bool t = a != !(a != B); x = !t && !C; }
      else __builtin_abort();
      e[i] = x;
      nt += x != a;
    }
  AVec<unsigned char> va(A), vb(b), vc(c), o0(m), o1(m);
  std::memset(o0.p, 0x5a, m); std::memset(o1.p, 0x5a, m);
  const void* in[] = {va.p, vb.p, vc.p};
  void* out[] = {o0.p, o1.p};
  call(r, in, out, nv);
  for (size_t i = 0; i < m; ++i)
    if (o0[i] != e[i] || o1[i] != e[i])
      {
	std::string s;
	for (size_t j = i / N * N; j < i / N * N + N; ++j) { s += '0' + A[j]; }
	fail(key, "element %zu of %zu: a=%s b=%d c=%d expected %d, copy_to byte 0x%02x, operator[] byte 0x%02x", i % N, N, s.c_str(), b[i], c[i], e[i], o0[i], o1[i]);
      }
  count(2 * m, op == "load" || op == "set" ? m : 2 * nt);
  if (N == 3 || N == 7) sample("%s: a=%d%d%d b=%d%d%d -> %d%d%d", key, A[0], A[1], A[2], b[0], b[1], b[2], o0[0], o0[1], o0[2]);
}
