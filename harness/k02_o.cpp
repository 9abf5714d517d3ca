#include "vh_oracle.h"
#include <limits>
using namespace vh;
template <class T> void run(const Reg& r, const char* key)
{
  const int ni = r.n, no = r.n2;
  Rng g = rng_for(key);
  const long nv = thorough ? 2000 : 200;
  AVec<T> a(nv * ni), b(nv * no);
  for (long i = 0; i < nv * ni; ++i)
    {
      if constexpr (std::is_same_v<T, bool>) a[i] = g.coin();
      else if ((i / ni) % 2) { a[i] = rand_value<T>(g); if (is_fp<T>) while (!(a[i] == a[i])) a[i] = rand_value<T>(g); }
      else a[i] = T(i % 120 + 1); // all different: misplaced elements are recognizable
    }
  std::memset(b.p, 0x5a, nv * no * sizeof(T));
  const void* in[] = {a.p}; void* out[] = {b.p};
  call(r, in, out, nv);
  long nt = 0;
  const bool exact = !(is_fp<T> && (!std::strcmp(r.op, "splitop"))); // v + 0 turns -0 into 0
  for (long q = 0; q < nv; ++q)
    for (int i = 0; i < no; ++i)
      {
	T e = i < ni ? a[q * ni + i] : T();
	T x = b[q * no + i];
	if (!(exact ? same(x, e) : x == e))
	  fail(key, "vector %ld: element %d of %d is %s, expected %s (%d elements in)", q, i, no, str(x).c_str(), str(e).c_str(), ni);
	nt += i >= ni || !(e == T());
      }
  count(nv * no, nt);
  if (g.below(100) == 0 && ni > 2) sample("%s: %d elements in, %d out; element 2: %s -> %s", key, ni, no, str(a[2]).c_str(), no > 2 ? str(b[2]).c_str() : "(cut off)");
}
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{
  if (r.t == BOOL) run<bool>(r, key);
  else with_arith(r.t, [&](auto t) { run<decltype(t)>(r, key); });
}
