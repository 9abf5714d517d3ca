#include "m_data.h"
using namespace vh;
void vh_begin() {}
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{
  const auto& pat = patterns(r.n, "M03");
  long nv = pat.size() / r.n;
  AVec<unsigned char> a(pat.size()), o(nv * r.n2);
  std::copy(pat.begin(), pat.end(), a.p);
  std::memset(o.p, 0xee, nv * r.n2);
  const void* in[1] = {a.p}; void* out[1] = {o.p};
  call(r, in, out, nv);
  long tr = 0;
  for (long v = 0; v < nv; ++v)
    for (int j = 0; j < r.n2; ++j)
      {
	unsigned char want = j < r.n ? a[v * r.n + j] : 0;
	tr += want;
	if (o[v * r.n2 + j] != want)
	  {
	    std::string s; for (int e = 0; e < r.n; ++e) s += char('0' + a[v * r.n + e]);
	    std::string g; for (int e = 0; e < r.n2; ++e) { unsigned char c = o[v * r.n2 + e]; g += c < 2 ? char('0' + c) : '?'; }
	    fail(key, "mask %s (element 0 first) became %s, first wrong element %d", s.c_str(), g.c_str(), j);
	    return;
	  }
      }
  count(nv * r.n2, std::min(tr, nv * r.n2 - tr));
  if (nv * r.n2 > 40 && rng_for(key).below(400) == 0) sample("%s: %ld masks of %d -> %d elements, all as expected", key, nv, r.n, r.n2);
}
