// mask patterns shared by the mask oracles
#ifndef M_DATA_H
#define M_DATA_H
#include "vh_oracle.h"
#include <map>
namespace vh {
// concatenation of N-element patterns
inline const std::vector<unsigned char>& patterns(int N, const char* who)
{
  static std::map<std::pair<int, std::string>, std::vector<unsigned char>> cache;
  auto& v = cache[{N, who}];
  if (!v.empty()) return v;
  Rng g = rng_for(who); g.s += N * 1315423911ull;
  auto push = [&](auto f) { for (int i = 0; i < N; ++i) v.push_back(f(i) ? 1 : 0); };
  if (N <= 10)
    {
      std::vector<int> order; for (int p = 0; p < (1 << N); ++p) order.push_back(p);
      for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[g.below(i)]);
      for (int p : order) push([&](int i) { return p >> i & 1; });
      while ((int)v.size() < 64 * N) { uint64_t r = g.next(); push([&](int i) { return r >> i & 1; }); }
    }
  else
    {
      push([](int) { return false; }); push([](int) { return true; });
      for (int b = 0; b < N; ++b)
	{ push([&](int i) { return i == b; }); push([&](int i) { return i != b; }); push([&](int i) { return i <= b; }); push([&](int i) { return i >= b; }); }
      for (int b = 0; b < N; ++b) { int c = g.below(N); push([&](int i) { return i == b || i == c; }); push([&](int i) { return i != b && i != c; }); }
      for (int r = 0; r < 300; ++r) { int d = 1 + g.below(9); push([&](int) { return int(g.below(10)) < d; }); }
      // patterns made of whole 4/8/16-element groups
      for (int w : {2, 4, 8, 16, 32}) for (int r = 0; r < 12; ++r) { uint64_t x = g.next(); push([&](int i) { return x >> (i / w) & 1; }); }
    }
  return v;
}
}
#endif
