#include "ls_o.h"
using namespace vh;
template <class From, class To> struct Data
{
  std::vector<From> a; std::vector<To> e;
  Data()
  {
    Rng g = rng_for("l01"); g.s += ty_v<From> * 100 + ty_v<To>;
    if (sizeof(From) <= 2) { for (int i = 0; i < (sizeof(From) == 1 ? 256 : 65536); ++i) a.push_back(from_bits<From>(i)); }
    else
      {
	for (From x : specials<From>()) if (conv_ok<To>(x)) a.push_back(x);
	for (int i = 0; i < (thorough ? 40000 : 9000); ++i) a.push_back(conv_value<To, From>(g));
      }
    std::vector<From> none; shuffle_pair(g, a, none);
    size_t n = a.size();
    for (int i = 0; i < 200; ++i) a.push_back(a[i % n]);
    for (From x : a) e.push_back(static_cast<To>(x));
  }
  static const Data& get() { static Data d; return d; }
};
static unsigned char* mem; static const size_t MEM = 8 << 20;
template <class T, class U> void run(const Reg& r, const char* key)
{
  const bool store = !std::strncmp(r.op, "st", 2);
  const size_t N = r.n, bytes = N * sizeof(U), align = r.p;
  Rng g = rng_for(key);
  std::vector<T> vals; std::vector<U> mv; // vector elements, memory elements
  if (store) { auto& D = Data<T, U>::get(); vals = D.a; mv = D.e; } else { auto& D = Data<U, T>::get(); mv = D.a; vals = D.e; }
  // distance between vectors: as required by the flag, plus an odd gap
  const size_t unit = std::max(align, sizeof(U));
  size_t nv = mv.size() / N;
  const size_t gap = (1 + g.below(3)) * unit;
  const size_t stride = (bytes + unit - 1) / unit * unit + gap;
  nv = std::min(nv, (MEM - 4096) / stride);
  unsigned char* base = mem + 1024 + align; // aligned to align, but not to 2*align
  static std::vector<const void*> ptr; ptr.resize(nv);
  AVec<T> v(nv * N + 64);
  const size_t span = nv * stride + 128;
  unsigned char* lo = base - 64;
  static std::vector<unsigned char> shadow;
  for (size_t i = 0; i < span + 64; i += 8) { uint64_t x = g.next(); std::memcpy(lo + i, &x, 8); }
  for (size_t i = 0; i < nv; ++i)
    {
      ptr[i] = base + i * stride;
      for (size_t j = 0; j < N; ++j)
	if (store) v[i * N + j] = vals[i * N + j]; else std::memcpy(base + i * stride + j * sizeof(U), &mv[i * N + j], vbytes<U>);
    }
  shadow.assign(lo, lo + span + 64);
  if (!store) std::memset(v.p, 0x5a, nv * N * sizeof(T));
  const void* in[] = {v.p, nullptr, ptr.data()}; void* out[] = {v.p};
  call(r, in, out, nv);
  long nt = 0;
  for (size_t i = 0; i < nv; ++i)
    for (size_t j = 0; j < N; ++j)
      {
	const size_t x = i * N + j;
	if (store)
	  {
	    U u; std::memcpy(&u, base + i * stride + j * sizeof(U), sizeof u);
	    if (!same(u, mv[x])) fail(key, "stored element %zu of %zu: value %s, memory has %s, expected %s", j, N, str(vals[x]).c_str(), str(u).c_str(), str(mv[x]).c_str());
	    std::memcpy(shadow.data() + 64 + i * stride + j * sizeof(U), base + i * stride + j * sizeof(U), sizeof u);
	  }
	else if (!same(v[x], vals[x])) fail(key, "loaded element %zu of %zu: memory has %s, got %s, expected %s", j, N, str(mv[x]).c_str(), str(v[x]).c_str(), str(vals[x]).c_str());
	nt += (long double)vals[x] != (long double)mv[x] || sizeof(T) != sizeof(U);
      }
  if (std::memcmp(shadow.data(), lo, span + 64)) fail(key, "%s changed memory outside the addressed elements", store ? "store" : "load");
  count(nv * N, nt);
  if (g.below(300) == 0) sample("%s: %zu vectors %zu bytes apart, element 0: %s <-> %s in memory", key, nv, stride, str(vals[0]).c_str(), str(mv[0]).c_str());
}
void vh_begin() { mem = static_cast<unsigned char*>(::operator new(MEM + 8192, std::align_val_t(4096))); }
void vh_end() {}
void vh_run(const Reg& r, const char* key)
{ with_arith(r.t, [&](auto t) { with_arith(r.u, [&](auto u) { run<decltype(t), decltype(u)>(r, key); }); }); }
