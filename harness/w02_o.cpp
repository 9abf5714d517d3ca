#include "ls_o.h"
using namespace vh;
static Arena* A;
static long n_guard, n_fault;
// T: element type, U: memory type (bool/bool for masks)
template <class T, class U> void run(const Reg& r, const char* key)
{
  const std::string o = r.op;
  const bool scal = o[0] == 'b', store = o.find("st") != std::string::npos;
  const int N = scal ? 1 : r.n, align = r.p;
  Rng g = rng_for(key);
  const auto& pat = patterns(N, "W02");
  const int np = pat.size() / N;
  alignas(256) T v[64], res[64], exp_[64];
  alignas(256) unsigned char k[64];
  const size_t bytes = N * sizeof(U);
  int calls = thorough ? std::max(np, 1500) : std::min(std::max(np, 250), 700);
  static unsigned char shadow[2 * 4096];
  long trans = 0;
  for (int c = 0; c < calls; ++c)
    {
      for (int i = 0; i < N; ++i) { k[i] = pat[(c % np) * N + i]; v[i] = store ? conv_value<U, T>(g) : rand_value<T>(g); }
      if (o == "mldT" || o == "mstT") for (int i = 0; i < N; ++i) k[i] = 1;
      if (o == "mldF" || o == "mstF") for (int i = 0; i < N; ++i) k[i] = 0;
      // placement
      unsigned char* p;
      int lo_lane = 0, hi_lane = N; // accessible lanes
      int mode = g.below(3);
      bool none = true;
      for (int i = 0; i < N; ++i) none &= !k[i];
      if (none && g.coin()) { p = (g.coin() ? A->base : A->hi) + (g.below(4) ? 2048 : 0); hi_lane = 0; mode = 3; }
      else if (mode == 0)
	p = A->lo + 1024 + g.below(2048 / align) * align;
      else
	{
	  std::vector<int> js;
	  for (int j = 0; j <= N; ++j) if (j * sizeof(U) % align == 0) js.push_back(j);
	  if (js.empty()) js.push_back(0);
	  int j = js[g.below(js.size())];
	  if (o == "mldT" || o == "mstT") j = 0; // all accessible
	  if (mode == 1) { p = A->hi - j * sizeof(U); hi_lane = j; if (o == "mldT" || o == "mstT" || j == 0) { p = A->hi - (bytes + align - 1) / align * align; hi_lane = N; } }
	  else { p = A->lo - j * sizeof(U); lo_lane = j; if (j == N) { p = A->lo; lo_lane = 0; } }
	  for (int i = 0; i < N; ++i) if (i < lo_lane || i >= hi_lane) k[i] = 0;
	}
      if ((uintptr_t)p % align) __builtin_abort();
      // memory content
      unsigned char* w0 = std::max(A->lo, p - 160); unsigned char* w1 = std::min(A->hi, p + bytes + 160);
      if (mode == 3) { w0 = A->lo; w1 = A->lo + 64; if (p > A->lo) { w0 = A->hi - 64; w1 = A->hi; } }
      for (unsigned char* q = w0; q < w1; ++q) *q = (unsigned char)g.next();
      if (!store)
	for (int i = lo_lane; i < hi_lane; ++i) { U x = conv_value<T, U>(g); if (k[i] || sizeof(U) == 16 || std::is_same_v<U, bool>) std::memcpy(p + i * sizeof(U), &x, vbytes<U>); }
      std::memcpy(shadow, w0, w1 - w0);
      for (int i = 0; i < N; ++i)
	{
	  exp_[i] = v[i];
	  if (!k[i]) continue;
	  if (store) { U x = static_cast<U>(v[i]); std::memcpy(shadow + (p - w0) + i * sizeof(U), &x, sizeof(U)); if (sizeof(U) == 16) std::memset(shadow + (p - w0) + i * sizeof(U) + 10, 0, 6); }
	  else { U x; std::memcpy(&x, p + i * sizeof(U), sizeof x); exp_[i] = static_cast<T>(x); }
	}
      void* pp = p;
      const void* in[] = {v, k, &pp};
      void* out[] = {res};
      std::memset(res, 0x5a, sizeof(T) * N);
      n_guard += mode != 0;
      if (int s = call_faulting(r, in, out, 1))
	{
	  ++n_fault;
	  fail((std::string("fault|") + key).c_str(), "signal %d at offset %ld of %zu bytes, mask %s, accessible elements [%d,%d)", s, long((unsigned char*)fault_addr - p), bytes, mask_str(k, N).c_str(), lo_lane, hi_lane);
	  continue;
	}
      for (int i = 0; i < N; ++i) trans += k[i];
      if (!store)
	for (int i = 0; i < N; ++i)
	  if (k[i] ? !same(res[i], exp_[i]) : std::memcmp(&res[i], &v[i], vbytes<T>))
	    fail(key, "load, element %d of %d, mask %s: expected %s got %s", i, N, mask_str(k, N).c_str(), str(exp_[i]).c_str(), str(res[i]).c_str());
      for (unsigned char* q = w0; q < w1; ++q)
	{
	  long off = q - p; // padding bytes of stored long double are unspecified
	  if (store && sizeof(U) == 16 && off >= 0 && off < (long)bytes && off % 16 >= 10 && k[off / 16]) continue;
	  if (*q == shadow[q - w0]) continue;
	  int lane = off >= 0 && off < (long)bytes ? off / (int)sizeof(U) : -1;
	  if (store && lane >= 0 && k[lane] && is_fp<U>)
	    { U a, b; std::memcpy(&a, p + lane * sizeof(U), sizeof a); std::memcpy(&b, shadow + (p - w0) + lane * sizeof(U), sizeof b); if (same(a, b)) continue; }
	  fail(key, "%s, byte at offset %ld (element %d of %d) is %02x, expected %02x; mask %s", store ? "store" : "load changed memory", off, lane, N, *q, shadow[q - w0], mask_str(k, N).c_str());
	  break;
	}
      if (c == 7 && N > 2) sample("%s mask %s %s: %ld bytes before, %ld after the N elements checked", key, mask_str(k, N).c_str(), mode == 0 ? "interior" : mode == 1 ? "inaccessible page behind" : mode == 2 ? "inaccessible page in front" : "no memory at all", long(p - w0), long(w1 - p - (long)bytes));
    }
  count(long(calls) * N, trans);
}
void vh_begin() { A = new Arena; install_fault_handler(); }
void vh_end() { printf("STAT calls_next_to_inaccessible_memory=%ld faults=%ld\n", n_guard, n_fault); }
void vh_run(const Reg& r, const char* key)
{
  if (r.u == BOOL) { run<bool, bool>(r, key); return; }
  with_arith(r.t, [&](auto t) { with_arith(r.u, [&](auto u) { run<decltype(t), decltype(u)>(r, key); }); });
}
