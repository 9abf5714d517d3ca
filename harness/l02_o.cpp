#include "ls_o.h"
using namespace vh;
static Arena* A;
static long n_guard, n_fault;
template <class T, class U> void run(const Reg& r, const char* key)
{
  const std::string o = r.op;
  const bool store = o.find("st_") != std::string::npos;
  const int N = r.n, align = r.p;
  const size_t bytes = N * sizeof(U);
  Rng g = rng_for(key);
  alignas(256) T v[64], res[64 + 8];
  static unsigned char shadow[3 * 4096];
  const int calls = thorough ? 400 : 60;
  for (int c = 0; c < calls; ++c)
    {
      unsigned char* p;
      const int mode = c % 3;
      if (mode == 0) p = A->lo + 1024 + g.below(2048 / align) * align;
      else if (mode == 1) p = A->hi - (bytes + align - 1) / align * align;   // ends at the inaccessible page (if alignment permits)
      else p = A->lo;
      if (mode == 1 && g.below(3) == 0) p -= align;
      unsigned char* w0 = std::max(A->lo, p - 192); unsigned char* w1 = std::min(A->hi, p + bytes + 192);
      for (unsigned char* q = w0; q < w1; ++q) *q = (unsigned char)g.next();
      if (!store) for (int i = 0; i < N; ++i) { U x = conv_value<T, U>(g); std::memcpy(p + i * sizeof(U), &x, vbytes<U>); }
      for (int i = 0; i < N; ++i) v[i] = conv_value<U, T>(g);
      std::memcpy(shadow, w0, w1 - w0);
      void* pp = p;
      std::memset(res, 0x5a, sizeof res);
      const void* in[] = {v, nullptr, &pp}; void* out[] = {res};
      n_guard += mode != 0;
      if (int s = call_faulting(r, in, out, 1))
	{
	  ++n_fault;
	  fail((std::string("fault|") + key).c_str(), "signal %d at offset %ld of the %zu addressed bytes", s, long((unsigned char*)fault_addr - p), bytes);
	  continue;
	}
      for (int i = 0; i < N; ++i)
	{
	  if (store)
	    {
	      U u, w = static_cast<U>(v[i]); std::memcpy(&u, p + i * sizeof(U), sizeof u);
	      if (!same(u, w)) fail(key, "stored element %d of %d: expected %s got %s", i, N, str(w).c_str(), str(u).c_str());
	      std::memcpy(shadow + (p - w0) + i * sizeof(U), p + i * sizeof(U), sizeof u);
	    }
	  else
	    {
	      U u; std::memcpy(&u, p + i * sizeof(U), sizeof u);
	      if (!same(res[i], static_cast<T>(u))) fail(key, "loaded element %d of %d: memory %s, got %s", i, N, str(u).c_str(), str(res[i]).c_str());
	    }
	}
      // the result array of load kernels is written with exactly N elements as well
      const unsigned char* rb = reinterpret_cast<const unsigned char*>(res);
      for (size_t b = store ? 0 : N * sizeof(T); b < sizeof res; ++b)
	if (rb[b] != 0x5a) { fail(key, "byte %zu behind %d elements of the result array overwritten", b, N); break; }
      for (unsigned char* q = w0; q < w1; ++q)
	if (*q != shadow[q - w0])
	  { fail(key, "%s changed the byte at offset %ld; %zu bytes are addressed", store ? "store" : "load", long(q - p), bytes); break; }
      if (c == 1 && g.below(200) == 0) sample("%s: %zu bytes next to an inaccessible page, %ld surrounding bytes unchanged", key, bytes, long(w1 - w0) - long(bytes));
    }
  count(long(calls) * N, long(calls / 3) * 2 * N);
}
void vh_begin() { A = new Arena; install_fault_handler(); }
void vh_end() { printf("STAT calls_next_to_inaccessible_memory=%ld faults=%ld\n", n_guard, n_fault); }
void vh_run(const Reg& r, const char* key)
{
  if (r.u == BOOL) { run<bool, bool>(r, key); return; }
  with_arith(r.t, [&](auto t) { with_arith(r.u, [&](auto u) { run<decltype(t), decltype(u)>(r, key); }); });
}
