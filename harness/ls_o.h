// Oracle side of loads and stores: arena with inaccessible pages on both
// sides, fault interception, conversion domain.
#ifndef LS_O_H
#define LS_O_H
#include "m_data.h"
#include <csetjmp>
#include <csignal>
#include <sys/mman.h>
namespace vh {
// is static_cast<To>(x) defined?
template <class To, class From> bool conv_ok(From x)
{
  if constexpr (is_fp<From> && !is_fp<To> && !std::is_same_v<To, bool>)
    {
      if (!(x == x) || x - x != From(0)) return false;
      long double t = std::trunc((long double)x);
      return t >= (long double)std::numeric_limits<To>::min() && t <= (long double)std::numeric_limits<To>::max();
    }
  else return true;
}
template <class To, class From> From conv_value_any(Rng& g)
{
  if constexpr (!is_fp<From> && is_fp<To> && sizeof(From) >= 4)
    if (g.below(3) == 0)
      { // ties and near-ties when rounded to 24 or 53 bits
	const int m = sizeof(From) == 8 && g.coin() ? 54 : 25;
	const int sh = int(g.below(std::max<int>(1, int(sizeof(From) * 8) - m)));
	uint64_t x = ((g.next() >> (64 - m)) | 1 | (uint64_t(1) << (m - 1))) << sh;
	switch (g.below(4)) { case 0: break; case 1: x += 1; break; case 2: x -= 1; break; default: if (sh) x += (g.coin() ? 1 : -1) * (uint64_t(1) << g.below(sh)); }
	if (g.below(3) == 0) x >>= 1;
	if (g.coin()) x = 0 - x;
	return From(x);
      }
  if constexpr (sizeof(From) == 8 && is_fp<From> && sizeof(To) == 4 && is_fp<To>)
    if (g.below(3) == 0)
      { // ties of the narrowing conversion, also in the subnormal range
	double x = double(((g.next() >> 39) | 1) + 0x2000000) + (g.coin() ? 0 : std::ldexp(g.coin() ? 1. : -1., -int(g.below(26))));
	return std::ldexp(g.coin() ? x : -x, int(g.below(250)) - 160);
      }
  for (int k = 0; k < 4; ++k) { From x = rand_value<From>(g); if (conv_ok<To>(x)) return x; }
  if constexpr (is_fp<From> && !is_fp<To>)
    for (int k = 0; k < 8; ++k)
      {
	// near the limits and spread over the whole range
	From x = From(from_bits<To>(g.next() >> g.below(sizeof(To) * 8))) + From(int(g.below(9)) - 4) / 4;
	if (g.below(4) == 0) x = std::nextafter(From(g.coin() ? std::numeric_limits<To>::max() : std::numeric_limits<To>::min()), From(0));
	if (conv_ok<To>(x)) return x;
      }
  return From(g.below(100));
}
template <class To, class From> From conv_value(Rng& g) { return fast_value(conv_value_any<To, From>(g)); }
struct Arena
{
  // [none][rw 2 pages][none]
  unsigned char *base, *lo, *hi;
  Arena()
  {
    base = (unsigned char*)mmap(nullptr, 4 * 4096, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (base == MAP_FAILED || mprotect(base + 4096, 2 * 4096, PROT_READ | PROT_WRITE)) __builtin_abort();
    lo = base + 4096; hi = base + 3 * 4096;
  }
};
inline sigjmp_buf fault_env;
inline volatile sig_atomic_t fault_armed;
inline void* volatile fault_addr;
inline void on_fault(int s, siginfo_t* si, void*)
{
  if (fault_armed) { fault_addr = si->si_addr; fault_armed = 0; siglongjmp(fault_env, s); }
  struct sigaction sa{}; sa.sa_handler = SIG_DFL; sigaction(s, &sa, 0); raise(s);
}
inline void install_fault_handler()
{
  struct sigaction sa{}; sa.sa_sigaction = on_fault; sa.sa_flags = SA_SIGINFO | SA_NODEFER | SA_ONSTACK;
  sigaction(SIGSEGV, &sa, 0); sigaction(SIGBUS, &sa, 0);
}
// returns 0 or the signal raised by the kernel
inline int call_faulting(const Reg& r, const void* const* in, void* const* out, long n)
{
  if (int s = sigsetjmp(fault_env, 0)) { __asm__ volatile("emms" ::: "memory"); return s; }
  fault_armed = 1;
  call(r, in, out, n);
  fault_armed = 0;
  return 0;
}
template <class T> std::string mask_str(const T* k, int n) { std::string s; for (int i = 0; i < n; ++i) s += k[i] ? '1' : '0'; return s; }
}
#endif
