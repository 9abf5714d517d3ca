#include <ucontext.h>
#include "vh_oracle.h"
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <map>
#include <set>
#include <string>
#include <unistd.h>
#include <sys/resource.h>

namespace vh {
const char* config = "?";
bool thorough = false;
static std::vector<Reg>& regs() { static std::vector<Reg> r; return r; }
void add(const Reg& r) { regs().push_back(r); }
static const char* names[] = {"schar","uchar","short","ushort","int","uint","long","ulong","float","double","ldouble",
  "char","llong","ullong","wchar_t","char16_t","char32_t","bool"};
static int sizes[] = {1,1,2,2,4,4,8,8,4,8,16,1,8,8,4,2,4,1};
const char* ty_name(Ty t) { return names[t]; }
int ty_size(Ty t) { return sizes[t]; }
static char current[512] = "startup";
static long g_eval, g_distinct, g_fail;
static int g_samples;
static std::map<std::string, int> fails;
static uint64_t g_seed = 1;
uint64_t seed() { return g_seed; }
void set_current(const char* fmt, ...)
{ va_list ap; va_start(ap, fmt); vsnprintf(current, sizeof current, fmt, ap); va_end(ap); }
static void vfail(const char* key, const char* fmt, va_list ap)
{
  ++g_fail;
  if (fails[key]++ >= 3) return;
  char buf[1500]; vsnprintf(buf, sizeof buf, fmt, ap);
  for (char* c = buf; *c; ++c) if (*c == '\n') *c = ' ';
  printf("FAIL %s|%s ## %s\n", key, config, buf); fflush(stdout);
}
void fail(const char* key, const char* fmt, ...)
{ va_list ap; va_start(ap, fmt); vfail(key, fmt, ap); va_end(ap); }
void check(bool ok, const char* key, const char* fmt, ...)
{ if (ok) return; va_list ap; va_start(ap, fmt); vfail(key, fmt, ap); va_end(ap); }
void count(long e, long d) { g_eval += e; g_distinct += d; }
void sample(const char* fmt, ...)
{
  if (g_samples++ >= 6) return;
  char buf[700]; va_list ap; va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  printf("SAMPLE %s: %s\n", config, buf);
}
static void on_signal(int s)
{
  char buf[900];
  int n = snprintf(buf, sizeof buf, "FAIL %s|%s|%s ## signal %d (%s) while running %s\n",
    s == SIGXCPU ? "hang" : "crash", current, config, s, strsignal(s), current);
  fflush(stdout);
  if (write(1, buf, n) < 0) {}
  _exit(3);
}
#ifdef __x86_64__
// For stand-in feature sets of other architectures: their integer division instructions do not trap.  Emulates the
// result for the smallest number divided by -1 (quotient: the dividend, remainder: 0) and continues.
static void emulate_div(int s, siginfo_t*, void* ctx)
{
  auto* g = static_cast<ucontext_t*>(ctx)->uc_mcontext.gregs;
  const unsigned char* p = reinterpret_cast<const unsigned char*>(g[REG_RIP]);
  int w = 4;
  if (*p == 0x66) { w = 2; ++p; }
  if ((*p & 0xf0) == 0x40) { if (*p & 8) w = 8; ++p; }
  if (*p == 0xf6) w = 1; else if (*p != 0xf7) { on_signal(s); return; }
  ++p;
  const int mod = *p >> 6, reg = (*p >> 3) & 7, rm = *p & 7;
  if (reg != 6 && reg != 7) { on_signal(s); return; }
  ++p;
  if (mod != 3)
    {
      bool disp32 = mod == 2 || (mod == 0 && rm == 5);
      if (rm == 4) { if (mod == 0 && (*p & 7) == 5) disp32 = true; ++p; }
      p += disp32 ? 4 : mod == 1 ? 1 : 0;
    }
  g[REG_RIP] = reinterpret_cast<long>(p);
  if (w == 1) g[REG_RAX] &= ~0xff00ll;
  else if (w == 2) g[REG_RDX] &= ~0xffffll;
  else g[REG_RDX] = 0;
  if (w == 4) g[REG_RAX] &= 0xffffffffll;
}
#endif
static long n_keyed;
long registered() { return (long)regs().size(); }
} // namespace vh

using namespace vh;
int main(int argc, char** argv)
{
  if (argc > 1) config = argv[1];
  if (const char* s = getenv("VERIF_SEED")) g_seed = strtoull(s, 0, 10);
  if (const char* s = getenv("VERIF_TIER")) thorough = !strcmp(s, "thorough");
  setvbuf(stdout, 0, _IOFBF, 1 << 16);
  static char alt[1 << 16];
  stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, 0);
  struct sigaction sa{}; sa.sa_handler = on_signal; sa.sa_flags = SA_ONSTACK;
  for (int s : {SIGFPE, SIGILL, SIGTRAP, SIGABRT, SIGXCPU, SIGSEGV, SIGBUS}) sigaction(s, &sa, 0);
#ifdef __x86_64__
  if (!strncmp(config, "neon", 4) || !strncmp(config, "ppc", 3))
    { struct sigaction sd{}; sd.sa_sigaction = emulate_div; sd.sa_flags = SA_SIGINFO | SA_ONSTACK; sigaction(SIGFPE, &sd, 0); }
#endif
  rlimit rl{(rlim_t)(thorough ? 600 : 200), RLIM_INFINITY}; setrlimit(RLIMIT_CPU, &rl);
  const char* only = getenv("VH_ONLY"); // substring filter used by replay files
  long ran = 0;
  vh_begin();
  std::set<std::string> combos;
  for (const Reg& r : regs())
    {
      char key[400];
      if (r.abi2 || r.u != r.t)
	snprintf(key, sizeof key, "%s|%s|%s|%s|%s", r.op, ty_name(r.t), r.abi, ty_name(r.u), r.abi2 ? r.abi2 : "-");
      else
	snprintf(key, sizeof key, "%s|%s|%s", r.op, ty_name(r.t), r.abi);
      if (only && !strstr(key, only)) continue;
      set_current("%s", key);
      vh_run(r, key);
      combos.insert(key);
      ++ran;
    }
  vh_end();
  printf("STAT evaluations=%ld distinct=%ld combos=%ld kernels=%ld failures=%ld\n", g_eval, g_distinct,
	 (long)combos.size(), ran, g_fail);
  printf("DONE\n");
  return g_fail ? 1 : 0;
}
