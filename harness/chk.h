// Self-checking kernels: facts with their expectation, reported per key.
#ifndef CHK_H
#define CHK_H
#include <string>
static std::string chk_key;
static long chk_n;
[[gnu::noinline, maybe_unused]] static void chk(bool ok, const char* what, const char* cond)
{ ++chk_n; if (!ok) vh::fail((std::string(what) + "|" + chk_key).c_str(), "%s", cond); }
#define C(what, ...) chk(bool(__VA_ARGS__), what, #__VA_ARGS__)
[[maybe_unused]] static void chk_done() { vh::count(chk_n, chk_n); chk_n = 0; }
#endif
