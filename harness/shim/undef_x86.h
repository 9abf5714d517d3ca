// Makes the x86 compiler look like one without any x86 vector extension, so that the code paths for other targets are
// compiled and executed here.  Everything from the standard library is included before.
#ifndef SHIM_UNDEF_H
#define SHIM_UNDEF_H
#include <algorithm>
#include <array>
#include <bitset>
#include <cfenv>
#include <cfloat>
#include <climits>
#include <cmath>
#include <complex>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <initializer_list>
#include <iosfwd>
#include <iterator>
#include <limits>
#include <map>
#include <memory>
#include <numeric>
#include <random>
#include <string>
#include <tuple>
#include <type_traits>
#include <utility>
#include <vector>
#include <sys/mman.h>
#include <unistd.h>
#include <signal.h>
#include <setjmp.h>
#undef __MMX__
#undef __MMX_WITH_SSE__
#undef __SSE__
#undef __SSE2__
#undef __SSE_MATH__
#undef __SSE2_MATH__
#undef __FXSR__
#undef __amd64
#undef __amd64__
#undef __x86_64
#undef __x86_64__
#undef __k8
#undef __k8__
#endif
