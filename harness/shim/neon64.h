// AArch64 with Advanced SIMD
#include "undef_x86.h"
#define __ARM_NEON 1
#define __aarch64__ 1
#define __ARM_ARCH 8
