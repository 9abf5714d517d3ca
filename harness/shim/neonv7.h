// ARMv7 with NEON
#include "undef_x86.h"
#define __ARM_NEON 1
#define __arm__ 1
#define __ARM_ARCH 7
