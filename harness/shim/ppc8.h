#include "ppcvmx.h"
#define __VSX__ 1
#define __POWER8_VECTOR__ 1
