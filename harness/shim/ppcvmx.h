#include "undef_x86.h"
#define __ALTIVEC__ 1
#define __vector __attribute__((vector_size(16)))
