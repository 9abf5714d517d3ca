// a target without vector extensions
#include "undef_x86.h"
