// Oracle side of checks whose kernels carry their expectations themselves
// (facts about types, structural relations): runs each of them once.
#include "vh_oracle.h"
void vh_begin() {}
void vh_end() {}
void vh_run(const vh::Reg& r, const char* key)
{
  void* out[1] = {const_cast<char*>(key)};
  vh::call(r, nullptr, out, r.p);
}
