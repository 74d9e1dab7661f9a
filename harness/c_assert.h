/* An internal assertion of the program that fails would end the process: it is an obligation here. */
#ifndef VF_C_ASSERT_H
#define VF_C_ASSERT_H
#include "vf.h"
#include "Globals.h"
#ifndef NATIVE
void Globals_assert(bool b, char *message) { __CPROVER_assert(b, "no internal assertion of the program fails"); __CPROVER_assume(b); }
#endif
#endif
