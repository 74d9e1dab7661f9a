/* force-included into the sources in mode=real/realint: pow and labs over the reals get their contracts from the harness */
#include <math.h>
#include <stdlib.h>
#ifndef NATIVE
__CPROVER_real vf_pow(__CPROVER_real base, __CPROVER_real exponent);
__CPROVER_real vf_labs(__CPROVER_real x);
#define pow vf_pow
#ifdef REALINT
#define labs vf_labs
#endif
#endif
