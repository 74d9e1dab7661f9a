/* Contracts of the stamp functions (proved in stamp.c) in place of the callees. */
#ifndef VF_C_STAMP_H
#define VF_C_STAMP_H
#include "stamp.h"
#ifndef NATIVE
Stamp Stamp_make(Stamp *stamp1, Stamp *stamp2)
{
    __CPROVER_assert(stamp_wf(stamp1) && stamp_wf(stamp2), "stamps are well-formed where they are merged");
    Stamp r;
    __CPROVER_assume(stamp_zip(&r, stamp1, stamp2));
    return r;
}
bool Stamp_checkOverlap(Stamp *a, Stamp *b)
{
    __CPROVER_assert(stamp_wf(a) && stamp_wf(b), "stamps are well-formed where they are compared");
    return stamp_overlap(a, b);
}
#endif
#endif
