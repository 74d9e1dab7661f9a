/* Contracts of the term functions (proved in term.c), as executable text that replaces the callees. */
#ifndef VF_C_TERM_H
#define VF_C_TERM_H
#include "vf.h"
#include "term.h"
static bool term_same(const Term *a, const Term *b)
{
    bool ok = true;
    for(int i = 0; i < N; i++) ok = ok && a->atoms[i] == b->atoms[i];
    return ok;
}
#ifndef NATIVE
Term Term_ExtractSubterm(Term *term, int j)
{
    __CPROVER_assert(j >= 0, "a subterm position is not negative");
    Term ret = {0};
    spec_extract(&ret, term, j);
    return ret;
}
bool Term_OverrideSubterm(Term *term, int i, Term *subterm)
{
    __CPROVER_assert(i >= 0, "a subterm position is not negative");
    Term old = *term;
    if(i >= N) return false;
    bool fits = spec_fits(subterm, i);
    spec_override(term, &old, subterm, i);
    term->hashed = false;
    return fits;
}
bool Term_Equal(Term *a, Term *b)
{
    Term x = *a, y = *b;
    return term_same(&x, &y);
}
#endif
#endif
