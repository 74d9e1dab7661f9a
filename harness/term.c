/* Contracts of the term encoding. */
#include "vf.h"
#include "term.h"
INPUT(Term, in_t);
INPUT(Term, in_s);
#ifndef LO
#define LO 0
#define HI N
#endif
void term_extract(void)
{
    HAVOC(Term, in_t);
    Term before = in_t;
    for(int j = LO; j < HI; j++)
    {
        Term r = Term_ExtractSubterm(&in_t, j);
        Term spec = {0};
        spec_extract(&spec, &before, j);
        bool ok = true;
        for(int k = 0; k < N; k++) ok = ok && r.atoms[k] == spec.atoms[k];
        ENSURES(ok, "extracting a subterm yields exactly the subtree at that position");
        ENSURES(!r.hashed, "an extracted term carries no stale hash");
    }
    bool same = true;
    for(int k = 0; k < N; k++) same = same && in_t.atoms[k] == before.atoms[k];
    ENSURES(same, "extracting does not change the term");
    REACHED("term_extract");
}
void term_override(void)
{
    HAVOC(Term, in_t); HAVOC(Term, in_s);
    for(int i = LO; i < HI; i++)
    {
        Term t = in_t;
        bool r = Term_OverrideSubterm(&t, i, &in_s);
        ENSURES(r == spec_fits(&in_s, i), "overriding succeeds exactly when the subterm fits");
        Term spec = in_t;
        spec_override(&spec, &in_t, &in_s, i);
        bool ok = true, frame = true;
        for(int p = 0; p < N; p++)
        {
            int a = p; while(a > i) a = (a - 1) / 2;
            ok = ok && t.atoms[p] == spec.atoms[p];
            if(a != i) frame = frame && t.atoms[p] == in_t.atoms[p];
        }
        ENSURES(IMPLIES(r, ok), "overriding places the subterm at the position and changes nothing else");
        ENSURES(frame, "overriding leaves everything outside the position alone, even when the subterm does not fit");
        ENSURES(!t.hashed, "a changed term has no valid cached hash");
    }
    REACHED("term_override");
}
