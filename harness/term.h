/* Term model: the binary heap encoding, a term is a tree of atoms, node i has children 2i+1 and 2i+2. */
#ifndef VF_TERM_H
#define VF_TERM_H
#include "Term.h"
#define N COMPOUND_TERM_SIZE_MAX
/* levels of the 64 heap positions */
static const int D[] = {0, 1,1, 2,2,2,2, 3,3,3,3,3,3,3,3, 4,4,4,4,4,4,4,4,4,4,4,4,4,4,4,4, 5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5,5, 6};
/* node k of the subterm rooted at j, d levels below j */
static inline int spec_pos(int j, int k, int d) { return ((j + 1) << d) + (k + 1 - (1 << d)) - 1; }
static inline bool spec_wf(const Term *t)
{
    bool ok = true;
    for(int i = 0; 2 * i + 1 < N; i++)
        ok = ok && (t->atoms[i] != 0 || (t->atoms[2 * i + 1] == 0 && (2 * i + 2 >= N || t->atoms[2 * i + 2] == 0)));
    return ok;
}
/* the subtree of t at j, as a term. Nodes below an empty one do not exist. */
static inline void spec_extract(Term *ret, const Term *t, int j)
{
    for(int k = 0; k < N; k++)
    {
        int p = spec_pos(j, k, D[k]);
        bool parent = k == 0 || k == 1 || k == 2 || ret->atoms[k > 0 ? (k - 1) / 2 : 0] != 0;
        ret->atoms[k] = parent && p < N ? t->atoms[p < N ? p : 0] : 0;
    }
}
/* does node k of the term exist (its ancestors do) */
static inline bool spec_node(const Term *s, int k)
{
    bool e = true;
    for(int p = k; p > 0; p = (p - 1) / 2) e = e && s->atoms[p] != 0;
    return e;
}
static inline bool spec_fits(const Term *s, int i)
{
    bool fits = i < N;
    for(int k = 0; k < N; k++) fits = fits && !(spec_node(s, k) && spec_pos(i, k, D[k]) >= N);
    return fits;
}
static inline void spec_override(Term *t, const Term *old, const Term *s, int i)
{
    for(int k = 0; k < N; k++)
    {
        int p = spec_pos(i, k, D[k]);
        if(p < N && spec_node(s, k)) t->atoms[p] = s->atoms[k];
    }
}
#endif
