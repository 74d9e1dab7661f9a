/* Stamps: vocabulary of the evidence contracts. A stamp is well-formed iff nothing follows the first free slot. */
#ifndef VF_STAMP_H
#define VF_STAMP_H
#include "vf.h"
#include "Stamp.h"
static bool stamp_wf(const Stamp *s)
{
    bool ok = true;
    for(int i = 0; i + 1 < STAMP_SIZE; i++)
        ok = ok && (s->evidentialBase[i] != STAMP_FREE || s->evidentialBase[i + 1] == STAMP_FREE);
    return ok;
}
static bool stamp_same(const Stamp *a, const Stamp *b) /* slot by slot */
{
    bool ok = true;
    for(int i = 0; i < STAMP_SIZE; i++)
        ok = ok && a->evidentialBase[i] == b->evidentialBase[i];
    return ok;
}
static bool stamp_has(const Stamp *a, long id)
{
    bool r = false;
    for(int i = 0; i < STAMP_SIZE; i++)
        r = r || (a->evidentialBase[i] != STAMP_FREE && a->evidentialBase[i] == id);
    return r;
}
static bool stamp_overlap(const Stamp *a, const Stamp *b)
{
    bool r = false;
    for(int i = 0; i < STAMP_SIZE; i++)
        for(int j = 0; j < STAMP_SIZE; j++)
            r = r || (a->evidentialBase[i] != STAMP_FREE && a->evidentialBase[i] == b->evidentialBase[j]);
    return r;
}
static bool stamp_distinct(const Stamp *a)
{
    bool r = true;
    for(int i = 0; i < STAMP_SIZE; i++)
        for(int j = 0; j < i; j++)
            r = r && (a->evidentialBase[i] == STAMP_FREE || a->evidentialBase[i] != a->evidentialBase[j]);
    return r;
}
static bool stamp_subset(const Stamp *a, const Stamp *b)
{
    bool r = true;
    for(int i = 0; i < STAMP_SIZE; i++)
        r = r && (a->evidentialBase[i] == STAMP_FREE || stamp_has(b, a->evidentialBase[i]));
    return r;
}
/* exactly n elements (of a well-formed stamp), without counting */
#define LEN_IS(s, n) (((n) >= STAMP_SIZE || (s)->evidentialBase[(n) < STAMP_SIZE ? (n) : 0] == STAMP_FREE) && ((n) == 0 || (s)->evidentialBase[(n) > 0 ? (n) - 1 : 0] != STAMP_FREE))
#define LEN_GT(s, n) ((s)->evidentialBase[n] != STAMP_FREE)
/* r is the zip of a and b: a1 b1 a2 b2 .. , then the rest of the longer one, cut at STAMP_SIZE */
static bool stamp_zip(const Stamp *r, const Stamp *a, const Stamp *b)
{
    bool ok = true;
    for(int i = 0; i < STAMP_SIZE; i++)
    {
        if(2 * i < STAMP_SIZE) ok = ok && IMPLIES(LEN_GT(a, i) && (i == 0 || LEN_GT(b, i ? i - 1 : 0)), r->evidentialBase[2 * i] == a->evidentialBase[i]);
        if(2 * i + 1 < STAMP_SIZE) ok = ok && IMPLIES(LEN_GT(b, i) && LEN_GT(a, i), r->evidentialBase[2 * i + 1] == b->evidentialBase[i]);
        for(int l = 0; l < i && l + i < STAMP_SIZE; l++)
            ok = ok && IMPLIES(LEN_GT(a, i) && LEN_IS(b, l), r->evidentialBase[i + l] == a->evidentialBase[i]);
        for(int l = 0; l <= i && l + i < STAMP_SIZE; l++)
            ok = ok && IMPLIES(LEN_GT(b, i) && LEN_IS(a, l), r->evidentialBase[i + l] == b->evidentialBase[i]);
        for(int l = 0; l + i < STAMP_SIZE; l++)
            ok = ok && IMPLIES(LEN_IS(a, i) && LEN_IS(b, l), r->evidentialBase[i + l] == STAMP_FREE);
    }
    return ok;
}
#endif
