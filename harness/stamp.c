/* Contracts of the evidential stamps. */
#include "stamp.h"
INPUT(Stamp, in_a);
INPUT(Stamp, in_b);
static Stamp a, b;
static void setup(void)
{
    HAVOC(Stamp, in_a); HAVOC(Stamp, in_b);
    REQUIRES(stamp_wf(&in_a) && stamp_wf(&in_b));
    a = in_a; b = in_b;
}
void s_overlap(void)
{
    setup();
    bool r = Stamp_checkOverlap(&a, &b);
    ENSURES(r == stamp_overlap(&in_a, &in_b), "overlap is reported exactly when the stamps share evidence");
    ENSURES(stamp_same(&a, &in_a) && stamp_same(&b, &in_b), "the overlap check changes nothing");
    if(r) REACHED("overlap");
    if(!r) REACHED("no overlap");
}
void s_make(void)
{
    setup();
    Stamp r = Stamp_make(&a, &b);
    ENSURES(stamp_zip(&r, &in_a, &in_b), "the merged stamp alternates the two evidential bases and then takes the rest of the longer one");
    ENSURES(stamp_same(&a, &in_a) && stamp_same(&b, &in_b), "merging leaves the parents' stamps alone");
    REACHED("merged");
}
/* consequences of the zip, for the callers */
void s_make_sets(void)
{
    setup();
    Stamp r = Stamp_make(&a, &b);
    ENSURES(stamp_wf(&r), "the merged stamp is well-formed");
    bool from = true;
    for(int i = 0; i < STAMP_SIZE; i++)
        from = from && (r.evidentialBase[i] == STAMP_FREE || stamp_has(&in_a, r.evidentialBase[i]) || stamp_has(&in_b, r.evidentialBase[i]));
    ENSURES(from, "merging invents no evidence");
    ENSURES(IMPLIES(LEN_GT(&in_a, 0), r.evidentialBase[0] == in_a.evidentialBase[0]), "the first parent's newest evidence is kept");
    ENSURES(IMPLIES(LEN_GT(&in_b, 0), stamp_has(&r, in_b.evidentialBase[0])), "the second parent's newest evidence is kept");
    bool fits = true;
    for(int i = 0; i <= STAMP_SIZE; i++) /* nothing is dropped while there is room */
        for(int j = 0; i + j <= STAMP_SIZE; j++)
            fits = fits && IMPLIES(LEN_IS(&in_a, i) && LEN_IS(&in_b, j), (i == 0 || stamp_has(&r, in_a.evidentialBase[i ? i - 1 : 0])) && (j == 0 || stamp_has(&r, in_b.evidentialBase[j ? j - 1 : 0])));
    ENSURES(fits, "no evidence is dropped as long as both evidential bases fit");
    REACHED("merged");
}
void s_make_distinct(void)
{
    setup();
    REQUIRES(stamp_distinct(&in_a) && stamp_distinct(&in_b) && !stamp_overlap(&in_a, &in_b));
    Stamp r = Stamp_make(&a, &b);
    ENSURES(stamp_distinct(&r), "merging disjoint evidence never lists the same evidence twice");
    REACHED("merged");
}
/* For stamps without duplicates, no more elements and inclusion is equality as sets (pigeonhole, not asked of the solver). */
void s_equal(void)
{
    setup();
    bool r = Stamp_Equal(&a, &b);
    bool nolonger = true;
    for(int i = 0; i < STAMP_SIZE; i++)
        nolonger = nolonger && (in_a.evidentialBase[i] != STAMP_FREE || in_b.evidentialBase[i] == STAMP_FREE);
    ENSURES(r == (nolonger && stamp_subset(&in_a, &in_b)), "stamps are equal exactly when they the second one is no longer and lists all evidence of the first");
    ENSURES(stamp_same(&a, &in_a) && stamp_same(&b, &in_b), "comparing stamps changes nothing");
    if(r) REACHED("equal");
    if(!r) REACHED("different");
}
