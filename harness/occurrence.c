/* Contracts of the index of the latest events. */
#include "vf.h"
#include "c_assert.h"
#include "OccurrenceTimeIndex.h"
#define CAP OCCURRENCE_TIME_INDEX_SIZE
typedef struct { long id[CAP]; } Ids;
INPUT(Ids, in_ids);
INPUT(int, in_amount);
INPUT(int, in_cur);
INPUT(int, in_k);
INPUT(long, in_new);
static OccurrenceTimeIndex f;
static long at(int k) { int i = in_cur - 1 - k; return in_ids.id[i < 0 ? i + CAP : i]; }
static void setup(void)
{
    HAVOC(Ids, in_ids); HAVOC(int, in_amount); HAVOC(int, in_cur); HAVOC(int, in_k); HAVOC(long, in_new);
    /* invariant: the ring is filled from position 0 on, and is full once it has wrapped around */
    REQUIRES(in_amount >= 0 && in_amount <= CAP && in_cur >= 0 && in_cur < CAP && (in_amount == CAP || in_cur == in_amount));
    REQUIRES(in_k >= 0 && in_k < in_amount);
    for(int i = 0; i < CAP; i++) { f.array[i] = (Concept *) in_ids.id[i]; }
    f.itemsAmount = in_amount;
    f.currentIndex = in_cur;
}
void o_get(void)
{
    setup();
    ENSURES(OccurrenceTimeIndex_GetKthNewestElement(&f, in_k) == (Concept *) at(in_k), "the k-th newest event is found k places back");
    ENSURES(f.itemsAmount == in_amount && f.currentIndex == in_cur && f.array[in_k] == (Concept *) in_ids.id[in_k], "looking up changes nothing");
    REACHED("get");
}
void o_add(void)
{
    setup();
    OccurrenceTimeIndex_Add((Concept *) in_new, &f);
    ENSURES(f.itemsAmount == (in_amount < CAP ? in_amount + 1 : CAP), "the index grows up to its capacity");
    ENSURES(f.currentIndex >= 0 && f.currentIndex < CAP && (f.itemsAmount == CAP || f.currentIndex == f.itemsAmount), "adding keeps the ring in order");
    ENSURES(OccurrenceTimeIndex_GetKthNewestElement(&f, 0) == (Concept *) in_new, "the added event is the newest");
    if(in_k + 1 < CAP)
        ENSURES(OccurrenceTimeIndex_GetKthNewestElement(&f, in_k + 1) == (Concept *) at(in_k), "every other event is one place older, only the oldest of a full index is dropped");
    REACHED("add");
    if(in_amount == CAP) REACHED("full");
}
void o_first(void)
{
    HAVOC(long, in_new);
    f = (OccurrenceTimeIndex) {0};
    ENSURES(OccurrenceTimeIndex_GetKthNewestElement(&f, 0) == NULL, "an empty index has no newest event");
    OccurrenceTimeIndex_Add((Concept *) in_new, &f);
    ENSURES(f.itemsAmount == 1 && OccurrenceTimeIndex_GetKthNewestElement(&f, 0) == (Concept *) in_new, "the first event is the newest");
    REACHED("first");
}
