/* Contracts of the bounded double-ended priority queue. CAP = capacity of the queue under contract. */
#include "vf.h"
#include "PriorityQueue.h"
#ifndef CAP
#define CAP 40
#endif
typedef struct { double p[CAP]; } Prios;
INPUT(Prios, in_prios);
INPUT(int, in_n);
INPUT(double, in_p);
static Item items[CAP + 1];
static PriorityQueue q;
static Item old[CAP + 1];

static int level(int i) { int l = 0; for(int n = i + 1; n > 1; n >>= 1) l++; return l; }
/* min levels: not larger than any descendant; max levels: not smaller. By transitivity: children and grandchildren suffice. */
static bool heap(void)
{
    bool ok = true;
    for(int i = 0; i < CAP; i++)
    {
        bool max = level(i) & 1;
        for(int c = 2 * i + 1; c <= 2 * i + 2 && c < CAP; c++)
            ok = ok && IMPLIES(c < q.itemsAmount, max ? items[i].priority >= items[c].priority : items[i].priority <= items[c].priority);
        for(int c = 4 * i + 3; c <= 4 * i + 6 && c < CAP; c++)
            ok = ok && IMPLIES(c < q.itemsAmount, max ? items[i].priority >= items[c].priority : items[i].priority <= items[c].priority);
    }
    return ok;
}
static void setup(bool ordered)
{
    HAVOC(Prios, in_prios); HAVOC(int, in_n); HAVOC(double, in_p);
#ifdef FIXN
    REQUIRES(in_n == FIXN); in_n = FIXN;
#endif
    REQUIRES(in_n >= 0 && in_n <= CAP && in_p <= 2 * CAP);
    PriorityQueue_INIT(&q, items, CAP);
    for(int i = 0; i < CAP; i++)
    {
        REQUIRES(in_prios.p[i] <= 2 * CAP); /* only the order of the CAP+1 priorities matters, and between any two there is room for in_p */
        items[i].priority = in_prios.p[i];
        items[i].address = (void *) (long) (i + 1); /* ghost identity: the queue never looks at addresses */
        old[i] = items[i];
    }
    q.itemsAmount = in_n;
    if(ordered) REQUIRES(heap());
}
static bool has(long id, double prio)
{
    bool found = false;
    for(int i = 0; i < CAP; i++)
        found = found || (i < q.itemsAmount && items[i].address == (void *) id && items[i].priority == prio);
    return found;
}
/* storage addresses: a permutation, nothing is lost, nothing is handed out twice */
static bool slots(void)
{
    bool ok = true;
    for(int i = 0; i < CAP; i++)
    {
        bool found = false;
        for(int j = 0; j < CAP; j++) found = found || items[j].address == (void *) (long) (i + 1);
        ok = ok && found;
    }
    return ok;
}
static void pop(bool max)
{
    setup(true);
    void *a = 0; double p = 0;
    bool r = max ? PriorityQueue_PopMax(&q, &a, &p) : PriorityQueue_PopMin(&q, &a, &p);
    ENSURES(r == (in_n > 0), "popping fails exactly on the empty queue");
    ENSURES(q.itemsAmount == (in_n > 0 ? in_n - 1 : 0), "popping leaves one element less");
    ENSURES(heap(), "popping keeps the queue ordered");
    ENSURES(slots(), "popping loses no storage slot");
    if(r)
    {
        bool best = true, ident = false, rest = true;
        for(int i = 0; i < CAP; i++)
        {
            best = best && IMPLIES(i < in_n, max ? p >= old[i].priority : p <= old[i].priority);
            ident = ident || (i < in_n && a == old[i].address && p == old[i].priority);
            rest = rest && IMPLIES(i < in_n && a != old[i].address, has(i + 1, old[i].priority));
        }
        if(max) ENSURES(best, "pop-max returns an element of highest priority"); else ENSURES(best, "pop-min returns an element of lowest priority");
        ENSURES(ident, "popping returns an element that was in the queue, with its own priority");
        ENSURES(rest, "popping keeps all other elements with their priorities");
        REACHED("popped");
    }
}
void pq_popmax(void) { pop(true); }
void pq_popmin(void) { pop(false); }
void pq_push(void)
{
    setup(true);
    PriorityQueue_Push_Feedback f = PriorityQueue_Push(&q, in_p);
    bool full = in_n == CAP, lower = full, equal = false;
    for(int i = 0; i < CAP; i++) lower = lower && in_p < old[i].priority;
    ENSURES(f.added == !lower, "a new element is refused exactly if the queue is full of higher priorities");
    ENSURES(f.evicted == (full && !lower), "an element is evicted exactly if a new one takes its place in a full queue");
    ENSURES(q.itemsAmount == (full ? CAP : in_n + 1), "the queue grows up to its capacity");
    ENSURES(heap(), "adding keeps the queue ordered");
    ENSURES(slots(), "adding loses no storage slot");
    bool min = true, ident = false, rest = true;
    for(int i = 0; i < CAP; i++)
    {
        min = min && IMPLIES(f.evicted, f.evictedItem.priority <= old[i].priority);
        ident = ident || (f.evicted && f.evictedItem.address == old[i].address && f.evictedItem.priority == old[i].priority);
        rest = rest && IMPLIES(i < in_n && !(f.evicted && f.evictedItem.address == old[i].address), has(i + 1, old[i].priority));
    }
    ENSURES(min, "only an element of lowest priority is evicted");
    ENSURES(ident == f.evicted, "the evicted element was in the queue, with its priority");
    ENSURES(rest, "adding keeps all other elements with their priorities");
    if(f.added)
    {
        ENSURES(f.addedItem.priority == in_p && has((long) f.addedItem.address, in_p), "the new element is in the queue with its priority");
        ENSURES(full ? f.addedItem.address == f.evictedItem.address : f.addedItem.address == old[in_n < CAP ? in_n : 0].address, "the new element gets a free slot, or the one of the evicted element");
        REACHED("added");
    }
}
void pq_rebuild(void)
{
    setup(false);
    PriorityQueue_Rebuild(&q);
    bool rest = true;
    for(int i = 0; i < CAP; i++) rest = rest && IMPLIES(i < in_n, has(i + 1, old[i].priority));
    ENSURES(q.itemsAmount == in_n, "rebuilding keeps the number of elements");
    ENSURES(heap(), "rebuilding orders the queue whatever the priorities have become");
    ENSURES(rest, "rebuilding keeps all elements with their priorities");
    ENSURES(slots(), "rebuilding loses no storage slot");
    REACHED("rebuilt");
}
void pq_init(void)
{
    setup(false);
    PriorityQueue_INIT(&q, items, CAP);
    ENSURES(q.itemsAmount == 0 && q.maxElements == CAP && q.items == items, "a new queue is empty");
    REACHED("init");
}
