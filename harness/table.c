/* Contracts of the implication tables. The table knows terms through Term_Equal only, so equality of terms is any
 * equivalence: here "same first atom", all other content of the entries stays arbitrary. */
#include "c_assert.h"
#include "Truth.h"
/* The table looks at truth values through Truth_Expectation and the confidence only, and any function may stand for the
 * expectation: with the value itself stored as the frequency, every ranking and every revision result is covered. */
#ifndef NATIVE
double Truth_Expectation(Truth v) { return v.frequency; }
double __CPROVER_uninterpreted_rev_f(double, double, double, double);
double __CPROVER_uninterpreted_rev_c(double, double, double, double);
Truth Truth_Revision(Truth v1, Truth v2)
{
    Truth r = { .frequency = __CPROVER_uninterpreted_rev_f(v1.frequency, v1.confidence, v2.frequency, v2.confidence), .confidence = __CPROVER_uninterpreted_rev_c(v1.frequency, v1.confidence, v2.frequency, v2.confidence) };
    __CPROVER_assume(r.frequency >= 0.0 && r.frequency <= 1.0 && r.confidence >= v1.confidence && r.confidence >= v2.confidence && r.confidence <= MAX_CONFIDENCE); /* t_revision_between, t_revision_laws */
    return r;
}
#endif
static bool truth_same(Truth a, Truth b) { return EQ(a.frequency, b.frequency) && EQ(a.confidence, b.confidence); }
static bool truth_ok(Truth a) { return a.frequency >= 0.0 && a.frequency <= 1.0 && a.confidence >= 0.0 && a.confidence <= MAX_CONFIDENCE; }
#include "c_stamp.h"
#include "Table.h"
#define CAP TABLE_SIZE
typedef struct { Implication x[CAP + 1]; } Imps;
INPUT(Imps, in_t);
INPUT(Implication, in_imp);
INPUT(Implication, in_rev);
static Table t;
static Implication imp;
static int revisions;
static Implication revised_from, revised_with;
#ifndef NN
# define NN 1
#endif
#ifndef PP
# define PP 0
#endif
#ifndef NATIVE
bool Term_Equal(Term *a, Term *b) { return a->atoms[0] == b->atoms[0]; }
Implication Inference_ImplicationRevision(Implication *a, Implication *b)
{
    revisions++;
    revised_from = *a; revised_with = *b;
#ifdef OVERLAP
    __CPROVER_assert(!stamp_overlap(&a->stamp, &b->stamp), "implications resting on the same evidence are not pooled");
#endif
    Implication r = in_rev;      /* i_imprevision */
    r.term = a->term;
    r.truth = Truth_Revision(a->truth, b->truth);
    r.sourceConcept = a->sourceConcept;
    r.sourceConceptId = a->sourceConceptId;
    return r;
}
#endif
static bool imp_ok(const Implication *x) { return truth_ok(x->truth) && x->occurrenceTimeOffset == x->occurrenceTimeOffset; }
/* equality of two entries */
static bool same(const Implication *x, const Implication *y)
{
    bool ok = x->truth.frequency == y->truth.frequency && x->truth.confidence == y->truth.confidence && x->occurrenceTimeOffset == y->occurrenceTimeOffset &&
              (long) x->sourceConcept == (long) y->sourceConcept && x->sourceConceptId == y->sourceConceptId && x->creationTime == y->creationTime;
    for(int i = 0; i < COMPOUND_TERM_SIZE_MAX; i++) ok = ok && x->term.atoms[i] == y->term.atoms[i];
    for(int i = 0; i < STAMP_SIZE; i++) ok = ok && x->stamp.evidentialBase[i] == y->stamp.evidentialBase[i];
    return ok;
}
static bool ranked(void)
{
    bool ok = t.itemsAmount >= 0 && t.itemsAmount <= CAP;
    for(int i = 0; i + 1 < CAP; i++) ok = ok && IMPLIES(i + 1 < t.itemsAmount, Truth_Expectation(t.array[i].truth) >= Truth_Expectation(t.array[i + 1].truth));
    return ok;
}
/* n entries; as terms are only compared for equality the n different ones may be numbered */
static void setup(int n, int key)
{
    HAVOC(Imps, in_t); HAVOC(Implication, in_imp); HAVOC(Implication, in_rev);
    revisions = 0;
    for(int i = 0; i < CAP; i++)
    {
        in_t.x[i].term.atoms[0] = i < n ? i + 1 : 0;
        in_t.x[i].sourceConcept = (void *) (long) (100 + i);
        t.array[i] = in_t.x[i];
        REQUIRES(imp_ok(&t.array[i]));
    }
    t.itemsAmount = n;
    in_imp.sourceConcept = (void *) 99L;
    in_imp.term.atoms[0] = key;
    REQUIRES(imp_ok(&in_imp) && imp_ok(&in_rev));
    REQUIRES(ranked());
    /* follows by transitivity; helps the solvers */
    for(int i = 0; i < n; i++) for(int j = 0; j < i; j++) REQUIRES(Truth_Expectation(in_t.x[j].truth) >= Truth_Expectation(in_t.x[i].truth));
    imp = in_imp;
}
/* what was stored at ret came in, all other entries are the old ones in their order; gone: place emptied by a removal, or CAP */
static void inserted(Implication *ret, Implication *what, int n, int gone)
{
    bool inside = false, count = t.itemsAmount == (n - (gone < CAP) < CAP ? n - (gone < CAP) + 1 : CAP);
    for(int p = 0; p < CAP; p++) if(ret == &t.array[p])
    {
        inside = p < t.itemsAmount;
        ENSURES(same(&t.array[p], what), "the entry is stored as it is");
        for(int i = 0; i < CAP; i++) if(i < t.itemsAmount && i != p)
        {
            int from = i > p ? i - 1 : i;
            if(from >= gone) from++;
            ENSURES(same(&t.array[i], &in_t.x[from]), "all other entries stay as they are, in their order");
        }
    }
    ENSURES(inside, "the returned entry is an entry of the table");
    ENSURES(count, "the table grows up to its capacity");
}
static void add(int n)
{
    setup(n, 1000);
    Implication *ret = Table_AddAndRevise(&t, &imp);
    ENSURES(ranked(), "the table stays ranked by expectation");
    if(ret != NULL)
    {
        inserted(ret, &in_imp, n, CAP);
        ENSURES(IMPLIES(n == CAP, Truth_Expectation(in_imp.truth) > Truth_Expectation(in_t.x[CAP - 1].truth)), "a full table loses its worst entry, to a better one only");
        REACHED("added");
    }
    else
    {
        ENSURES(n == CAP && Truth_Expectation(in_imp.truth) <= Truth_Expectation(in_t.x[CAP - 1].truth), "an implication is refused only by a table full of better ones");
        bool ok = t.itemsAmount == n;
        for(int i = 0; i < CAP; i++) ok = ok && same(&t.array[i], &in_t.x[i]);
        ENSURES(ok, "refusing changes nothing");
    }
#ifndef NATIVE
    ENSURES(revisions == 0, "a new implication is revised with nothing");
#endif
}
static void revise(int n, int p)
{
    setup(n, p + 1);
    REQUIRES(stamp_wf(&in_imp.stamp) && stamp_wf(&in_t.x[p].stamp));
    bool overlap = stamp_overlap(&in_imp.stamp, &in_t.x[p].stamp);
    Implication *ret = Table_AddAndRevise(&t, &imp);
    ENSURES(ret != NULL, "a known implication is never lost");
    ENSURES(ranked(), "the table stays ranked by expectation");
    ENSURES(t.itemsAmount == n, "revision does not change the number of implications");
#ifndef NATIVE
    if(revisions)
    {
        ENSURES(revisions == 1 && same(&revised_from, &in_t.x[p]) && same(&revised_with, &in_imp), "the known implication is revised with the new one, once");
        Implication r = in_rev;
        r.truth = Truth_Revision(in_t.x[p].truth, in_imp.truth);
        r.term = in_imp.term; r.sourceConcept = in_t.x[p].sourceConcept; r.sourceConceptId = in_t.x[p].sourceConceptId;
        inserted(ret, &r, n, p);
        REACHED("revised");
    }
    else
        ENSURES(overlap, "independent evidence for a known implication is always pooled");
#endif
    ENSURES(LE(in_t.x[p].truth.confidence, ret->truth.confidence) && LE(in_imp.truth.confidence, ret->truth.confidence), "pooling implications does not lose confidence");
}
static void removal(int n, int w)
{
    setup(n, 1000);
    Table_Remove(&t, w);
    ENSURES(t.itemsAmount == n - 1, "removing takes one entry out");
    bool ok = true;
    for(int i = 0; i + 1 < n; i++) ok = ok && same(&t.array[i], &in_t.x[i >= w ? i + 1 : i]);
    ENSURES(ok, "removing keeps all other entries, in their order");
    REACHED("removed");
}
/* every number of entries and every place of the known one, as constants */
INPUT(int, in_n);
INPUT(int, in_w);
#ifndef LO
# define LO 0
# define HI CAP
#endif
static void pick(void) { HAVOC(int, in_n); HAVOC(int, in_w); REQUIRES(in_n >= LO && in_n <= HI && in_w >= 0 && in_w < CAP); }
void tb_add(void) { pick(); for(int n = LO; n <= HI; n++) if(n == in_n) add(n); }
void tb_revise(void) { pick(); REQUIRES(in_w < in_n); for(int n = LO; n <= HI; n++) for(int w = 0; w < n; w++) if(n == in_n && w == in_w) revise(n, w); }
void tb_remove(void) { pick(); REQUIRES(in_w < in_n); for(int n = LO; n <= HI; n++) for(int w = 0; w < n; w++) if(n == in_n && w == in_w) removal(n, w); }
#ifdef OVERLAP
void tb_overlap(void)
{
    setup(1, 1);
    REQUIRES(stamp_wf(&in_imp.stamp) && stamp_wf(&in_t.x[0].stamp));
    Implication *ret = Table_AddAndRevise(&t, &imp);
# ifdef NATIVE
    bool kept = truth_same(ret->truth, in_t.x[0].truth) || truth_same(ret->truth, in_imp.truth);
    ENSURES(IMPLIES(stamp_overlap(&in_imp.stamp, &in_t.x[0].stamp), kept), "implications resting on the same evidence are not pooled");
# endif
    REACHED("overlap");
}
#endif
