/* Contracts of the inference rules on events and implications: operands, evidence, timing, choice. */
#include "c_assert.h"
#include "c_atoms.h"
#include "c_term.h"
#include "c_truth.h"
#include "c_stamp.h"
#include "Inference.h"
INPUT(Event, in_a);
INPUT(Event, in_b);
INPUT(Implication, in_imp);
INPUT(Implication, in_imp2);
INPUT(long, in_now);
INPUT(bool, in_nullrev);
static Event a, b;
static Implication m, m2;
static bool term_ok(const Term *t)
{
    bool ok = !t->hashed && t->hash == 0;
    for(int i = 0; i < N; i++) ok = ok && t->atoms[i] <= VF_ATOM_LIMIT;
    return ok;
}
static bool event_ok(Event *e)
{
    return term_ok(&e->term) && truth_ok(e->truth) && stamp_wf(&e->stamp) && e->occurrenceTime >= OCCURRENCE_ETERNAL && e->occurrenceTime < 1L << 52 && e->occurrenceTimeOffset == e->occurrenceTimeOffset && e->creationTime >= 0;
}
static bool imp_ok(Implication *e)
{
    return term_ok(&e->term) && truth_ok(e->truth) && stamp_wf(&e->stamp) && e->occurrenceTimeOffset >= -1e15 && e->occurrenceTimeOffset <= 1e15 && e->creationTime >= 0;
}
static void setup(void)
{
    HAVOC(Event, in_a); HAVOC(Event, in_b); HAVOC(Implication, in_imp); HAVOC(Implication, in_imp2); HAVOC(long, in_now); HAVOC(bool, in_nullrev);
    env_setup();
    REQUIRES(event_ok(&in_a) && event_ok(&in_b) && imp_ok(&in_imp) && imp_ok(&in_imp2) && in_now >= 0 && in_now < 1L << 52);
    a = in_a; b = in_b; m = in_imp; m2 = in_imp2;
}
static bool event_same(Event *x, Event *y)
{
    return term_same(&x->term, &y->term) && x->type == y->type && x->truth.frequency == y->truth.frequency && x->truth.confidence == y->truth.confidence
           && stamp_same(&x->stamp, &y->stamp) && x->occurrenceTime == y->occurrenceTime && x->creationTime == y->creationTime && x->occurrenceTimeOffset == y->occurrenceTimeOffset;
}
static long later(long x, long y) { return x > y ? x : y; }
#define DERIVED(r, p, q) do { \
    ENSURES(stamp_zip(&(r).stamp, &(p).stamp, &(q).stamp) || stamp_zip(&(r).stamp, &(q).stamp, &(p).stamp), "a conclusion carries the merged evidence of its premises"); \
    ENSURES((r).creationTime == later((p).creationTime, (q).creationTime), "a conclusion is as new as its newer premise"); } while(0)
#define UNCHANGED() ENSURES(event_same(&a, &in_a) && event_same(&b, &in_b), "inference does not change its premises")

void i_revchoice(void)
{
    setup();
    REQUIRES(in_a.type != EVENT_TYPE_DELETED);
    bool revised = true;
    Event r = Inference_RevisionAndChoice(&a, &b, in_now, in_nullrev ? NULL : &revised);
    bool overlap = stamp_overlap(&in_a.stamp, &in_b.stamp);
    bool sameterm = term_same(&in_a.term, &in_b.term);
    bool sametime = in_a.occurrenceTime == OCCURRENCE_ETERNAL || in_a.occurrenceTime == in_b.occurrenceTime;
    bool isold = event_same(&r, &in_a), isnew = event_same(&r, &in_b);
    bool pooled = stamp_zip(&r.stamp, &in_a.stamp, &in_b.stamp) && term_same(&r.term, &in_a.term) && r.type == in_a.type;
    long t = later(in_a.occurrenceTime, in_b.occurrenceTime);
    Truth ta = Truth_Projection(in_a.truth, in_a.occurrenceTime, t), tb = Truth_Projection(in_b.truth, in_b.occurrenceTime, t);
    ENSURES(IMPLIES(overlap, isold || isnew), "overlapping evidence is never pooled, one of the two is kept as it is");
    ENSURES(IMPLIES(!sameterm || !sametime, isold || isnew), "different statements or different times are never pooled");
    ENSURES(IMPLIES(isold && !isnew && (overlap || !sameterm || !sametime), ta.confidence >= tb.confidence), "choice keeps the more confident one (old)");
    ENSURES(IMPLIES(isnew && !isold && (overlap || !sameterm || !sametime), tb.confidence > ta.confidence), "choice keeps the more confident one (new)");
    if(!in_nullrev)
    {
        ENSURES(IMPLIES(revised, !overlap && sameterm && sametime), "pooling happens for independent evidence about the same statement only");
        ENSURES(IMPLIES(!revised, isold || isnew), "without pooling the result is one of the two");
        ENSURES(IMPLIES(revised, pooled && truth_same(r.truth, Truth_Revision(ta, tb))), "pooling revises the truth values, projected to the later time, and merges the evidence");
        ENSURES(IMPLIES(revised, r.occurrenceTime == t && r.truth.confidence >= ta.confidence), "pooling does not lose confidence");
        if(revised) REACHED("revised");
        bool dep = false;
        for(int i = 0; i < N; i++) dep = dep || Variable_isDependentVariable(in_b.term.atoms[i]);
        ENSURES(IMPLIES(!overlap && sameterm && sametime && !dep, revised), "independent evidence about the same statement is always pooled");
    }
    UNCHANGED();
    if(overlap && isnew && !isold) REACHED("choice new");
    if(overlap && isold && !isnew) REACHED("choice old");
}
void i_revchoice_empty(void)
{
    setup();
    in_a.type = a.type = EVENT_TYPE_DELETED;
    bool revised = true;
    Event r = Inference_RevisionAndChoice(&a, &b, in_now, in_nullrev ? NULL : &revised);
    ENSURES(event_same(&r, &in_b), "an empty slot takes the new event as it is");
    ENSURES(in_nullrev || !revised, "filling an empty slot is not a revision");
    REACHED("empty");
}
void i_intersection(void)
{
    setup();
    REQUIRES(in_b.occurrenceTime >= in_a.occurrenceTime && in_a.occurrenceTime != OCCURRENCE_ETERNAL);
    bool success;
    Event r = Inference_BeliefIntersection(&a, &b, &success);
    ENSURES(success == (spec_fits(&in_a.term, 1) && spec_fits(&in_b.term, 2)), "a sequence is formed exactly when both parts fit");
    if(success)
    {
        Term spec = {0}, z = {0};
        spec.atoms[0] = Narsese_CopulaIndex(SEQUENCE);
        spec_override(&spec, &z, &in_a.term, 1); spec_override(&spec, &z, &in_b.term, 2);
        ENSURES(term_same(&r.term, &spec), "the sequence consists of the earlier and then the later event");
        ENSURES(truth_same(r.truth, Truth_Intersection(Truth_Projection(in_a.truth, in_a.occurrenceTime, in_b.occurrenceTime), in_b.truth)), "a sequence has the intersection truth of the projected earlier and the later event");
        ENSURES(r.occurrenceTime == in_b.occurrenceTime && r.type == EVENT_TYPE_BELIEF, "a sequence is a belief that occurs with its last event");
        DERIVED(r, in_a, in_b);
        REACHED("sequence");
    }
    UNCHANGED();
}
void i_induction(void)
{
    setup();
    REQUIRES(in_b.occurrenceTime >= in_a.occurrenceTime && in_a.occurrenceTime != OCCURRENCE_ETERNAL);
    bool success;
    Implication r = Inference_BeliefInduction(&a, &b, &success);
    ENSURES(success == (spec_fits(&in_a.term, 1) && spec_fits(&in_b.term, 2)), "an implication is formed exactly when both parts fit");
    if(success)
    {
        Term spec = {0}, z = {0};
        spec.atoms[0] = Narsese_CopulaIndex(TEMPORAL_IMPLICATION);
        spec_override(&spec, &z, &in_a.term, 1); spec_override(&spec, &z, &in_b.term, 2);
        ENSURES(term_same(&r.term, &spec), "the earlier event is the condition and the later event the consequence");
        ENSURES(truth_same(r.truth, Truth_Induction(in_b.truth, Truth_Projection(in_a.truth, in_a.occurrenceTime, in_b.occurrenceTime))), "an induced implication has the induction truth of the consequence and the projected condition");
        ENSURES(r.occurrenceTimeOffset == (double) (in_b.occurrenceTime - in_a.occurrenceTime), "the delay of an induced implication is the time between its events");
        DERIVED(r, in_a, in_b);
        REACHED("implication");
    }
    UNCHANGED();
}
void i_eventrevision(void)
{
    setup();
    Event r = Inference_EventRevision(&a, &b);
    ENSURES(term_same(&r.term, &in_a.term) && r.type == in_a.type, "revision keeps the statement");
    ENSURES(truth_same(r.truth, Truth_Revision(Truth_Projection(in_a.truth, in_a.occurrenceTime, in_b.occurrenceTime), in_b.truth)), "revision pools the first event projected to the second one's time");
    ENSURES(r.occurrenceTime == in_b.occurrenceTime, "a revised event occurs with the second event");
    DERIVED(r, in_a, in_b);
    UNCHANGED();
    REACHED("revised");
}
void i_imprevision(void)
{
    setup();
    Implication r = Inference_ImplicationRevision(&m, &m2);
    ENSURES(term_same(&r.term, &in_imp.term) && r.sourceConcept == in_imp.sourceConcept && r.sourceConceptId == in_imp.sourceConceptId, "revision keeps the implication and its source");
    ENSURES(truth_same(r.truth, Truth_Revision(in_imp.truth, in_imp2.truth)), "revising implications pools their truth values");
    DERIVED(r, in_imp, in_imp2);
    REACHED("revised");
}
void i_update(void)
{
    setup();
    Event r = Inference_EventUpdate(&a, in_now);
    ENSURES(truth_same(r.truth, Truth_Projection(in_a.truth, in_a.occurrenceTime, in_now)), "an updated event has the truth projected from its own time");
    ENSURES(r.occurrenceTime == in_now && term_same(&r.term, &in_a.term) && r.type == in_a.type && stamp_same(&r.stamp, &in_a.stamp) && r.creationTime == in_a.creationTime, "updating an event changes its time and truth only");
    UNCHANGED();
    REACHED("updated");
}
void i_goalseq(void)
{
    setup();
    Event r = Inference_GoalSequenceDeduction(&a, &b, in_now);
    ENSURES(truth_same(r.truth, Truth_GoalDeduction(Truth_Projection(in_a.truth, in_a.occurrenceTime, in_now), Truth_Projection(in_b.truth, in_b.occurrenceTime, in_now))), "a subgoal of a sequence goal has the goal deduction truth of both events projected to now");
    ENSURES(r.type == EVENT_TYPE_GOAL && r.occurrenceTime == in_now, "the subgoal is wanted now");
    DERIVED(r, in_a, in_b);
    UNCHANGED();
    REACHED("goal");
}
void i_goaldeduction(void)
{
    setup();
    REQUIRES(SP_COP(in_imp.term.atoms[0], TEMPORAL_IMPLICATION) || SP_COP(in_imp.term.atoms[0], IMPLICATION));
    Event r = Inference_GoalDeduction(&a, &m, in_now);
    ENSURES(truth_same(r.truth, Truth_GoalDeduction(in_a.truth, in_imp.truth)), "a subgoal has the goal deduction truth of the goal and the implication");
    ENSURES(r.type == EVENT_TYPE_GOAL && r.occurrenceTime == in_now, "the subgoal is wanted now");
    DERIVED(r, in_a, in_imp);
    Term pre = {0};
    spec_extract(&pre, &in_imp.term, 1);
    bool same = term_same(&r.term, &pre);
    bool stripped = SP_COP(pre.atoms[0], SEQUENCE);
    ENSURES(same || stripped, "the subgoal is the condition of the implication, without its operations");
    Term right = {0};
    spec_extract(&right, &pre, 2);
    bool oper = sp_isop(right.atoms[0]) || (SP_COP(right.atoms[0], INHERITANCE) && SP_COP(right.atoms[1], PRODUCT) && sp_isop(right.atoms[2]) && SP_COP(right.atoms[3], EXT_SET));
    ENSURES(IMPLIES(stripped && !oper, same), "only operations are taken off the condition");
    UNCHANGED();
    REACHED("goal");
}
void i_beliefdeduction(void)
{
    setup();
    REQUIRES(SP_COP(in_imp.term.atoms[0], TEMPORAL_IMPLICATION) || SP_COP(in_imp.term.atoms[0], IMPLICATION));
    Event r = Inference_BeliefDeduction(&a, &m);
    ENSURES(truth_same(r.truth, Truth_Deduction(in_imp.truth, in_a.truth)), "a prediction has the deduction truth of the implication and the event");
    Term post = {0};
    spec_extract(&post, &in_imp.term, 2);
    ENSURES(term_same(&r.term, &post) && r.type == EVENT_TYPE_BELIEF, "a prediction is a belief about the consequence");
    ENSURES(IMPLIES(in_a.occurrenceTime == OCCURRENCE_ETERNAL, r.occurrenceTime == OCCURRENCE_ETERNAL), "an eternal condition gives an eternal conclusion");
    ENSURES(IMPLIES(in_a.occurrenceTime != OCCURRENCE_ETERNAL, r.occurrenceTime == (long) (a.occurrenceTime + m.occurrenceTimeOffset)), "a prediction is due one delay after its condition");
    DERIVED(r, in_a, in_imp);
    UNCHANGED();
    REACHED("prediction");
}
