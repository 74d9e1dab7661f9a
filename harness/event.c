/* Contracts of input events: fresh evidence, import stamp, equality, eternalization. */
#include "stamp.h"
#include "Event.h"
INPUT(Stamp, in_import);
INPUT(long, in_base);
INPUT(Term, in_term);
INPUT(char, in_type);
INPUT(Truth, in_truth);
INPUT(double, in_offset);
INPUT(long, in_now);
static bool same_term(const Term *a, const Term *b)
{
    bool ok = true;
    for(int i = 0; i < COMPOUND_TERM_SIZE_MAX; i++) ok = ok && a->atoms[i] == b->atoms[i];
    return ok;
}
static void setup(void)
{
    HAVOC(Stamp, in_import); HAVOC(long, in_base); HAVOC(Term, in_term); HAVOC(char, in_type);
    HAVOC(Truth, in_truth); HAVOC(double, in_offset); HAVOC(long, in_now);
    REQUIRES(in_base >= 1 && in_base < 0x7ffffffffffffff0L);
    REQUIRES(in_truth.frequency == in_truth.frequency && in_truth.confidence == in_truth.confidence && in_offset == in_offset);
    base = in_base;
    importstamp = in_import;
}
void e_fresh(void)
{
    setup();
    REQUIRES(in_import.evidentialBase[0] == STAMP_FREE);
    Event e = Event_InputEvent(in_term, in_type, in_truth, in_offset, in_now);
    ENSURES(e.stamp.evidentialBase[0] == in_base, "an input event carries the next unused evidence id");
    bool rest = true;
    for(int i = 1; i < STAMP_SIZE; i++) rest = rest && e.stamp.evidentialBase[i] == STAMP_FREE;
    ENSURES(rest, "an input event rests on a single piece of evidence");
    ENSURES(base > in_base, "an evidence id is never handed out again");
    Event e2 = Event_InputEvent(in_term, in_type, in_truth, in_offset, in_now);
    ENSURES(!stamp_overlap(&e.stamp, &e2.stamp), "two inputs never share evidence");
    ENSURES(e2.stamp.evidentialBase[0] > in_base && base > e2.stamp.evidentialBase[0], "evidence ids only grow");
    REACHED("fresh");
}
void e_import(void)
{
    setup();
    REQUIRES(in_import.evidentialBase[0] != STAMP_FREE);
    Event e = Event_InputEvent(in_term, in_type, in_truth, in_offset, in_now);
    ENSURES(stamp_same(&e.stamp, &in_import), "an imported stamp is given to the next input event unchanged");
    ENSURES(base == in_base, "an imported stamp uses up no evidence id");
    Event e2 = Event_InputEvent(in_term, in_type, in_truth, in_offset, in_now);
    ENSURES(e2.stamp.evidentialBase[0] == in_base && e2.stamp.evidentialBase[1] == STAMP_FREE, "an imported stamp is used once only");
    REACHED("import");
}
void e_fields(void)
{
    setup();
    Event e = Event_InputEvent(in_term, in_type, in_truth, in_offset, in_now);
    ENSURES(same_term(&e.term, &in_term) && e.type == in_type, "an input event has the term and the type that were given");
    ENSURES(e.truth.frequency == in_truth.frequency && e.truth.confidence == in_truth.confidence, "an input event has the truth that was given");
    ENSURES(e.occurrenceTime == in_now && e.creationTime == in_now && e.occurrenceTimeOffset == in_offset, "an input event happens now");
    ENSURES(e.input && !e.processed, "an input event is marked as input and not yet processed");
    REACHED("fields");
}
void e_reset(void)
{
    setup();
    Event_INIT();
    Event e = Event_InputEvent(in_term, in_type, in_truth, in_offset, in_now);
    ENSURES(e.stamp.evidentialBase[0] == 1 && e.stamp.evidentialBase[1] == STAMP_FREE, "after a reset evidence starts over, whatever was imported before");
    REACHED("reset");
}
