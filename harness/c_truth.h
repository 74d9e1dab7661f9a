/* Contracts of the truth functions for callers that only combine their results: the formulas are uninterpreted here
 * (they are proved in truth.c), so a caller is right exactly when it applies the right function to the right operands. */
#ifndef VF_C_TRUTH_H
#define VF_C_TRUTH_H
#include "vf.h"
#include "Truth.h"
#ifndef NATIVE
double __CPROVER_uninterpreted_rev_f(double, double, double, double);
double __CPROVER_uninterpreted_rev_c(double, double, double, double);
double __CPROVER_uninterpreted_ded_f(double, double, double, double);
double __CPROVER_uninterpreted_ded_c(double, double, double, double);
double __CPROVER_uninterpreted_gded_f(double, double, double, double);
double __CPROVER_uninterpreted_gded_c(double, double, double, double);
double __CPROVER_uninterpreted_abd_f(double, double, double, double);
double __CPROVER_uninterpreted_abd_c(double, double, double, double);
double __CPROVER_uninterpreted_int_f(double, double, double, double);
double __CPROVER_uninterpreted_int_c(double, double, double, double);
double __CPROVER_uninterpreted_prj_c(double, long, long);
double __CPROVER_uninterpreted_etn_c(double);
double __CPROVER_uninterpreted_exp(double, double);
#define UNIT(x) ((x) >= 0.0 && (x) <= 1.0)
#define UF2(name, tag) Truth name(Truth v1, Truth v2) { Truth r = (Truth) { .frequency = __CPROVER_uninterpreted_##tag##_f(v1.frequency, v1.confidence, v2.frequency, v2.confidence), .confidence = __CPROVER_uninterpreted_##tag##_c(v1.frequency, v1.confidence, v2.frequency, v2.confidence) }; __CPROVER_assume(r.frequency == r.frequency && r.confidence == r.confidence); \
    __CPROVER_assume(IMPLIES(UNIT(v1.frequency) && UNIT(v2.frequency) && UNIT(v1.confidence) && UNIT(v2.confidence), UNIT(r.frequency) && UNIT(r.confidence))); return r; } /* t_strong etc. */
Truth Truth_Revision(Truth v1, Truth v2)
{
    Truth r = { .frequency = __CPROVER_uninterpreted_rev_f(v1.frequency, v1.confidence, v2.frequency, v2.confidence), .confidence = __CPROVER_uninterpreted_rev_c(v1.frequency, v1.confidence, v2.frequency, v2.confidence) };
    /* range and monotonicity: t_revision_between, t_revision_laws */
    __CPROVER_assume(IMPLIES(UNIT(v1.frequency) && UNIT(v2.frequency) && v1.confidence >= 0.0 && v2.confidence >= 0.0 && v1.confidence <= MAX_CONFIDENCE && v2.confidence <= MAX_CONFIDENCE,
                             UNIT(r.frequency) && r.confidence >= v1.confidence && r.confidence >= v2.confidence && r.confidence <= MAX_CONFIDENCE));
    __CPROVER_assume(r.frequency == r.frequency && r.confidence == r.confidence);
    return r;
}
UF2(Truth_Deduction, ded)
UF2(Truth_GoalDeduction, gded)
UF2(Truth_Abduction, abd)
UF2(Truth_Intersection, int)
Truth Truth_Projection(Truth v, long originalTime, long targetTime)
{
    if(originalTime == OCCURRENCE_ETERNAL || originalTime == targetTime) return v; /* t_projection: exact, x^0 = 1 */
    Truth r = { .frequency = v.frequency, .confidence = __CPROVER_uninterpreted_prj_c(v.confidence, originalTime, targetTime) };
    /* t_projection */
    __CPROVER_assume(IMPLIES(v.confidence >= 0.0 && v.confidence <= 1.0, r.confidence >= 0.0 && r.confidence <= v.confidence));
    __CPROVER_assume(r.confidence == r.confidence);
    return r;
}
Truth Truth_Eternalize(Truth v)
{
    Truth r = { .frequency = v.frequency, .confidence = __CPROVER_uninterpreted_etn_c(v.confidence) };
    __CPROVER_assume(IMPLIES(v.confidence >= 0.0 && v.confidence <= 1.0, r.confidence >= 0.0 && r.confidence <= v.confidence)); /* t_eternalize */
    return r;
}
double Truth_Expectation(Truth v)
{
    double e = __CPROVER_uninterpreted_exp(v.frequency, v.confidence);
    __CPROVER_assume(IMPLIES(UNIT(v.frequency) && UNIT(v.confidence), UNIT(e)));
    return e;
}
#endif
static bool truth_same(Truth a, Truth b) { return EQ(a.frequency, b.frequency) && EQ(a.confidence, b.confidence); }
static bool truth_ok(Truth a) { return a.frequency >= 0.0 && a.frequency <= 1.0 && a.confidence >= 0.0 && a.confidence <= MAX_CONFIDENCE; }
#endif
