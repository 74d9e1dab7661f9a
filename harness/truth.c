/* Contracts of the truth functions (mode "real": double = mathematical reals). */
#include "vf.h"
#include "Truth.h"

INPUT(Truth, in_a);
INPUT(Truth, in_b);
INPUT(double, in_H);
INPUT(double, in_decay);
INPUT(long, in_t1);
INPUT(long, in_t2);

#define F1 (in_a.frequency)
#define C1 (in_a.confidence)
#define F2 (in_b.frequency)
#define C2 (in_b.confidence)
#define OR(x, y) ((x) + (y) - (x) * (y))
#define W2C(w) ((w) / ((w) + in_H))

static int tv(Truth t) { return t.frequency >= 0 && t.frequency <= 1 && t.confidence >= 0 && t.confidence < 1; }
static int range(Truth t)
{
#ifdef NATIVE
    return t.frequency >= 0 && t.frequency <= 1 && t.confidence >= 0 && t.confidence <= 1;
#else
    return tv(t);
#endif
}

static void premises(void)
{
    HAVOC(Truth, in_a); HAVOC(Truth, in_b); HAVOC(double, in_H);
    REQUIRES(tv(in_a) && tv(in_b) && in_H > 0);
    TRUTH_EVIDENTIAL_HORIZON = in_H;
}
#define FORMULA(name, call, f, c) { \
    Truth r = call; \
    ENSURES(EQ(r.frequency, f), name ": frequency as defined in NAL"); \
    ENSURES(EQ(r.confidence, c), name ": confidence as defined in NAL"); \
    ENSURES(range(r), name ": result is a truth value (0<=f<=1, 0<=c<1)"); }

void t_strong(void)
{
    premises();
    FORMULA("deduction", Truth_Deduction(in_a, in_b), F1 * F2, F1 * F2 * C1 * C2);
    FORMULA("intersection", Truth_Intersection(in_a, in_b), F1 * F2, C1 * C2);
    FORMULA("analogy", Truth_Analogy(in_a, in_b), F1 * F2, F2 * C1 * C2);
    FORMULA("union", Truth_Union(in_a, in_b), OR(F1, F2), C1 * C2);
    FORMULA("difference", Truth_Difference(in_a, in_b), F1 * (1 - F2), C1 * C2);
    FORMULA("negation", Truth_Negation(in_a, in_b), 1 - F1, C1);
    REACHED("strong syllogisms");
}
void t_resemblance(void)
{
    premises();
    FORMULA("resemblance", Truth_Resemblance(in_a, in_b), F1 * F2, OR(F1, F2) * C1 * C2);
    REACHED("resemblance");
}
void t_weak(void)
{
    premises();
    FORMULA("abduction", Truth_Abduction(in_a, in_b), F2, W2C(F1 * C1 * C2));
    FORMULA("induction", Truth_Induction(in_a, in_b), F1, W2C(F2 * C1 * C2));
    FORMULA("exemplification", Truth_Exemplification(in_a, in_b), 1, W2C(F1 * F2 * C1 * C2));
    FORMULA("conversion", Truth_Conversion(in_a, in_b), 1, W2C(F1 * C1));
    REACHED("weak syllogisms");
}
void t_comparison(void)
{
    premises();
    FORMULA("comparison", Truth_Comparison(in_a, in_b), (OR(F1, F2) == 0 ? 0 : (F1 * F2) / OR(F1, F2)), W2C(OR(F1, F2) * C1 * C2));
    REACHED("comparison");
}
void t_structural(void)
{
    premises();
    FORMULA("structural deduction", Truth_StructuralDeduction(in_a, in_b), F1, F1 * C1 * RELIANCE);
    FORMULA("structural deduction negated", Truth_StructuralDeductionNegated(in_a, in_b), 1 - F1, F1 * C1 * RELIANCE);
    FORMULA("structural intersection", Truth_StructuralIntersection(in_a, in_b), F1, C1 * RELIANCE);
    REACHED("structural");
}
void t_decompose(void)
{
    premises();
    FORMULA("decompose PNN", Truth_DecomposePNN(in_a, in_b), 1 - F1 * (1 - F2), F1 * (1 - F2) * C1 * C2);
    FORMULA("decompose NPP", Truth_DecomposeNPP(in_a, in_b), (1 - F1) * F2, (1 - F1) * F2 * C1 * C2);
    FORMULA("decompose PNP", Truth_DecomposePNP(in_a, in_b), F1 * (1 - F2), F1 * (1 - F2) * C1 * C2);
    FORMULA("decompose PPP", Truth_DecomposePPP(in_a, in_b), F1 * F2, F1 * F2 * C1 * C2);
    FORMULA("decompose NNN", Truth_DecomposeNNN(in_a, in_b), 1 - (1 - F1) * (1 - F2), (1 - F1) * (1 - F2) * C1 * C2);
    REACHED("decomposition");
}
void t_anonymous(void)
{
    premises();
    FORMULA("anonymous analogy", Truth_AnonymousAnalogy(in_a, in_b), F1, C1 * W2C(F2 * C2));
    REACHED("anonymous analogy");
}
void t_goaldeduction(void)
{
    premises();
    Truth r = Truth_GoalDeduction(in_a, in_b);
    /* the better supported one of "desired" and "its negation is desired" */
    double cp = F1 * F2 * C1 * C2, cn = (1 - F1) * F2 * C1 * C2;
    ENSURES(range(r), "goal deduction: result is a truth value");
    ENSURES(EQ(r.confidence, cp >= cn ? cp : cn), "goal deduction: confidence of the better supported side");
    ENSURES(IMPLIES(LT(cn, cp), EQ(r.frequency, F1 * F2)), "goal deduction: frequency of positive side when it is better supported");
    ENSURES(IMPLIES(LT(cp, cn), EQ(r.frequency, 1 - (1 - F1) * F2)), "goal deduction: frequency of negated side when it is better supported");
    REACHED("goal deduction");
}
void t_comparefreq(void)
{
    premises();
    FORMULA("frequency greater", Truth_FrequencyGreater(in_a, in_b), (F1 > F2 ? 1 : 0), (F1 > F2 ? C1 * C2 : 0));
    FORMULA("frequency equal", Truth_FrequencyEqual(in_a, in_b), (F1 == F2 ? 1 : 0), (F1 == F2 ? C1 * C2 : 0));
    REACHED("relative frequency");
}
void t_expectation(void)
{
    premises();
    double e = Truth_Expectation(in_a);
    ENSURES(EQ(e, C1 * F1 + (1 - C1) / 2), "expectation = c*f + (1-c)*0.5");
    ENSURES(LE(0, e) && LE(e, 1), "expectation within [0,1]");
    ENSURES(Truth_Equal(&in_a, &in_b) == (F1 == F2 && C1 == C2), "truth equality is equality of frequency and confidence");
    ENSURES(EQ(Truth_w2c(Truth_c2w(C1)), C1), "evidence weight and confidence convert back and forth");
    ENSURES(IMPLIES(C1 < C2, LE(Truth_c2w(C1), Truth_c2w(C2))), "more confidence means more evidence");
    REACHED("expectation");
}
/* revision: evidence pooling */
static void revision_premises(void)
{
    premises();
    REQUIRES(C1 > 0 && C2 > 0 && C1 <= MAX_CONFIDENCE && C2 <= MAX_CONFIDENCE);
}
void t_revision_formula(void)
{
    revision_premises();
    Truth r = Truth_Revision(in_a, in_b);
    double w1 = in_H * C1 / (1 - C1), w2 = in_H * C2 / (1 - C2);
    double c = (w1 + w2) / (w1 + w2 + in_H);
    ENSURES(EQ(r.frequency, (w1 * F1 + w2 * F2) / (w1 + w2)), "revision: frequency is the evidence-weighted mean");
    ENSURES(EQ(r.confidence, c > MAX_CONFIDENCE ? MAX_CONFIDENCE : c), "revision: confidence is that of the pooled evidence, capped");
    REACHED("revision formula");
}
void t_revision_laws(void)
{
    revision_premises();
    Truth r = Truth_Revision(in_a, in_b), s = Truth_Revision(in_b, in_a);
    ENSURES(EQ(r.frequency, s.frequency) && EQ(r.confidence, s.confidence), "revision: order of the premises does not matter");
    ENSURES(r.confidence >= C1 && r.confidence >= C2, "revision: never less confident than either premise");
    ENSURES(r.confidence <= MAX_CONFIDENCE, "revision: confidence capped");
    ENSURES(r.frequency >= 0 && r.frequency <= 1, "revision: frequency within [0,1]");
    REACHED("revision laws");
}
void t_revision_between(void)
{
    revision_premises();
    Truth r = Truth_Revision(in_a, in_b);
    ENSURES(IMPLIES(F1 <= F2, LE(F1, r.frequency) && LE(r.frequency, F2)), "revision: frequency lies between the premises' frequencies");
    ENSURES(IMPLIES(F2 <= F1, LE(F2, r.frequency) && LE(r.frequency, F1)), "revision: frequency lies between the premises' frequencies (2)");
    ENSURES(IMPLIES(C1 < MAX_CONFIDENCE && C2 < MAX_CONFIDENCE, r.confidence > C1), "revision: new evidence strictly increases confidence below the cap");
    REACHED("revision between");
}
void t_eternalize(void)
{
    premises();
    Truth r = Truth_Eternalize(in_a);
    ENSURES(EQ(r.frequency, F1), "eternalization keeps the frequency");
    ENSURES(EQ(r.confidence, W2C(C1)), "eternalization: confidence is that of one observation weighted by c");
    ENSURES(IMPLIES(in_H == 1, LE(r.confidence, C1) && r.confidence <= 0.5), "eternalization weakens");
    ENSURES(range(r), "eternalization: result is a truth value");
    REACHED("eternalization");
}
/* pow over the reals: assumed contract (trusted): for 0 <= b <= 1 and e >= 0: 0 <= b^e <= 1, b^0 = 1, b^1 = b,
   a function of its arguments, and not increasing in e */
#ifndef NATIVE
double __CPROVER_uninterpreted_pow(double, double);
static double pow_seen_b, pow_seen_e; static int pow_seen;
double pow(double b, double e)
{
    ENSURES(b >= 0 && b <= 1 && e >= 0, "projection decay factor and time distance are in the domain of the power contract");
    double r = __CPROVER_uninterpreted_pow(b, e);
    ASSUMED(r >= 0 && r <= 1);
    ASSUMED(IMPLIES(e == 0, r == 1));
    ASSUMED(IMPLIES(e == 1, r == b));
    ASSUMED(IMPLIES(b > 0, r > 0));
    if(pow_seen && pow_seen_b == b)
    {
        double p = __CPROVER_uninterpreted_pow(pow_seen_b, pow_seen_e);
        ASSUMED(IMPLIES(pow_seen_e <= e, r <= p));
        ASSUMED(IMPLIES(pow_seen_e >= e, r >= p));
    }
    pow_seen = 1; pow_seen_b = b; pow_seen_e = e;
    return r;
}
#ifdef REALINT
long labs(long x) { return x < 0 ? -x : x; }
#endif
#define POW(b, e) __CPROVER_uninterpreted_pow(b, e)
#else
#define POW(b, e) pow(b, e)
#endif
void t_projection(void)
{
    premises();
    HAVOC(long, in_t1); HAVOC(long, in_t2); HAVOC(double, in_decay);
    REQUIRES(in_decay >= 0 && in_decay <= 1);
    REQUIRES(in_t1 >= -1 && in_t2 >= -1 && in_t1 < 4611686018427387904L && in_t2 < 4611686018427387904L);
    TRUTH_PROJECTION_DECAY = in_decay;
    Truth r = Truth_Projection(in_a, in_t1, in_t2);
    long distance = in_t1 < in_t2 ? in_t2 - in_t1 : in_t1 - in_t2;
    ENSURES(EQ(r.frequency, F1), "projection keeps the frequency");
    ENSURES(LE(r.confidence, C1), "projection never increases confidence");
    ENSURES(r.confidence >= 0, "projected confidence not negative");
    ENSURES(IMPLIES(in_t1 == OCCURRENCE_ETERNAL, EQ(r.confidence, C1)), "eternal truth is not discounted");
    ENSURES(IMPLIES(in_t1 == in_t2, EQ(r.confidence, C1)), "no discount without time distance");
    ENSURES(IMPLIES(in_t1 != OCCURRENCE_ETERNAL, EQ(r.confidence, C1 * POW(in_decay, (double) distance))), "confidence discounted by decay^distance");
    REACHED("projection");
}
