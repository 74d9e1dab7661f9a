/* The range contract of the truth functions on IEEE doubles (bit precise). */
#include "vf.h"
#include "Truth.h"
INPUT(Truth, in_a);
INPUT(Truth, in_b);
static int tv(Truth t) { return t.frequency >= 0 && t.frequency <= 1 && t.confidence >= 0 && t.confidence <= 1; }
static void premises(void)
{
    HAVOC(Truth, in_a); HAVOC(Truth, in_b);
    REQUIRES(tv(in_a) && tv(in_b) && in_a.confidence <= MAX_CONFIDENCE && in_b.confidence <= MAX_CONFIDENCE);
}
#define RANGE(name, fn) void tb_##fn(void) { premises(); Truth r = Truth_##fn(in_a, in_b); ENSURES(tv(r), name ": f and c within [0,1] on machine doubles, not NaN"); REACHED(name); }
RANGE("deduction", Deduction)
RANGE("abduction", Abduction)
RANGE("induction", Induction)
RANGE("intersection", Intersection)
RANGE("exemplification", Exemplification)
RANGE("comparison", Comparison)
RANGE("analogy", Analogy)
RANGE("resemblance", Resemblance)
RANGE("union", Union)
RANGE("difference", Difference)
RANGE("conversion", Conversion)
RANGE("negation", Negation)
RANGE("goaldeduction", GoalDeduction)
RANGE("anonymous analogy", AnonymousAnalogy)
RANGE("DecomposeNNN", DecomposeNNN)
/* evidence weights, the two conversions the revision is built on */
static bool w_range(double c, double w) { return IMPLIES(c >= 0 && c <= MAX_CONFIDENCE, w >= 0 && w <= 100) && IMPLIES(c > 0 && c <= MAX_CONFIDENCE && c > 1e-300, w > 0); }
static bool c_range(double w, double c) { return IMPLIES(w >= 0 && w <= 1e6, c >= 0 && c <= 1); }
INPUT(double, in_x);
#ifdef VF_REV
# ifndef NATIVE
double __CPROVER_uninterpreted_tw(double); double __CPROVER_uninterpreted_tc(double);
double Truth_c2w(double c) { double w = __CPROVER_uninterpreted_tw(c); __CPROVER_assume(w_range(c, w)); return w; }
double Truth_w2c(double w) { double c = __CPROVER_uninterpreted_tc(w); __CPROVER_assume(c_range(w, c)); return c; }
# endif
void tb_Revision(void)
{
    premises();
    REQUIRES(in_a.confidence >= 1e-200 && in_b.confidence >= 1e-200);
    Truth r = Truth_Revision(in_a, in_b);
    ENSURES(tv(r), "revision: f and c within [0,1] on machine doubles, not NaN");
    ENSURES(r.confidence <= MAX_CONFIDENCE, "revision: c capped on machine doubles");
    ENSURES(r.confidence >= in_a.confidence && r.confidence >= in_b.confidence, "revision: c does not drop on machine doubles");
    REACHED("revision");
}
#else
void tb_c2w(void) { HAVOC(double, in_x); double w = Truth_c2w(in_x); ENSURES(w_range(in_x, w), "confidence to evidence weight: finite and not negative on machine doubles"); REACHED("c2w"); }
void tb_w2c(void) { HAVOC(double, in_x); double c = Truth_w2c(in_x); ENSURES(c_range(in_x, c), "evidence weight to confidence: within [0,1] on machine doubles"); REACHED("w2c"); }
#endif
