/* native replays of goals that do not involve the generated rule table link this in its place */
#include <stdlib.h>
#include "RuleTable.h"
void RuleTable_Apply(Term term1, Term term2, Truth truth1, Truth truth2, long conclusionOccurrence, double occurrenceTimeOffset, Stamp conclusionStamp,
                     long currentTime, double parentPriority, double conceptPriority, bool doublePremise, Concept *validation_concept, long validation_cid) { abort(); }
Term RuleTable_Reduce(Term term1) { abort(); }
