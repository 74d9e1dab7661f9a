p("C01", "Truth functions compute the NAL formulas",
  "Every truth function (deduction, induction, abduction, exemplification, comparison, analogy, resemblance, intersection, union, difference, conversion, negation, structural, decomposition, anonymous and goal rules, revision, expectation, projection, eternalization) returns exactly the frequency and confidence of its published formula. Revision pools evidence weights, is symmetric and never lowers confidence, and projection only ever lowers confidence.",
  ["inputs"], "all truth values (frequency and confidence in [0,1]), all distances in time, over the mathematical reals",
  "The unit tests call a few of the functions with one pair of values each; a wrong operand or weight shows only on other values.",
  ["Truth.c", "Truth.h"], [("one C function per formula", "src/Truth.c: Truth_*")], observe=["frequency and confidence of every printed conclusion"],
  note="machine doubles treated as mathematical reals in these goals; bit-precise ranges are C02")
p("C02", "Truth values stay within their ranges",
  "Whenever a truth function gets valid operands, its result is valid: frequency and confidence are within [0,1], and neither is ever not-a-number. Revision never exceeds the maximum confidence.",
  ["inputs"], "all pairs of valid IEEE double operands, bit by bit",
  "Rounding, overflow and 0/0 depend on single bit patterns out of 2^128 operand pairs, no sample reaches them.",
  ["Truth.c"], [("MIN/MAX clamping and weight conversion", "src/Truth.c")], observe=["printed truth values"],
  note="bit-precise IEEE arithmetic; for Truth_Revision the two weight conversions are replaced by their contracts, which are goals of their own")
p("C03", "Taking terms apart and putting them together is exact",
  "Extracting a subterm yields exactly the part of the term below that position, and inserting a term at a position writes exactly that term there and nothing elsewhere. Insertion is refused exactly when the inserted term does not fit.",
  ["inputs"], "all terms (all 2^1024 contents of the 64-node array), all positions",
  "Tests use a handful of small terms near the root; the last tree levels and overfull insertions are not reached.",
  ["Term.c", "Term.h"], [("binary heap encoding of terms", "src/Term.c: Term_ExtractSubterm, Term_OverrideSubterm")], observe=["term of every derived statement"])
p("C04", "Statements are the same exactly when all their parts are",
  "Two statements are treated as one and the same exactly when they agree in every part, and equal statements always have equal hashes, so that lookup never misses. Size measures count every part once, and pseudo-random numbers are reproducible from the seed.",
  ["inputs"], "all pairs of terms, with and without a cached hash, all seeds",
  "A hash that ignores or over-reads bytes still finds the few concepts of a test.",
  ["Term.c", "Globals.c"], [("memcmp over all atoms; cached hash", "src/Term.c: Term_Equal, Term_Hash"), ("mixing function", "src/Globals.c: Globals_Hash")], observe=["concept lookup"])
p("C05", "Merged evidence is the interleaving of both evidence lists",
  "A conclusion's evidence list is the interleaving of the lists of its two premises, cut off at the fixed length, so that recent evidence of both sides survives equally. Two lists overlap exactly when they share an identifier, and merging lists without shared or repeated identifiers never produces repetitions.",
  ["inputs"], "all pairs of evidence lists of all lengths and contents",
  "Tests merge two short lists only; cut-off and unequal lengths are not sampled.",
  ["Stamp.c", "Stamp.h"], [("zip of the two bases", "src/Stamp.c: Stamp_make"), ("overlap test", "src/Stamp.c: Stamp_checkOverlap")], observe=["Stamp=[...] in printed answers"])
p("C07", "Every input rests on fresh evidence of its own",
  "Every input event carries an evidence identifier that no earlier input carried, unless the user imported an evidence list, which is then used for exactly the next input. A reset starts the numbering over and drops a pending import.",
  ["inputs", "histories"], "all identifiers and import lists, any state before the call (induction over the input history)",
  "An identifier reused once in a long history makes unrelated evidence overlap; tests enter a few sentences.",
  ["Event.c"], [("running evidence counter, one-shot import list", "src/Event.c: Event_InputEvent, Event_INIT")], state=[("base", "next unused evidence id", "src/Event.c"), ("importstamp", "list for the next input", "src/Event.c")], observe=["Stamp=[...]"])
p("C08", "Inference combines the right premises with the right truth, time and evidence",
  "Sequence formation, temporal induction, revision, choice, prediction and subgoaling each return the prescribed statement, with the truth function applied to the premises projected to the right moment, the right occurrence time and delay, and the merged evidence of both premises. Overlapping evidence is never pooled: then the more confident premise is kept unchanged, and premises are never modified.",
  ["inputs"], "all pairs of events and implications: all terms, truth values, times, evidence lists",
  "Tests look at single derivations; swapped premises or projection to the wrong time need other truth values or times to show.",
  ["Inference.c"], [("one C function per rule", "src/Inference.c: Inference_*")], observe=["derived events, answers"],
  note="truth, stamp and term functions are replaced by their contracts (C01, C03, C05)")
p("C09", "Implication tables keep the best implications and revise each one once",
  "A table of implications never exceeds its capacity, stays ordered by expectation, keeps at most one implication per statement and link source, and only drops the weakest. A new implication is pooled with the stored one about the same statement if their evidence is independent, and all other entries stay as they were.",
  ["inputs", "histories"], "every well-formed table (all fill levels) and every new implication; induction over the insertion history",
  "Tests fill one table in one order; insertion, eviction and removal interact differently for every fill level and order of truth values.",
  ["Table.c", "Table.h"], [("insertion sort with eviction and revision", "src/Table.c: Table_AddAndRevise, Table_Add, Table_Remove")], state=[("array,itemsAmount", "implications by falling expectation", "src/Table.h")], observe=["*concepts output, decisions, answers"],
  note="sizes in Config.h reduced mechanically (TABLE_SIZE 20 -> 5, terms 64 -> 4 atoms, stamps 10 -> 2) and truth values mapped to an ordered finite set (values are only compared and copied): bounded in the table size, otherwise for all contents", level="other")
p("C10", "Priority queues give out the best and drop the worst",
  "A priority queue holds as many items as its capacity, pushing onto a full one drops the item of least priority (possibly the new one) and hands exactly that one back. Popping the maximum (minimum) returns the item of highest (lowest) priority and keeps all others, after any history of operations.",
  ["inputs", "histories"], "every interval heap of the capacities checked, all fill levels and priorities including ties; induction over the history of operations",
  "A wrong swap in the heap shows only for particular orders of priorities and fill levels; tests push a few items.",
  ["PriorityQueue.c", "PriorityQueue.h"], [("min-max heap", "src/PriorityQueue.c: PriorityQueue_Push, PopMax, PopMin, Rebuild")], state=[("items,itemsAmount", "heap levels alternate between minimum and maximum", "src/PriorityQueue.h")], observe=["which concepts and events are processed and forgotten"],
  level="other", note="bounded: queues of capacity 4, 7 and 15 (40 and 16384 in the system; five heap levels instead of six and fifteen), otherwise all contents; priorities as an ordered set with ties")
p("C11", "Hash tables are maps",
  "After any history of insertions and deletions, looking up a key finds exactly the value stored last for an equal key, and nothing for keys that were deleted or never stored. Collisions never lose or mix up entries, and no storage slot is lost or used twice.",
  ["inputs", "histories"], "every well-formed table of the size checked, all hash functions (all collision patterns) and keys; induction over the history of operations",
  "The 65536 buckets hardly ever collide in a test, so unlinking inside a chain is not exercised.",
  ["HashTable.c", "Stack.c"], [("chained buckets, slots from a free stack", "src/HashTable.c: HashTable_Get, HashTable_Set, HashTable_Delete")], state=[("HT,VMStack", "chains and free slots partition the storage", "src/HashTable.h")], observe=["concept and atom lookup"],
  level="other", note="bounded: 3 slots (thorough: 4) and 4 buckets instead of 16384 and 65536, otherwise every table content and every hash function")
p("C17", "The recent-events index lists events from newest to oldest",
  "The index of recent events always gives the k-th newest event for every k, also after it has wrapped around. Adding an event makes it the newest, drops only the oldest of a full index and keeps all others in order.",
  ["inputs", "histories"], "all fill levels, ring positions, contents and k; induction over the history of additions",
  "Wrap-around needs hundreds of events before anything differs.",
  ["OccurrenceTimeIndex.c"], [("ring buffer", "src/OccurrenceTimeIndex.c")], state=[("array,currentIndex,itemsAmount", "ring of concepts", "src/OccurrenceTimeIndex.h")], observe=["which events temporal induction combines"])
p("C24", "Operations are told apart from other statements and taken out of sequences",
  "A statement counts as an operation exactly if it is an operator or relates a product whose first part is a set to an operator, and it is executable only if it belongs to the system itself or to a variable agent. The operator of a sequence is the one of its last element, its precondition is what is left without the trailing operations, and collecting its operations keeps all of them in order. Atoms are classified (word, operator, kind of variable, copula) by their names only.",
  ["inputs"], "all terms (collecting operations and measuring sequences: all terms of 16 atoms) and all atom names",
  "Whether an arbitrarily shaped statement is an operation decides what is executed; tests contain a handful of well-shaped operations.",
  ["Narsese.c", "Variable.c"], [("operation predicates", "src/Narsese.c: Narsese_isOperation, Narsese_isExecutableOperation, Narsese_getOperationAtom, Narsese_GetPreconditionWithoutOp, Narsese_OperationSequenceAppendLeftNested")], observe=["which operations are executed and learned"],
  level="proof", note="two of the seven goals are bounded: Narsese_SequenceLength and Narsese_OperationSequenceAppendLeftNested for terms of 16 instead of 64 atoms, and the name table has 8 instead of 65535 rows")

NOT_APPLICABLE = []
