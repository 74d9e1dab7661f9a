from vf import Goal

PROPERTIES = {}


def prop(pid, title, goals, **kw):
    PROPERTIES[pid] = dict(title=title, goals=goals, **kw)


def R(name, harness, **kw):
    return Goal(name, harness, mode="real", **kw)



def cc(*names):
    return ["%s (%s)" % n if isinstance(n, tuple) else n for n in names]


TRUTH_F = {"t_strong": "Analogy Deduction Difference Intersection Negation Union", "t_resemblance": "Resemblance", "t_weak": "Abduction Conversion Exemplification Induction", "t_comparison": "Comparison",
           "t_structural": "StructuralDeduction StructuralDeductionNegated StructuralIntersection", "t_decompose": "DecomposePNN DecomposeNPP DecomposePNP DecomposePPP DecomposeNNN",
           "t_anonymous": "AnonymousAnalogy", "t_goaldeduction": "GoalDeduction", "t_comparefreq": "FrequencyGreater FrequencyEqual", "t_expectation": "Expectation Equal c2w w2c",
           "t_revision_formula": "Revision", "t_revision_laws": "Revision", "t_revision_between": "Revision", "t_eternalize": "Eternalize", "t_projection": "Projection"}
prop("C01", "Truth functions compute the NAL formulas", [
    R(n, "truth.c", functions=["Truth_" + f for f in fs.split()], unwind=2) if n != "t_projection" else
    Goal(n, "truth.c", mode="realint", unwind=2, functions=["Truth_Projection"]) for n, fs in TRUTH_F.items()],
    assumptions=["the pow function of libc is x^n (t_projection unfolds its laws)", "real arithmetic instead of doubles"])
prop("C05", "Merged evidence is the interleaving of both evidence lists", [Goal(n, "stamp.c", unwind=12, configs=["z3-nfs", "cad", "cad-nfs", "z3"], functions=f) for n, f in (
    ("s_overlap", ["Stamp_checkOverlap"]), ("s_make", ["Stamp_make"]), ("s_make_sets", ["Stamp_make"]), ("s_make_distinct", ["Stamp_make"]), ("s_equal", ["Stamp_Equal"]))])
prop("C07", "Every input rests on fresh evidence of its own", [Goal(n, "event.c", unwind=12, functions=["Event_InputEvent"] + (["Event_INIT"] if n == "e_reset" else [])) for n in ("e_fresh", "e_import", "e_fields", "e_reset")],
     assumptions=["less than 2^63 inputs"])
prop("C03", "Taking terms apart and putting them together is exact", [Goal("term_extract", "term.c", unwind=8, configs=["sat", "cad-nfs", "cad"], functions=["Term_ExtractSubterm", "Term_RelativeOverride"]),
     Goal("term_override", "term.c", unwind=8, configs=["sat", "cad-nfs", "cad"], functions=["Term_OverrideSubterm", "Term_RelativeOverride"])])
ATOMS = ["Narsese_copulaEquals", "Narsese_CopulaIndex", "Narsese_isOperator", "Narsese_IsSimpleAtom", "Variable_isIndependentVariable", "Variable_isDependentVariable", "Variable_isQueryVariable", "Variable_isVariable", "Narsese_AtomicTermIndex"]
TERMS = ["Term_ExtractSubterm", "Term_OverrideSubterm", "Term_Equal"]
TRUTHS = ["Truth_Revision", "Truth_Deduction", "Truth_GoalDeduction", "Truth_Abduction", "Truth_Intersection", "Truth_Projection", "Truth_Eternalize", "Truth_Expectation"]
STAMPS = ["Stamp_make", "Stamp_checkOverlap"]
ASSERT = ["Globals_assert"]
INF = {"i_revchoice": "RevisionAndChoice", "i_revchoice_empty": "RevisionAndChoice", "i_intersection": "BeliefIntersection", "i_induction": "BeliefInduction", "i_eventrevision": "EventRevision",
       "i_imprevision": "ImplicationRevision", "i_update": "EventUpdate", "i_goalseq": "GoalSequenceDeduction", "i_goaldeduction": "GoalDeduction", "i_beliefdeduction": "BeliefDeduction"}
prop("C08", "Inference combines the right premises with the right truth, time and evidence", [
    Goal(n, "inference.c", unwind=12, atoms=True, remove=ATOMS + TERMS + TRUTHS + STAMPS + ASSERT, unwindfn={"Variable_hasVariable": 66},
         functions=["Inference_" + f], contracts=ATOMS + TERMS + TRUTHS + STAMPS) for n, f in INF.items()])
TB = ["Deduction", "Abduction", "Induction", "Intersection", "Exemplification", "Comparison", "Analogy", "Resemblance", "Union", "Difference", "Conversion", "Negation", "GoalDeduction", "AnonymousAnalogy", "DecomposeNNN", "c2w", "w2c"]
prop("C02", "Truth values stay within their ranges", [Goal("tb_" + n, "truth_bits.c", unwind=2, configs=["sat", "cad"], functions=["Truth_" + n]) for n in TB] +
     [Goal("tb_Revision", "truth_bits.c", unwind=2, configs=["sat", "cad", "z3"], defs=["VF_REV"], remove=["Truth_c2w", "Truth_w2c"], functions=["Truth_Revision"], contracts=["Truth_c2w", "Truth_w2c"])])

prop("C04", "Statements are the same exactly when all their parts are", [Goal(n, "termeq.c", unwind=12, maxunwind=300, unwindfn={"memcmp": 150}, remove=["Globals_Hash"] + ASSERT, configs=["cad", "sat", "z3-nfs", "cad-nfs"], functions=f, contracts=["Globals_Hash"]) for n, f in (("te_equal", ["Term_Equal"]), ("te_hash", ["Term_Hash"]), ("te_size", ["Term_Complexity", "Term_HasAtom"]))] +
     [Goal(n, "hash.c", unwind=20, memsafe=True, configs=["sat", "cad", "z3"], functions=f) for n, f in (("te_mix", ["Globals_Hash"]), ("te_rand", ["myrand", "mysrand"]))])
prop("C17", "The recent-events index lists events from newest to oldest", [Goal(n, "occurrence.c", unwind=4, hunwind=600, remove=ASSERT, configs=["sat", "cad", "z3-nfs"], functions=["OccurrenceTimeIndex_GetKthNewestElement"] + (["OccurrenceTimeIndex_Add"] if n != "o_get" else [])) for n in ("o_get", "o_add", "o_first")])

SMALL = {"COMPOUND_TERM_SIZE_MAX": 4, "STAMP_SIZE": 2, "TABLE_SIZE": 5}
TBR = ["Term_Equal", "Inference_ImplicationRevision"] + TRUTHS + STAMPS + ASSERT
TBC = dict(unwind=8, mode="ord", config=SMALL, remove=TBR, configs=["cad", "cad-nfs", "sat-nfs"], contracts=TBR[:-1], kind="bounded", bound="TABLE_SIZE 5 (20), COMPOUND_TERM_SIZE_MAX 4 (64), STAMP_SIZE 2 (10)")
prop("C09", "Implication tables keep the best implications and revise each one once", [Goal("tb_add", "table.c", functions=["Table_Add"], **TBC), Goal("tb_remove", "table.c", functions=["Table_Remove"], **TBC), Goal("tb_overlap", "table.c", defs=["OVERLAP"], functions=["Table_AddAndRevise"], **TBC)] +
     [Goal("tb_revise_%d" % n, "table.c", entry="tb_revise", defs=["LO=%d" % n, "HI=%d" % n], functions=["Table_AddAndRevise", "Table_Add", "Table_Remove"], **TBC) for n in range(1, 6)], level="other",
     explanation="contracts of the table functions discharged for every table content, with the sizes of Config.h reduced")

PQ = dict(harness="pq.c", mode="ord", unwind=6, configs=["sat", "cad", "sat-nfs"])
prop("C10", "Priority queues give out the best and drop the worst", [Goal("pq_" + n + "_%d" % c, entry="pq_" + n, defs=["CAP=%d" % c], functions=["PriorityQueue_" + f], kind="bounded", bound="capacity %d (40, 400, 16384)" % c, **PQ)
     for n, f in (("popmax", "PopMax"), ("popmin", "PopMin"), ("push", "Push"), ("rebuild", "Rebuild"), ("init", "INIT")) for c in ((4, 7, 15) if n in ("popmax", "popmin", "push") else (4, 7))],
     level="other", explanation="contracts of the queue operations discharged for every content and fill level of queues of the given capacities")

HT = (("h_get", ["HashTable_Get"]), ("h_set", ["HashTable_Set", "Stack_Pop"]), ("h_delete", ["HashTable_Delete", "Stack_Push"]), ("h_init", ["HashTable_INIT"]), ("h_stack", ["Stack_INIT", "Stack_Push", "Stack_Pop"]))
prop("C11", "Hash tables are maps", [Goal("%s_%d%s" % (n, m, "" if th is None else "_new" if th == 0 else "_again"), "hashtable.c", entry=n, defs=["M=%d" % m] + ([] if th is None else ["THERE=%d" % th]), unwind=6, remove=ASSERT, configs=["sat-nfs", "sat", "cad-nfs"], functions=f, kind="bounded", bound="%d slots, 4 buckets (16384 and 65536)" % m,
     tier="quick" if m == 3 else "thorough") for n, f in HT for m in (3, 4) for th in ((0, 1) if n == "h_set" else (None,))], level="other", explanation="contracts of the table operations discharged for every well-formed table of the given size")

OPF = dict(objectbits=12, atoms=True, remove=ATOMS + TERMS + ASSERT, contracts=ATOMS + TERMS, configs=["cad", "sat", "cad-nfs", "sat-nfs"], unwind=8)
prop("C24", "Operations are recognized", [Goal("a_kinds", "atoms.c", unwind=4, config={"ATOMS_MAX": 8}, configs=["sat", "cad", "sat-nfs"], functions=["Narsese_copulaEquals", "Narsese_isOperator", "Narsese_IsSimpleAtom", "Variable_isVariable", "Variable_isIndependentVariable", "Variable_isDependentVariable", "Variable_isQueryVariable"], kind="bounded", bound="ATOMS_MAX 8 (65535)"),
     Goal("o_isoperation", "operation.c", functions=["Narsese_isOperation", "Narsese_isExecutableOperation"], **OPF), Goal("o_atom", "operation.c", functions=["Narsese_getOperationAtom"], **OPF),
     Goal("o_precondition", "operation.c", functions=["Narsese_GetPreconditionWithoutOp"], **OPF), Goal("o_length", "operation.c", functions=["Narsese_SequenceLength"], config={"COMPOUND_TERM_SIZE_MAX": 16}, kind="bounded", bound="COMPOUND_TERM_SIZE_MAX 16 (64)", **OPF),
     Goal("o_append", "operation.c", functions=["Narsese_OperationSequenceAppendLeftNested", "Narsese_Sequence"], config={"COMPOUND_TERM_SIZE_MAX": 16}, kind="bounded", bound="COMPOUND_TERM_SIZE_MAX 16 (64)", **OPF)])
