#!/usr/bin/env python3
"""mkmeta.py : writes properties.jsonl and MANIFEST.json from the table below (developer's aid; the results are committed)"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import goals
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def p(pid, title, statement, over, qtext, why, files, mech, state=(), observe=(), level="proof", note="", technique=None):
    P.append(dict(pid=pid, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, state=state, observe=observe, level=level, note=note, technique=technique))


exec(open(os.path.join(V, "lib", "proptexts.py")).read())

TECH = "contract-based deductive verification: CBMC discharges the contracts' verification conditions on the compiled /repo sources, callee contracts in place of callee bodies"
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for x in P:
        d = {"id": x["pid"], "title": x["title"], "statement": x["statement"], "quantifier": {"over": x["over"], "text": x["qtext"]},
             "why_tests_cant": x["why"],
             "anchors": {"files": ["src/" + y for y in x["files"]], "mechanism": [{"name": n, "where": w} for n, w in x["mech"]],
                         "state": [{"name": n, "meaning": m, "where": w} for n, m, w in x["state"]],
                         "observe_at": list(x["observe"]), "hook_needed": None}}
        assert len(x["title"]) <= 80, x["pid"]
        f.write(json.dumps(d) + "\n")
    for x in NOT_APPLICABLE:
        f.write(json.dumps(x["prop"]) + "\n")
claimed = [x for x in P if x["pid"] in goals.PROPERTIES]
m = {"version": 1, "setup_cmd": "sh lib/setup.sh",
     "hooks": {"guard": "none", "enable": "no hooks: the checks compile /repo/src as it is", "source_commits": []},
     "checks": [{"property": x["pid"], "quick_cmd": "python3 lib/check.py %s --tier quick" % x["pid"],
                 "thorough_cmd": "python3 lib/check.py %s --tier thorough" % x["pid"],
                 "technique": x["technique"] or TECH, "level": x["level"], "level_note": x["note"] or "every obligation discharged for all inputs, all loops unrolled to their ends with unwinding assertions"} for x in claimed],
     "not_applicable": [{"property": x["prop"]["id"], "reason": x["reason"]} for x in NOT_APPLICABLE] +
                       [{"property": x["pid"], "reason": "no check yet"} for x in P if x["pid"] not in goals.PROPERTIES],
     "notes": "See DESIGN.md. Known findings: known_findings.json."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print("%d properties, %d checks" % (len(P), len(claimed)), [q for q in goals.PROPERTIES if q not in [x["pid"] for x in P]])
