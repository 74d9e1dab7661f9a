#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough] : decides one property on /repo's current tree."""
import argparse, glob, json, os, shutil, sys, threading, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf
from vf import *
import goals as G


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    return [k for k in json.load(open(p)) if k.get("property") == prop and k.get("status") == "known"]


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--goal", action="append")
    ap.add_argument("-v", action="store_true")
    a = ap.parse_args()
    prop = a.property
    tier = "thorough" if a.tier == "thorough" else "quick"
    P = G.PROPERTIES[prop]
    goals = [g for g in P["goals"] if (tier == "thorough" or g.tier == "quick") and (not a.goal or g.name in a.goal)]
    t0 = time.time()
    outdir = os.path.join(VERIF, "out", prop)
    shutil.rmtree(outdir, ignore_errors=True)
    os.makedirs(outdir)
    sess = Session()
    results = []
    try:
        sem = threading.Semaphore(CORES)
        lock = threading.Lock()

        def one(g):
            t1 = time.time()
            try:
                r = decide(sess, g, tier, sem)
            except Failure as ex:
                r = {"goal": g, "status": "error", "why": str(ex), "answers": []}
            except Exception:
                r = {"goal": g, "status": "error", "why": traceback.format_exc()[-1500:], "answers": []}
            r["wall"] = time.time() - t1
            with lock:
                results.append(r)
                if a.v or r["status"] != "discharged":
                    print("[%s] %s: %s in %.1f s %s %s" % (prop, g.name, r["status"], r["wall"], r["pick"]["cfg"] if "pick" in r else "", r.get("why", "")[:300]), flush=True)
        # bounded number of goals in flight, so that build steps do not swamp the cores
        with concurrent.futures.ThreadPoolExecutor(max_workers=max(2, CORES)) as ex:
            list(ex.map(one, goals))
        rc = report(prop, P, goals, results, sess, tier, outdir, t0, a)
    finally:
        sess.close()
    sys.exit(rc)


def report(prop, P, goals, results, sess, tier, outdir, t0, a):
    violations, errors, known = [], [], []
    kf = known_findings(prop)
    nreplayed = 0
    for r in results:
        g = r["goal"]
        if r["status"] == "error":
            errors.append(r)
            continue
        if r["status"] != "failed":
            continue
        for f in r["failed"]:
            hit = [k for k in kf if k["goal"] == g.name and k["obligation"] == f["description"]]
            if hit:
                known.append((r, f, hit[0]))
                continue
            violations.append((r, f))
    out = []
    seen_goals = set()
    final_viol = []
    for r, f in violations:
        g = r["goal"]
        if g.name in seen_goals:
            continue            # one replay per goal; the other failed obligations are listed in its file
        seen_goals.add(g.name)
        others = [x["description"] + " @ " + x["property"] for rr, x in violations if rr is r]
        nobody = {x for x in r["pick"]["nobody"] if x not in vf.HARMLESS and x not in g.allow_nobody}
        cfgs = [r["pick"]["cfg"]] + [c for c in g.configs if c != r["pick"]["cfg"]]
        reproduced, msg, prog, assigns, cmd = None, "", None, [], None
        cand = [x for rr, x in violations if rr is r]
        # obligations of the contract first, then generated memory-safety ones
        for x in cand[:3]:
            if g.mode.startswith("real"):
                assigns = real_model(sess, g, r["unwind"], x["property"])
                if assigns is None:
                    assigns = []
                    continue
            else:
                trace, cmd = get_trace(sess, g, cfgs, r["unwind"], x["property"])
                if trace is None:
                    continue
                assigns = trace_assignments(trace)
            f = x
            if g.native:
                reproduced, msg, prog = native_replay(sess, g, assigns, outdir, x["description"])
                if reproduced:
                    break
        if not reproduced and nobody:
            r["why"] = "refuted, but only with functions the verifier has no code for: %s" % sorted(nobody)
            errors.append(r)
            continue
        rf = os.path.join(outdir, "violation_%s.json" % g.name)
        json.dump({"property": prop, "title": P["title"], "goal": g.name, "functions": list(g.functions),
                   "failed_obligation": f["description"], "obligation_id": f["property"], "all_failed": others,
                   "source_location": f.get("sourceLocation"),
                   "inputs": describe(assigns), "verifier": " ".join(r["pick"]["cmd"]),
                   "back_end": r["pick"]["cfg"], "replayed_on_real_code": bool(reproduced), "replay_result": msg,
                   "replay_program": prog}, open(rf, "w"), indent=1)
        final_viol.append((r, f, rf, bool(reproduced)))
        print("failed obligation: [%s] %s (%s)" % (g.name, f["description"], f["property"]))
        for o in others[:8]:
            print("    also: " + o) if o != f["description"] + " @ " + f["property"] else None
        print("    replay on the real code: %s %s" % ("REPRODUCED" if reproduced else "not reproduced", msg[:500]))
        print("VIOLATION property=%s replay=%s%s" % (prop, rf, "" if reproduced else " no-failing-input-found"), flush=True)
    for r, f, k in known:
        print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
    obligations = discharged = 0
    per = []
    assumptions = list(P.get("assumptions", []))
    trusted = ["cbmc 6.11.0 (C front end, symbolic execution, VC generation)"]
    nob = set()
    for r in results:
        g = r["goal"]
        e = {"goal": g.name, "functions": list(g.functions), "mode": g.mode, "kind": g.kind, "status": r["status"], "wall_s": round(r["wall"], 2)}
        if g.bound:
            e["bound"] = g.bound
        if g.contracts:
            e["callee_contracts_assumed_here"] = list(g.contracts)
        if g.note:
            e["note"] = g.note
        if "pick" in r:
            n = len(r["obl"]) + len(r["unw"])
            d = len([x for x in r["obl"] + r["unw"] if x["status"] == "SUCCESS"])
            e.update({"obligations": n, "discharged": d, "back_end": r["pick"]["cfg"], "solver_s": round(r["pick"]["time"], 2),
                      "contract_obligations": sorted({x["description"] for x in r["obl"] if x["property"].split(".")[-2:-1] == ["assertion"]})[:60],
                      "reachability_guards": len(r["reach"]), "unwind": r["unwind"], "confirmed_by": r["confirmed"]})
            nob |= r["pick"]["nobody"]
            if g.kind == "proved":
                obligations += n
                discharged += d
        else:
            obligations += 1
            e["why"] = r.get("why", "")[:1500]
        per.append(e)
        if "pick" in r:
            trusted.append("back end " + r["pick"]["cfg"])
    trusted += sorted({"contract assumed at call sites (proved in its own goal unless marked trusted): " + c for g in goals for c in g.contracts})
    if nob:
        trusted.append("library functions without code, assumed to return an arbitrary value and to touch no memory: " + ", ".join(sorted(nob)))
    if any(g.mode.startswith("real") for g in goals):
        trusted.append("machine floating point treated as mathematical reals in mode=real goals")
    if any(g.mode == "realint" for g in goals):
        trusted.append("long integers treated as mathematical numbers in mode=realint goals (no overflow)")
    trusted += list(P.get("trusted", []))
    ev = {"property": prop, "tier": tier, "seed": int(os.environ.get("VERIF_SEED", "0") or 0), "level": P.get("level", "proof"),
          "coverage": {"obligations": obligations, "discharged": discharged,
                       "checker_cmd": "python3 lib/check.py %s --tier %s" % (prop, tier),
                       "trusted_base": sorted(set(trusted)), "goals": sorted(per, key=lambda x: x["goal"]),
                       "functions_under_contract": sorted({f for g in goals for f in g.functions}),
                       "solver_s_total": round(sum(r["pick"]["time"] for r in results if "pick" in r), 1)},
          "assumptions": assumptions, "wall_s": round(time.time() - t0, 2), "violations": len(final_viol)}
    if P.get("level", "proof") != "proof":
        ev["coverage"]["explanation"] = P.get("explanation", "see goals")
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    bounded = [g.name for g in goals if g.kind != "proved"]
    print("%s: %d goals, %d/%d obligations discharged%s, %.1f s" % (prop, len(goals), discharged, obligations,
          (", bounded stand-ins (not counted): " + ", ".join(bounded)) if bounded else "", time.time() - t0))
    if final_viol:
        return 1
    if errors:
        logs = set()
        for r in errors:
            print("ERROR: goal %s: %s" % (r["goal"].name, r.get("why", "")[:300]))
            for x in r.get("answers", []):
                if x.get("log") and x["log"][-300:] not in logs and len(logs) < 4:
                    logs.add(x["log"][-300:])
                    print("   [%s] %s" % (x["cfg"], x["log"][-500:]))
        return 2
    return 0


if __name__ == "__main__":
    main()
