#!/usr/bin/env python3
"""one.py <property> <goal> [cfg,...] : developer's aid, runs one goal with each back end to the end"""
import sys, os, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, goals
P = goals.PROPERTIES[sys.argv[1]]
g = [g for g in P["goals"] if g.name == sys.argv[2]][0]
cfgs = sys.argv[3].split(",") if len(sys.argv) > 3 else g.configs
tmo = int(sys.argv[4]) if len(sys.argv) > 4 else 200
s = vf.Session()
try:
    def w(c):
        u = s.loops(g)
        while True:
            a = vf.solve(s, g, c, u, threading.Event(), tmo)
            if a["status"] == "ok":
                obl, reach, unw = vf.classify(a["results"])
                bad = [r for r in unw if r["status"] == "FAILURE"]
                if bad and all(vf.grow(u, g, r) for r in bad):
                    print(c, "unroll", [r["property"] for r in bad], "%.1f s" % a["time"], flush=True)
                    continue
                print(c, "%.1f s" % a["time"], "obl %d fail %s" % (len(obl) + len(unw), [(r["description"], r["property"]) for r in obl + unw if r["status"] == "FAILURE"]),
                      "reach ok" if all(r["status"] == "FAILURE" for r in reach) else "VACUOUS", "nobody", sorted(a["nobody"]), "unwind", {k: v for k, v in u.items() if v != g.hunwind}, flush=True)
            else:
                print(c, a["status"], "%.1f s" % a["time"], a.get("log", "")[-800:], flush=True)
            return
    ts = [threading.Thread(target=w, args=(c,)) for c in cfgs]
    [t.start() for t in ts]; [t.join() for t in ts]
finally:
    s.close()
