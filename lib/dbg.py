#!/usr/bin/env python3
"""dbg.py <property> <goal> <cfg> [timeout]: developer's aid: verifier output of one goal; with --trace P the counterexample inputs"""
import sys, os, threading
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vf, goals
P = goals.PROPERTIES[sys.argv[1]]
g = [g for g in P["goals"] if g.name == sys.argv[2]][0]
s = vf.Session()
try:
    u = s.loops(g)
    if len(sys.argv) > 5 and sys.argv[5] == "--trace":
        t, cmd = vf.get_trace(s, g, [sys.argv[3]], u, sys.argv[6], int(sys.argv[4]))
        for st in t:
            if st.get("stepType") == "assignment" and not st.get("hidden"):
                l = st.get("sourceLocation", {})
                print(l.get("function"), l.get("line"), st.get("lhs"), "=", str(st["value"].get("data", st["value"].get("name")))[:60])
        print(cmd)
    else:
        rc, o, e, dt = vf.run(s.cbmc_cmd(g, sys.argv[3], u) + ["--verbosity", "9"], int(sys.argv[4]) if len(sys.argv) > 4 else 200)
        L = [x for x in (o + e).split("\n") if not x.startswith(("Unwinding", "Not unwinding", "size of"))]
        print("\n".join(L[-60:]), rc, dt)
finally:
    s.close()
