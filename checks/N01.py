#!/usr/bin/env python3
"""N01: NLCG contract (Nlcg.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, optim


def body(c):
    rng = c.rng
    th = c.thorough
    cfg = "SPECIFICATION MCSpec\nCONSTANTS\n Depth = %d\n Rules = {1,2,3,4,5,6,7,8}\n Emit = TRUE\nINVARIANTS Counters Descending Ends Goes\nCHECK_DEADLOCK FALSE\n"
    sessions = optim.behaviours(c, "MCNlcg", cfg % 14, 14, 3000 if th else 400)
    for k in range(4000 if th else 240):
        n = rng.choice([1, 2, 2, 3, 4])
        sessions.append(optim.session(rng, optim.nlcg_new(rng, n, k % 8 + 1), n, 50))
    optim.run(c, sessions, "TraceNlcg", 'CONSTANT Aspect = "contract"\n', "NLCG run")


vlib.main("N01", body)
