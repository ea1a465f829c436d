#!/usr/bin/env python3
"""D03: what the derivative-free optimizers return has been evaluated and is the best (Dfo.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, dfo


def body(c):
    rng = c.rng
    g = dfo.Gen(rng)
    dfo.model(c)
    exe = c.build("dfo", "dfo", libs=dfo.LIBS)
    sessions = []
    for solver in ("cobyla", "newuoa", "bobyqa"):
        for k in range(600 if c.thorough else 90):
            # the way a run ends: budgets of all sizes, convergence, rounding errors
            maxfun = rng.choice([1, 2, 3, 4, 5, 6, 7, 8, 10, 12, 15, 20, 30, 50, 120, 300, 300])
            p = g.problem(0, solver, maxfun=maxfun, maximize=rng.choice([0, 1]), scaling=rng.choice([0, 0, 1, 2]),
                          ratio=rng.choice([1, 10, 100, 1e3, 1e6, 1e14]) if k % 3 == 0 else None)
            sessions.append([p, "direct 0"])
        for k in range(300 if c.thorough else 40):
            sessions.append([g.damaged(0, solver, maximize=rng.choice([0, 1]), scaling=rng.choice([0, 0, 1])), "direct 0"])
        if solver != "bobyqa":
            for k in range(150 if c.thorough else 25):
                maxfun = rng.choice([1, 2, 3, 5, 8, 12, 30, 120])
                sessions.append([g.problem(0, solver, maxfun=maxfun), "create 0", "iterate 0 1000", "restart 0", "iterate 0 1000", "delete 0"])
    dfo.check(c, exe, "best", sessions)


vlib.main("D03", body)
