#!/usr/bin/env python3
"""D02: the budget of evaluations (Dfo.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, dfo


def body(c):
    rng = c.rng
    g = dfo.Gen(rng)
    dfo.model(c)
    exe = c.build("dfo", "dfo", libs=dfo.LIBS)
    sessions = []
    for k in range(600 if c.thorough else 105):
        solver = ["cobyla", "newuoa", "bobyqa"][k % 3]
        n = rng.randrange(2, 5)
        s = [g.problem(0, solver, n=n, maxfun=rng.choice([150, 350]), iprint=rng.choice([0, 0, 1, 2, 3]), maximize=rng.choice([0, 1]), scaling=rng.choice([0, 0, 1, 2]),
                       ratio=rng.choice([1, 3, 10, 100, 1e4, 1e13])), "direct 0"]
        if k % 5 == 0:
            s = [g.damaged(0, solver, n=n, maxfun=rng.choice([130, 160]), iprint=rng.choice([0, 1, 2])), "direct 0"]
        # every small budget, then some others: the run is cut, and only cut
        budgets = rng.sample(range(1, 14), 5) + rng.sample(range(14, 120), 3)
        for b in budgets:
            s += ["twin 1 0 b", "edit 1 maxfun %d iprint %d" % (b, rng.choice([0, 0, 0, 1, 2, 3])), "direct 1"]
        for off in (-1, 0, 1, -2):
            s += ["twin 1 0 b", "edit 1 ends %d iprint 0" % off, "direct 1"]
        if solver != "bobyqa" and k % 2:
            s[0] = g.problem(0, solver, n=n, maxfun=120, iprint=0)
            s.insert(1, "edit 0 iprint 0")
            for b in rng.sample(range(1, 90), 4):
                s += ["twin 2 0 b", "edit 2 maxfun %d iprint 0" % b, "create 2", "iterate 2 1000", "iterate 2 1", "restart 2", "iterate 2 1000", "delete 2"]
        sessions.append(s)
    # functions whose values are not always numbers, or finite: the run ends all the same
    for k in range(1500 if c.thorough else 240):
        solver = ["cobyla", "cobyla", "newuoa", "bobyqa"][k % 4]
        p = g.problem(0, solver, kind=13, maxfun=rng.choice([20, 60, 200]), m=rng.choice([0, 0, 1, 3]) if solver == "cobyla" else None,
                      maximize=rng.choice([0, 1]), ratio=rng.choice([1, 10, 1e3, 1e6]))
        sessions.append([p, "create 0", "iterate 0 1000", "delete 0"] if solver != "bobyqa" and k % 3 == 0 else [p, "direct 0"])
    dfo.check(c, exe, "budget", sessions)


vlib.main("D02", body)
