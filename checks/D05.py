#!/usr/bin/env python3
"""D05: the radii of the trust regions and the steps they rule (Dfo.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, dfo


RATIOS = [1, 1.2, 1.5, 2, 2.5, 3, 3.1, 5, 10, 16, 16.5, 20, 100, 250, 260, 1e3, 1e4, 1e5]


def body(c):
    rng = c.rng
    g = dfo.Gen(rng)
    dfo.model(c, 4)
    exe = c.build("dfo", "dfo", libs=dfo.LIBS)
    sessions = []
    for k in range(900 if c.thorough else 150):
        solver = ["cobyla", "newuoa", "bobyqa"][k % 3]
        # direct calls: radii as printed
        m = rng.choice([0, 0, 0, 2]) if solver == "cobyla" else 0
        p = g.problem(0, solver, m=m, maxfun=60 if m else 150, iprint=2, ratio=rng.choice(RATIOS), scaling=rng.choice([0, 0, 1]), maximize=rng.choice([0, 1]),
                      kind=rng.choice([0, 0, 1, 2, 3, 4, 9]))
        s = [p]
        if solver == "bobyqa" and k % 2:
            s.append("edit 0 near %d %d %r" % (rng.randrange(2), rng.randrange(2), rng.choice([0, 0, .5, 1, 1.5])))
        sessions.append(s + ["direct 0"])
    for k in range(500 if c.thorough else 90):
        solver = ["cobyla", "newuoa"][k % 2]
        m = rng.choice([0, 0, 0, 1, 3]) if solver == "cobyla" else 0
        p = g.problem(0, solver, m=m, maxfun=60 if m else 200, iprint=0, ratio=rng.choice(RATIOS), kind=rng.choice([0, 0, 1, 2, 3, 4, 9]))
        sessions.append([p, "create 0", "iterate 0 1000"] + (["restart 0", "iterate 0 1000"] if k % 5 == 0 else []) + ["delete 0"])
    dfo.check(c, exe, "radius", sessions)


vlib.main("D05", body)
