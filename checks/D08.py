#!/usr/bin/env python3
"""D08: success means that the problem is solved (Dfo.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, dfo


def body(c):
    rng = c.rng
    g = dfo.Gen(rng)
    dfo.model(c, 4)
    exe = c.build("dfo", "dfo", libs=dfo.LIBS)
    sessions = []
    for k in range(1500 if c.thorough else 260):
        solver = ["cobyla", "cobyla", "newuoa", "bobyqa", "bobyqa"][k % 5]
        n = rng.randrange(2, 6)
        linear = solver != "newuoa" and rng.random() < .3
        m = rng.choice([n, n + 1, n + 3]) if linear else rng.choice([0, 1, 2, n, n + 2])
        feas = solver == "cobyla" and k % 5 == 1
        if feas:    # no objective: any point which satisfies the constraints
            linear, m = False, rng.choice([1, 2, n, n + 1, n + 3])
        s = [g.problem(0, solver, n=n, m=m if solver == "cobyla" else 0, kind=15 if feas else 10 if linear else 0, maxfun=5000, rhobeg=rng.choice([.25, .5] if solver == "bobyqa" else [.25, .5, 1.0]), ratio=rng.choice([1e3, 1e4, 1e5, 1e6]),
                       maximize=rng.choice([0, 1]), scaling=rng.choice([0, 0, 1, 2]), spread=rng.choice([0, .5, 1, 2, 4]), slack=1 if feas else 0 if linear else rng.choice([0, 0, 1]))]
        sessions.append(s + ["direct 0"])
    dfo.check(c, exe, "solved", sessions)


vlib.main("D08", body)
