#!/usr/bin/env python3
"""D06: maximizing and scaling are changes of sign and of variables (Dfo.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, dfo


def body(c):
    rng = c.rng
    g = dfo.Gen(rng)
    dfo.model(c, 4)
    exe = c.build("dfo", "dfo", libs=dfo.LIBS)
    sessions = []
    for k in range(1200 if c.thorough else 180):
        solver = ["cobyla", "newuoa", "bobyqa"][k % 3]
        n = rng.randrange(2, 6)
        s = [g.problem(0, solver, n=n, maxfun=rng.choice([2, 5, 9, 30, 100, 200]), scaling=rng.choice([1, 1, 0]), maximize=rng.choice([0, 1]), kind=rng.choice(dfo.KINDS + [8]),
                       ratio=rng.choice([1, 2, 10, 100, 1e4, 1e14]))]
        if k % 4 == 0:
            s = [g.damaged(0, solver, n=n, scaling=rng.choice([1, 1, 0]), maximize=rng.choice([0, 1]))]
        scaled = s[0].split()[7] == "1"
        if solver == "bobyqa" and rng.random() < .5:
            s.append("edit 0 near %d %d %r" % (rng.randrange(n), rng.randrange(2), rng.choice([0, .5, 1, 1.5])))
        if solver == "bobyqa" and rng.random() < .15:
            # bounds too close: what the variables are then
            s.append("edit 0 width %d 1.5" % rng.randrange(n))
        s.append("direct 0")
        for j, t in enumerate(["m", "s", "su", "ms"] if scaled else ["m", "="]):
            s += ["twin %d 0 %s" % (1 + j, t), "direct %d" % (1 + j)]
        sessions.append(s)
    dfo.check(c, exe, "units", sessions)


vlib.main("D06", body)
