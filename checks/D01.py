#!/usr/bin/env python3
"""D01: direct, reverse-communication and restarted runs are the same run (Dfo.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, dfo


def body(c):
    rng = c.rng
    g = dfo.Gen(rng)
    dfo.model(c, 7 if c.thorough else 5)
    exe = c.build("dfo", "dfo", libs=dfo.LIBS)
    behs = dfo.behaviours(c, 900 if c.thorough else 130)
    sessions = []
    for h in behs:
        # slots 0, 1, 2: workspaces; slots 3, 4, 5: the same problems solved by direct calls
        s = []
        prob = {}
        for op in h:
            if op[0] == "create":
                k, b = op[1], op[2]
                solver = rng.choice(["cobyla", "newuoa"])
                prob[k] = solver
                s += [g.problem(3 + k, solver, maxfun=b, iprint=0, nmax=4, ratio=rng.choice([1, 3, 10, 100, 1000])),
                      "twin %d %d b" % (k, 3 + k) if False else "twin %d %d =" % (k, 3 + k), "direct %d" % (3 + k), "create %d" % k]
            elif op[0] == "createfail":
                s += [g.problem(op[1], rng.choice(["cobyla", "newuoa"])), "createfail %d" % op[1]]
            elif op[0] == "wrong":
                s.append("wrong %d %d" % (op[1], 1 if prob[op[1]] == "newuoa" else 1))
            else:
                s.append(" ".join(str(a) for a in op))
        sessions.append(s + ["delete 0", "delete 1", "delete 2", "leaks"])
    # missing constraints; whole runs, restarted; two workspaces alternating
    for k in range(300 if c.thorough else 40):
        solver = ["cobyla", "newuoa"][k % 2]
        s = [g.problem(3, solver, maxfun=rng.choice([60, 150, 300])), "direct 3", "twin 0 3 =", "create 0",
             "iterate 0 %d" % rng.choice([1, 3, 7, 1000]), "restart 0", "iterate 0 1000", "restart 0", "iterate 0 1000", "iterate 0 1", "restart 0", "iterate 0 4"]
        if solver == "cobyla":
            s += [g.problem(4, solver, m=2, maxfun=50), "direct 4", "twin 1 4 =", "create 1", "iterate 1 3", "wrong 1 2", "iterate 1 1", "restart 1", "iterate 1 1000", "delete 1"]
        sessions.append(s + ["delete 0", "leaks"])
    for k in range(200 if c.thorough else 24):
        s = []
        for j in (0, 1):
            s += [g.problem(3 + j, rng.choice(["cobyla", "newuoa"]), maxfun=80), "direct %d" % (3 + j), "twin %d %d =" % (j, 3 + j), "create %d" % j]
        for t in range(40):
            s.append("iterate %d %d" % (rng.randrange(2), rng.choice([1, 1, 2, 5])))
        sessions.append(s + ["delete 1", "iterate 0 1000", "delete 0", "leaks"])
    for k in range(100 if c.thorough else 16):
        sessions.append([g.damaged(3, "newuoa"), "direct 3", "twin 0 3 =", "create 0", "iterate 0 70", "iterate 0 1000", "restart 0", "iterate 0 1000", "delete 0", "leaks"])
        sessions.append([g.damaged(3, "bobyqa"), "direct 3", "twin 0 3 =", "plain 0"])
    # plain entry points against the general ones
    for k in range(150 if c.thorough else 24):
        solver = ["cobyla", "newuoa", "bobyqa"][k % 3]
        sessions.append([g.problem(3, solver, maxfun=rng.choice([20, 150])), "direct 3", "twin 0 3 =", "plain 0"])
    dfo.check(c, exe, "same", sessions)


vlib.main("D01", body)
