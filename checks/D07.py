#!/usr/bin/env python3
"""D07: invalid problems are refused, limit cases are not (Dfo.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, dfo


def body(c):
    rng = c.rng
    g = dfo.Gen(rng)
    dfo.model(c)
    exe = c.build("dfo", "dfo", libs=dfo.LIBS)
    sessions = [["reasons 0", "reasons 1", "reasons 2", "null 0", "null 1", "leaks"]]
    for solver in ("cobyla", "newuoa", "bobyqa"):
        modes = ["direct 0", "plain 0"] + (["create 0"] if solver != "bobyqa" else [])
        for mode in modes:
            for k in range(60 if c.thorough else 8):
                lo = 1 if solver == "cobyla" else 2
                n = rng.randrange(lo, 5)
                s = []
                new = lambda: s.append(g.problem(0, solver, n=n, maxfun=30, scaling=0 if mode != "direct 0" else rng.choice([0, 1, 2]), iprint=0, kind=rng.choice([0, 1, 2, 3])))
                def go(edit):
                    new()
                    if edit:
                        s.append("edit 0 " + edit)
                    s.append(mode)
                    if mode == "create 0":
                        s.extend(["iterate 0 1000", "delete 0", "createfail 0"])
                go("")
                for v in (0, -1, -7) + ((1,) if solver != "cobyla" else ()):
                    go("n %d" % v if v != 1 else "n 1 npt 3")
                if solver != "cobyla":
                    go("n 0 npt 2")
                    go("n 1 npt 3")
                if solver == "cobyla":
                    for v in (-1, -5):
                        go("m %d" % v)
                else:
                    full = (n + 1) * (n + 2) // 2
                    for v in (n + 1, n, 0, -3, full + 1, full + 5, n + 2, full):
                        go("npt %d" % v)
                for v in ("0", "-1", "-0.0", "1e-30"):
                    go("rhoend " + v)
                go("rhobeg 0.5 rhoend 0.500001")
                go("rhobeg 0.5 rhoend 0.5")
                go("rhobeg -1 rhoend -2")
                go("rhobeg -1")
                go("rhobeg 0")
                go("rhoend nan")
                go("rhobeg nan")
                go("maxfun 1")
                if mode == "create 0":
                    for v in (0, -1, -100):
                        go("maxfun %d" % v)
                if mode == "direct 0":
                    i = rng.randrange(n)
                    for v in ("0", "-1", "inf", "-inf", "nan", "-0.0"):
                        go("scl %d %s" % (i, v))
                    go("scl 0 1")
                if solver == "bobyqa":
                    i = rng.randrange(n)
                    for v in ("1.999", "0", "-1", "1", "2", "2.001"):
                        # with factors that are powers of two, so that the limit is exact
                        s.append(g.problem(0, solver, n=n, maxfun=30, scaling=0 if mode != "direct 0" else rng.choice([0, 1]), rhobeg=.25, iprint=0))
                        s += ["edit 0 width %d %s" % (i, v), mode]
                # several faults at once
                go("n -1 npt -1 rhoend -1")
                go("rhoend -1 " + ("m -1" if solver == "cobyla" else "npt 0"))
                sessions.append(s + ["leaks"])
    dfo.check(c, exe, "args", sessions, label="session")


vlib.main("D07", body)
