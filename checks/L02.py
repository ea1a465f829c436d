#!/usr/bin/env python3
"""L02: stopping conditions of the line searches (LineSearch.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, lnsrch
from lnsrch import H, KINDS


def threshold(rng, kind, p, mem, st):
    """Answers placed exactly at, just below and just above the thresholds at the first step."""
    f0, g0, stp, lo, hi = st
    ftol = p[1] if kind == "nonmonotone" else p[0]
    ref = max(mem) if kind == "nonmonotone" else f0
    ft = ref + ftol * stp * g0
    eps = 2.0 ** -40
    f = ft + rng.choice([0, eps, -eps, .25, -.25, 0, 0])
    if kind == "nonmonotone" and rng.random() < .2:
        f = rng.choice(mem) + ftol * stp * g0
    g = rng.choice([1, -1]) * p[1] * g0 + rng.choice([0, 0, eps, -eps]) if kind == "csrch" else g0
    if kind == "csrch" and rng.random() < .2:
        g = ftol * g0 + rng.choice([0, eps, -eps])
    return f, g


def body(c):
    rng = c.rng
    th = c.thorough
    sessions = lnsrch.histories(c, 4000 if th else 700, 800 if th else 200)
    for _ in range(6000 if th else 700):
        kind = rng.choice(KINDS)
        cmd, p = lnsrch.new_cmd(rng, kind, True)
        s = ["reset", cmd]
        mem = []
        for _ in range(rng.randrange(1, 8)):
            cmd, st = lnsrch.start_cmd(rng, True)
            s.append(cmd)
            mem.append(st[0])
            if kind == "nonmonotone":
                mem = mem[-p[0]:]
            f, g = threshold(rng, kind, p, mem, st)
            s.append("iter %s %s" % (H(f), H(g)))
            k = rng.random()
            if k < .3:
                s.append("adv %d %d %d" % (rng.randrange(10 ** 9), rng.randrange(5), rng.randrange(1, 6)))
            elif k < .5:
                s.append(lnsrch.func_cmd(rng, 6))
        sessions.append(s)
    for _ in range(3000 if th else 300):
        s = ["reset", lnsrch.new_cmd(rng, rng.choice(KINDS))[0]]
        for _ in range(rng.randrange(1, 5)):
            s.append(lnsrch.start_cmd(rng)[0])
            s.append(lnsrch.func_cmd(rng, 30) if rng.random() < .6 else "adv %d %d 30" % (rng.randrange(10 ** 9), rng.randrange(5)))
        sessions.append(s)
    lnsrch.run(c, sessions, "stop", "line search")


vlib.main("L02", body)
