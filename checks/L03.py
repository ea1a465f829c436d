#!/usr/bin/env python3
"""L03: trial steps of the line searches (LineSearch.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, lnsrch
from lnsrch import H, KINDS


def cstep(rng):
    br = rng.random() < .6
    stx = rng.choice([0.0, rng.uniform(0, 5)])
    sty = rng.uniform(0, 6)
    stp = rng.uniform(min(stx, sty), max(stx, sty)) if br or rng.random() < .2 else stx + rng.uniform(-1, 4)
    if rng.random() < .12:
        stp = rng.choice([stx, sty, max(stx, sty) + .5])
    dx = rng.uniform(.01, 3) * (-1 if stp > stx else 1) * (1 if rng.random() < .93 else -1)
    fx = rng.uniform(-3, 3)
    fy = fx + rng.choice([rng.uniform(0, 3), rng.uniform(-1, 1)])
    dy = rng.choice([rng.uniform(-3, 3), -dx * rng.uniform(0, 2)])
    f = fx + rng.choice([rng.uniform(-2, 0), rng.uniform(0, 2), 0.0, -abs(dx) * abs(stp - stx) * rng.uniform(0, 1)])
    g = rng.choice([-dx * rng.uniform(.01, 3), dx * rng.uniform(0, 1), dx * rng.uniform(1, 4), 0.0, dx])
    lo, hi = rng.choice([(0.0, 20.0), (stp - .5, stp + 2), (stp + 1.1 * (stp - stx), stp + 4 * (stp - stx))])
    if rng.random() < .03:
        lo, hi = 3.0, 2.0
    return "cstep %d %s" % (br, " ".join(H(x) for x in (stx, fx, dx, sty, fy, dy, stp, f, g, lo, hi)))


def body(c):
    rng = c.rng
    th = c.thorough
    sessions = lnsrch.histories(c, 4000 if th else 700, 800 if th else 200)
    for _ in range(8000 if th else 600):
        s = ["reset", lnsrch.new_cmd(rng, rng.choice(KINDS))[0]]
        for _ in range(rng.randrange(1, 4)):
            s.append(lnsrch.start_cmd(rng)[0])
            s.append(lnsrch.func_cmd(rng, 40) if rng.random() < .6 else "adv %d %d 40" % (rng.randrange(10 ** 9), rng.randrange(5)))
        sessions.append(s)
    # to the end, however long
    for _ in range(2000 if th else 60):
        s = ["reset", lnsrch.new_cmd(rng, rng.choice(KINDS))[0], lnsrch.start_cmd(rng)[0]]
        s.append(lnsrch.func_cmd(rng, 3000) if rng.random() < .5 else "adv %d %d 3000" % (rng.randrange(10 ** 9), rng.randrange(5)))
        sessions.append(s)
    for _ in range(200 if th else 20):
        sessions.append(["reset"] + [cstep(rng) for _ in range(50)])
    lnsrch.run(c, sessions, "step", "line search")


vlib.main("L03", body)
