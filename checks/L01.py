#!/usr/bin/env python3
"""L01: protocol of the line searches (LineSearch.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, lnsrch
from lnsrch import H, KINDS


def bad_start(rng):
    f0, g0, stp, lo, hi = rng.uniform(-5, 5), -rng.uniform(.1, 3), 1.0, .25, 4.0
    k = rng.randrange(8)
    if k == 0:
        lo = -rng.choice([1e-300, 1, .5])
    elif k == 1:
        lo, hi = 4.0, 3.0
    elif k == 2:
        stp = .2
    elif k == 3:
        stp = 4.5
    elif k == 4:
        g0 = 0.0
    elif k == 5:
        g0 = 1.0
    elif k == 6:   # several errors: the first one is reported
        lo, hi, g0 = -1.0, -2.0, rng.choice([-1.0, 1.0])
    else:
        lo, hi, stp, g0 = 2.0, 3.0, rng.choice([1.0, 9.0]), rng.choice([-1.0, 2.0])
    return "start " + " ".join(map(H, (f0, g0, stp, lo, hi)))


def edge_start(rng):
    f0, g0 = rng.uniform(-5, 5), -rng.uniform(.1, 3)
    lo, stp, hi = rng.choice([(0, 0, 1), (0, 1, 1), (1, 1, 1), (0, 0, 0), (.5, .5, 2), (.5, 2, 2), (0, 1, float("inf"))])
    return "start " + " ".join(map(H, (f0, -5e-324 if rng.random() < .1 else g0, stp, lo, hi))).replace("inf", "inf")


def body(c):
    rng = c.rng
    th = c.thorough
    sessions = lnsrch.histories(c, 3000 if th else 500, 600 if th else 150)
    # constructors
    s = ["reset", "null"]
    vals = ["0", "-1", "1", "0.5", "0.25", "0.75", "1e-300", "2", "0.999", "nan", "inf", "-inf"]
    for a in vals:
        for b in vals:
            s.append("new backtrack %s %s" % (a, b))
    for m in (-1, 0, 1, 3):
        for _ in range(60):
            s.append("new nonmonotone %d %s %s %s" % (m, rng.choice(vals), rng.choice(vals), rng.choice(vals)))
        for _ in range(10):
            s.append("new nonmonotone %d 1e-4 %s %s" % (m, rng.choice(vals), rng.choice(vals)))
            s.append("new nonmonotone %d %s 0.1 0.9" % (m, rng.choice(vals)))
    for _ in range(100):
        s.append("new csrch %s %s %s" % tuple(rng.choice(vals) for _ in range(3)))
    sessions.append(s)
    # random sequences of calls in any order
    for _ in range(4000 if th else 400):
        kind = rng.choice(KINDS)
        s = ["reset", lnsrch.new_cmd(rng, kind, rng.random() < .5)[0]]
        if rng.random() < .05:
            s.append("null")
        for _ in range(rng.randrange(3, 14)):
            k = rng.random()
            if k < .2:
                s.append(bad_start(rng))
            elif k < .45:
                s.append(lnsrch.start_cmd(rng)[0])
            elif k < .55:
                s.append(edge_start(rng))
            elif k < .65:
                s.append("iterx %s %s %s" % (H(rng.choice([0.0, 1.0, rng.uniform(0, 3)])), H(rng.uniform(-3, 3)), H(rng.uniform(-3, 3))))
            elif k < .8:
                s.append("iter %s %s" % (H(rng.uniform(-9, 9)), H(rng.uniform(-3, 3))))
            elif k < .82 and kind != "csrch":
                s.append("iter inf inf")
            elif k < .9:
                s.append(lnsrch.func_cmd(rng, rng.randrange(1, 5)))
            else:
                s.append("adv %d %d %d" % (rng.randrange(10 ** 9), rng.randrange(5), rng.randrange(1, 9)))
        sessions.append(s)
    lnsrch.run(c, sessions, "protocol", "line search")


vlib.main("L01", body)
