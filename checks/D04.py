#!/usr/bin/env python3
"""D04: BOBYQA stays within the bounds (Dfo.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, dfo


def body(c):
    rng = c.rng
    g = dfo.Gen(rng)
    dfo.model(c, 4)
    exe = c.build("dfo", "dfo", libs=dfo.LIBS)
    sessions = []
    for k in range(1500 if c.thorough else 260):
        n = rng.randrange(2, 6)
        s = [g.problem(0, "bobyqa", n=n, maxfun=rng.choice([3, 10, 40, 120, 200]), maximize=rng.choice([0, 1]), scaling=rng.choice([0, 0, 1, 2, 2]), rhobeg=rng.choice([.125, .25, .5, .1]),
                       kind=rng.choice(dfo.KINDS + [10]), ratio=rng.choice([1, 2, 10, 100, 1e4, 1e6]))]
        if k % 4 == 0:
            s = [g.damaged(0, "bobyqa", n=n, maximize=rng.choice([0, 1]), scaling=rng.choice([0, 0, 1, 2]), rhobeg=rng.choice([.125, .25]))]
        e = []
        for i in range(n):
            w = rng.random()
            if w < .25:
                e.append("width %d %r" % (i, rng.choice([2, 2.0000001, 2.5, 3, 4, 8, 2.125] if not "noexact" in s[0] else [3])))
            if rng.random() < .6:
                # on, near, at exactly the initial radius of, or beyond a bound
                e.append("near %d %d %r" % (i, rng.randrange(2), rng.choice([-2, -1, -.25, 0, 0, .25, .5, .75, 1, 1, 1.125, 1.5, 2, 3])))
        if e:
            s.append("edit 0 " + " ".join(e))
        s.append("direct 0")
        sessions.append(s)
    dfo.check(c, exe, "bounds", sessions)


vlib.main("D04", body)
