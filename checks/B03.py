#!/usr/bin/env python3
"""B03: limits of the step length (Box.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, boxes


def ops(rng, b, o):
    o = o * rng.choice([1, 1, 2, 7])
    s = ["steplim 1 %d 2 %d 7" % (b, o)]
    if rng.random() < .5:
        s.append("steplim 1 %d 2 %d %d" % (b, o, rng.randrange(8)))
    if rng.random() < .5:
        # projected first: the two smallest steps are then the same
        s += ["projdir 2 1 %d 2 %d" % (b, o), "steplim 1 %d 2 %d 7" % (b, o)]
    return s


def body(c):
    boxes.standard(c, ops, True, "step limits", 5000 if c.thorough else 600)


vlib.main("B03", body)
