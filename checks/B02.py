#!/usr/bin/env python3
"""B02: projected directions and free variables (Box.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, boxes


def ops(rng, b, o):
    o = o * rng.choice([1, 1, 2, 7])
    s = ["freevar 3 1 %d 2 %d" % (b, o), "projdir 3 1 %d 2 %d" % (b, o)]
    k = rng.random()
    if k < .4:
        s.append("projdir 2 1 %d 2 %d" % (b, o))
    elif k < .8:
        s.append("freevar 2 1 %d 2 %d" % (b, o))
    return s


def body(c):
    boxes.standard(c, ops, True, "direction", 5000 if c.thorough else 600)


vlib.main("B02", body)
