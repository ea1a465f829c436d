#!/usr/bin/env python3
"""B01: projection of the variables onto bounds (Box.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, boxes


def ops(rng, b, o):
    if rng.random() < .5:
        return ["projvar 3 1 %d" % b, "projvar 3 3 %d" % b]
    return ["projvar 1 1 %d" % b, "projvar 3 1 %d" % b]


def body(c):
    boxes.standard(c, ops, False, "projection", 6000 if c.thorough else 700)


vlib.main("B01", body)
