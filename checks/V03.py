#!/usr/bin/env python3
"""V03: VMLMB memory and directions (Vmlmb.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, optim


def body(c):
    optim.vmlmb(c, "memory")


vlib.main("V03", body)
