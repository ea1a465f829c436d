#!/usr/bin/env python3
"""B04: creation of bound sets (Box.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, boxes
from boxes import num, nums, SCAL, ARR

TYPES = ["NONE", "VECTOR"] + SCAL + ARR
BAD = ["-1", "8", "99", "1000"]


def describe(rng, t, n, vec, addr, shift):
    """A bound of type t; exact and inexact values."""
    vals = [shift + rng.choice([rng.uniform(-1, 1), rng.randrange(-4, 5) / 4]) for _ in range(n)]
    if not addr or t == "NONE" or t not in TYPES:
        return "%s %d" % (t, addr)
    if t == "VECTOR":
        return "VECTOR 1 %d" % vec
    if t in SCAL:
        return "%s 1 %s" % (t, num(vals[0]))
    return "%s 1 %s" % (t, nums(vals))


def use(rng, b):
    s = ["can %d" % b, "projvar 3 1 %d" % b]
    if rng.random() < .5:
        s += ["freevar 3 2 %d 2 %d" % (b, rng.choice([-1, 1]))]
    return s


def body(c):
    exe = c.build("box", "box", wrap=False)
    r = c.model_check("MCBox", "SPECIFICATION MCSpec\nCONSTANTS\n R = 1\n Emit = FALSE\nINVARIANTS Closest RoomToMove Limits\nCHECK_DEADLOCK FALSE\n")
    rng = c.rng
    sessions = []
    reps = 12 if c.thorough else 3
    for rep in range(reps):
        for lt in TYPES + BAD[:2]:
            for ut in TYPES + BAD[2:]:
                n = rng.randrange(1, 7)
                s = ["reset %d %d %d %d" % (rng.randrange(2), n, rng.randrange(2), rng.choice([n, n, n + 2]))]
                for v in (1, 2, 3):
                    s.append("put %d %s" % (v, nums([rng.uniform(-5, 5) for _ in range(n)])))
                s.append("put 4 " + nums([rng.uniform(-3, -1) for _ in range(n)]))
                s.append("put 5 " + nums([rng.uniform(1, 3) for _ in range(n)]))
                s += ["load", "can 0"]
                # refused creations, then a good one
                for _ in range(rng.randrange(3)):
                    k = rng.randrange(5)
                    la, ua = (lt != "NONE"), (ut != "NONE")
                    l2, u2, lv, uv = lt, ut, 4, 5
                    if k == 0:
                        la = not la
                    elif k == 1:
                        ua = not ua
                    elif k == 2:
                        l2, la, lv = "VECTOR", 1, 6
                    elif k == 3:
                        u2, ua, uv = "VECTOR", 1, 7
                    else:
                        l2, la = rng.choice(BAD), rng.randrange(2)
                    s.append("box 1 1 %s %s" % (describe(rng, l2, n, lv, la, -2), describe(rng, u2, n, uv, ua, 2)))
                s.append("box 2 1 %s %s" % (describe(rng, lt, n, 4, lt != "NONE", -2), describe(rng, ut, n, 5, ut != "NONE", 2)))
                if lt in BAD or ut in BAD:
                    sessions.append(s)
                    continue
                s += use(rng, 2)
                s.append("scribble 2")
                s += use(rng, 2)
                # another set sharing the same vectors, of which the contents changes
                lt2, ut2 = rng.choice(TYPES), rng.choice(TYPES)
                s.append("box 3 1 %s %s" % (describe(rng, lt2, n, 4, lt2 != "NONE", -2), describe(rng, ut2, n, 5, ut2 != "NONE", 2)))
                s += use(rng, 3) + use(rng, 2)
                s.append("fill 4 " + nums([rng.uniform(-3, -1) for _ in range(n)]))
                s.append("fill 5 " + nums([rng.uniform(1, 3) for _ in range(n)]))
                s += use(rng, 2) + ["scribble 3"] + use(rng, 3)
                sessions.append(s)
    boxes.run(c, exe, sessions, "bound sets")


vlib.main("B04", body)
