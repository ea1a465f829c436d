#!/usr/bin/env python3
"""A03: vector algebra (Algebra.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, vectors


def body(c):
    exe = c.build("vectors", "vectors", wrap=False)
    scal = ["0", "1", "-1", "2.5", "-0.5"] if c.thorough else ["0", "1", "-1", "2.5"]
    calls = vectors.calls(c, scal, mix=False)
    c.notes["distinct_calls"] = len(calls)
    rng = c.rng
    sessions = []
    sizes = [1, 2, 3, 4, 5, 7, 8, 9, 16, 17]
    todo = []
    big = [k for k in calls if k[0] == "vaxpbypcz"]
    rest = [k for k in calls if k[0] != "vaxpbypcz"]
    reps = 6 if c.thorough else 2
    for _ in range(reps):
        todo += [(k, t) for k in rest for t in (0, 1)]
        todo += [(k, t) for k in big for t in ((0, 1) if c.thorough else (rng.randrange(2),))] if _ == 0 or c.thorough else []
    rng.shuffle(todo)
    for t in (0, 1):
        ops = [k for k, tt in todo if tt == t]
        step = 120
        for i in range(0, len(ops), step):
            n = sizes[(i // step) % len(sizes)] if rng.random() < .8 else rng.randrange(1, 34)
            s = ["reset %d %d %d %d %d %d" % (t, n, t, n, rng.randrange(64), rng.randrange(10**9))]
            for k in ops[i:i + step]:
                nan = 0
                src = vectors.sources(k)
                if k[1] not in src and k[0] != "vswap" and rng.random() < .3:
                    nan = k[1]     # what the destination contained does not matter
                s.append("load %d %d" % (1 if rng.random() < .85 else 0, nan))
                s.append(" ".join(str(x) for x in k))
                if rng.random() < .25:
                    s.append("load 1 0")
                    for _ in range(rng.randrange(1, 4)):
                        s += vectors.access(rng, n)
            sessions.append(s)
    vectors.run(c, exe, sessions, "vector operations")


vlib.main("A03", body)
