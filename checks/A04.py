#!/usr/bin/env python3
"""A04: operands of different spaces, error handlers and operators (Algebra.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, vectors, boxes


def body(c):
    exe = c.build("vectors", "vectors", wrap=False)
    mix = vectors.calls(c, ["0", "2.5", "1"] if c.thorough else ["0", "2.5"], mix=True)
    good = [k for k in vectors.calls(c, ["0", "2.5"], mix=False) if k[0] != "vaxpbypcz"]
    rng = c.rng
    big = [k for k in mix if k[0] == "vaxpbypcz"]
    rest = [k for k in mix if k[0] != "vaxpbypcz"]
    c.notes["mixed_calls"] = len(mix)
    todo = rest * 2 + (big if c.thorough else rng.sample(big, 1800))
    rng.shuffle(todo)
    # operators: every mode, set of methods, pair of spaces, operands, outcome
    app = ["apply %d %d %d %d %d %d %d %d" % (m, meth, i, o, d, x, f, 0)
           for m in range(3) for meth in range(8) for i in (1, 2) for o in (1, 2)
           for d in (0, 1, 2, 4) for x in (0, 1, 3, 4, 5) for f in (0, 1)]
    app += ["apply %d 7 1 2 1 4 0 1" % m for m in range(3)]
    c.notes["operator_calls"] = len(app)
    if not c.thorough:
        app = rng.sample(app, 900)
    sessions = []

    def start():
        t1, t2 = rng.randrange(2), rng.randrange(2)
        n1 = rng.randrange(1, 7)
        n2 = n1 if rng.random() < .6 else rng.randrange(1, 7)
        return ["reset %d %d %d %d %d %d" % (t1, n1, t2, n2, rng.randrange(64), rng.randrange(10**9)), "load 1 0"]

    def handlers(k):
        """A random use of the handlers, ending with one of the client's."""
        s = []
        for _ in range(k):
            h = rng.choice(["h1", "h2", "null", "h1", "h2"])
            s.append("sethandler " + h)
            if h == "null":
                if rng.random() < .15:
                    s.append("throwdefault")
            else:
                s += ["throw m%d" % rng.randrange(1000) for _ in range(rng.randrange(3))]
        s.append("sethandler " + rng.choice(["h1", "h2"]))
        return s
    step = 60
    for i in range(0, len(todo), step):
        s = start() + handlers(rng.randrange(4))
        for k in todo[i:i + step]:
            s.append(" ".join(str(x) for x in k))
            r = rng.random()
            if r < .06:
                s += handlers(rng.randrange(3))
            elif r < .16:
                s.append("load 1 0")
                s.append(" ".join(str(x) for x in rng.choice(good)))
                s.append("load 1 0")
        sessions.append(s)
    for i in range(0, len(app), step):
        sessions.append(start() + ["sethandler h1"] + app[i:i + step])
    vectors.run(c, exe, sessions, "calls mixing spaces")
    # bound sets: every choice of operands in both spaces, or missing
    box = c.build("box", "box", wrap=False)
    calls = ["projvar %d %d %d" % (d, x, b) for d in (0, 3, 6) for x in (0, 1, 7) for b in (0, 1, 2)]
    calls += ["%s %d %d %d %d %d" % (op, d, x, b, e, rng.choice([-1, 1])) for op in ("projdir", "freevar")
              for d in (0, 3, 6) for x in (0, 1, 7) for b in (0, 1, 2) for e in (0, 2, 6)]
    calls += ["steplim %d %d %d 1 7" % (x, b, e) for x in (0, 1, 7) for b in (0, 1, 2) for e in (0, 2, 6)]
    c.notes["calls_on_bound_sets"] = len(calls)
    bs = []
    for rep in range(4 if c.thorough else 1):
        rng.shuffle(calls)
        for i in range(0, len(calls), 30):
            n = rng.randrange(1, 5)
            m = rng.choice([n, n, n + 1])
            comps = [(-1.0, 2.0, rng.choice([-1.0, 0.5, 2.0]), rng.choice([-1.0, 0.0, 1.0])) for _ in range(n)]
            s, k = boxes.session(rng, comps, lambda r, b: [], n2=m)
            k = next(j for j, t in enumerate(s) if t == "load")
            s[k:k] = ["put %d %s" % (v, boxes.nums([rng.choice([-1.0, 0.5, 1.5]) for _ in range(m)])) for v in (6, 7)]
            s.append("box 2 2 SCALAR_DOUBLE 1 -1.0 SCALAR_FLOAT 1 2.0")
            bs.append(s + calls[i:i + 30])
    boxes.run(c, box, bs, "bound sets of other spaces")


vlib.main("A04", body)
