#!/usr/bin/env python3
"""F01: minimization of functions of one variable (Fmin.tla)."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib

SAFE = [0, 0, 1, 1, 2, 3, 3, 4, 5, 6, 7, 11, 12, 13, 14, 15]     # an end is found without limits nor bounds


def body(c):
    rng = c.rng
    cfg = "SPECIFICATION MCSpec\nCONSTANTS\n N = %d\n Top = %d\n Inf = %d\n Depth = 3\n Emit = FALSE\n Lt <- ILt\nINVARIANTS SoundInv InsideInv BestInv LeftOut Few FewIn\nPROPERTIES Shrinks\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MCFmin", cfg % ((6, 3, 3) if c.thorough else (4, 3, 3)), workers=6)
    r = c.model_check("MCFmin", "SPECIFICATION ESpec\nCONSTANTS\n N = 1\n Top = 1\n Inf = 1\n Depth = 14\n Emit = TRUE\n Lt <- ILt\nCHECK_DEADLOCK FALSE\n",
                      workers=1, extra=("-simulate", "num=%d" % (1500 if c.thorough else 200), "-depth", "20", "-seed", str(c.seed)))
    exe = c.build("fmin", "fmin", libs=["fmin"], wrap=False)

    def func(kinds):
        k = rng.choice(kinds)
        cc = rng.choice([0.0, 0.0, 1.0, -1.0, 12.5, rng.uniform(-3, 3), rng.gauss(0, 100), 1e6, -1e-6, .1])
        return k, cc, "func %d %r %r %r" % (k, cc, rng.choice([1.0, 1.0, 1.0, 1e-3, 1e6, 1e-150, 1e100]), float(rng.randrange(10 ** 6)))

    def interval(cc):
        sc = rng.choice([1, 1, 1, 10, 1e-3, 1e-8, 1e6])
        w = rng.choice(["around", "around", "left", "right", "end", "any", "near", "zero"])
        p, q = sorted(abs(rng.gauss(0, 1)) * sc + 1e-30 for _ in "ab")
        a, b = {"around": (cc - p, cc + q), "left": (cc - p - q, cc - p), "right": (cc + p, cc + p + q), "end": (cc, cc + q),
                "any": (rng.gauss(0, sc), rng.gauss(0, sc)), "near": (cc, math.nextafter(cc, math.inf) if rng.random() < .3 else cc + abs(cc) * 1e-15 + 1e-300), "zero": (-p, 0.0)}[w]
        if rng.random() < .04:
            b = a
        return (a, b) if rng.random() < .5 else (b, a)

    PREC = [-1.0, -1.0, 1e-3, 1e-8, .1, 1e-12, 0.0]
    sessions = []
    for _ in range(3000 if c.thorough else 330):
        any_ = rng.random() < .4
        k, cc, line = func(range(16) if any_ else SAFE)
        a, b = interval(cc)
        fl = rng.choice([0, 0, 1, 2, 3, 3, rng.randrange(8)])
        mx = rng.choice([-1, -1, 20, 60, 5])
        if k in (8, 9, 10):
            if rng.random() < .5:
                fl |= 3
            else:
                mx = rng.choice([0, 1, 2, 3, 4, 7, 30])
        elif rng.random() < .25:
            mx = rng.choice([0, 1, 2, 3, 4, 5, 6, 9])
        p = rng.choice(PREC)
        if cc == 0 and rng.random() < .85 or k == 6:      # (a precise minimum at zero takes thousands of steps)
            mx = mx if mx >= 0 else 150
        args = "%r %r %d %d %r" % (a, b, fl, mx, p)
        s = [line, "min 0 " + args, "min 1 " + args]
        if a != b and (k not in (8, 9, 10) or fl & 3 == 3):
            s += ["new", "prec %r" % (p if p >= 0 else 2.0 ** -26), "start %r %r %d" % (a, b, fl), "next %d" % (s and 200), "final"]
        sessions.append(s)
    for h in vlib.Check.printed(r["out"]):
        k, cc, line = func(SAFE)
        s, last = [line, "new"], None
        for op, v in h:
            if op == "start" or op == "same" and last is None:
                a, b = interval(cc)
                last = "start %r %r %d" % (a, b, rng.choice([v, v, v + 4, v + 8]))
                s.append(last)
            elif op == "same":
                s.append(last)
            elif op == "prec":
                s.append("prec %r" % (10.0 ** -v if v > 0 else rng.choice([0.0, -1.0, .1])))
            else:
                s.append("%s %d" % (op, v))
        sessions.append(s + ["nocontext"])
    rc, out, err = c.run(exe, stdin="\n".join("\n".join(["reset"] + s) for s in sessions) + "\n")
    traces = vlib.split_traces(vlib.parse_ndjson(out))
    if rc != 0 or len(traces) != len(sessions):
        k = max(0, len(traces) - 1)
        c.violation("search crashes or hangs (%s) in session %s" % (rc, " ; ".join(sessions[k])[:600]), dict(session=sessions[k]))
        return
    c.notes["searches"] = sum(1 for t in traces for e in t if e["ev"] in ("end", "start"))
    c.notes["evaluations_checked"] = sum(1 for t in traces for e in t if e["ev"] in ("eval", "next"))
    c.sample(sessions[0])
    c.sample(sessions[-1])
    # searches which never end are cut
    for i, t in enumerate(traces):
        if len(t) > 12000:
            traces[i] = t[:100] + [e for e in t[100:] if e["ev"] == "end"][:1]
    c.validate("TraceFmin", traces, "", shards=7, label="search", timeout=800, describe=lambda i: "session: " + " ; ".join(sessions[i])[:900])


vlib.main("F01", body)
