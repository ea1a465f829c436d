#!/usr/bin/env python3
"""G01: the trust region subproblem (Gqt.tla)."""
import math, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib


def body(c):
    rng = c.rng
    cfg = "SPECIFICATION MCSpec\nINVARIANTS Theorem Printed\nCHECK_DEADLOCK FALSE\n"
    r = c.model_check("MCGqt", cfg, workers=4)
    exe = c.build("gqt", "gqt", libs=["gqtpar", "linalg", "utils"])
    grid = vlib.Check.printed(r["out"])
    grid.sort()
    rng.shuffle(grid)
    calls = []
    for k, g in enumerate(grid[:20000 if c.thorough else 900]):
        a, cc, d = g[0], g[1], g[2]
        lmin = (a + d) / 2 - math.sqrt(((a - d) / 2) ** 2 + cc * cc)
        calls.append("two %d %s %r %r %d" % (k % 3 == 0, " ".join(map(str, g)), lmin, rng.choice([.1, 1e-2, 1e-3]), rng.choice([100, 100, 100, 1, 2, 3])))
    for k in range(20000 if c.thorough else 1500):
        single = rng.choice([0, 0, 1])
        n = rng.choice([1, 2, 3, 4, 5, 6, 8])
        calls.append("gqt %d %d %d %d %r %r %r %d %r %d %d" % (
            single, n, rng.choice([0, 0, 1, 3]), k % 10, rng.choice([1, 1, 1, .01, 100]),
            rng.choice([.1, .1, 1e-2, 1e-3] + ([] if single else [1e-4, 1e-6])), rng.choice([0, 0, 0, 1e-3, .1]), rng.choice([100, 100, 200, 1, 2, 3, 5]),
            rng.choice([0, 0, 0, .5, 2, 10, -1]), rng.choice([0, 0, 0, 0, 1, 2, 4, 7]), rng.randrange(1, 10 ** 9)))
    for k in range(4000 if c.thorough else 400):
        calls.append("estsv %d %d %d %d %d" % (rng.choice([0, 1]), rng.choice([1, 2, 3, 4, 5, 6, 8]), rng.choice([0, 2]), k % 4, rng.randrange(1, 10 ** 9)))
    rc, out, err = c.run(exe, stdin="".join("reset\n%s\n" % s for s in calls))
    traces = vlib.split_traces(vlib.parse_ndjson(out))
    if rc != 0 or len(traces) != len(calls):
        k = max(0, len(traces) - 1)
        c.violation("the solver crashes or hangs (%s) in: %s" % (rc, calls[k]), dict(call=calls[k]))
        return
    if os.environ.get("GQT_STATS"):
        import collections
        print(collections.Counter((s.split()[4] if s[0] == "g" else s.split()[0], e["info"]) for s, t in zip(calls, traces) for e in t if e["ev"] == "gqt"))
    c.notes["calls_checked"] = len(calls)
    c.sample(calls[0])
    c.sample(calls[-1])
    c.validate("TraceGqt", traces, "", shards=7, label="call", timeout=800, describe=lambda i: "call: " + calls[i])


vlib.main("G01", body)
