#!/usr/bin/env python3
"""S01: the optimizers solve strongly convex problems (Solve.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib

INF = float("inf")


def H(x):
    return "inf" if x == INF else "-inf" if x == -INF else float(x).hex()


def problem(rng, big):
    n = rng.choice([1, 2, 3, 4, 5, 8, 12] + ([20, 30] if big else []))
    alg = rng.choice([0, 1, 1])                    # 0: conjugate gradients, 1: variable metric
    single = rng.random() < .4
    cond = 10 ** rng.uniform(0, 2)
    a = [cond ** rng.random() for _ in range(n)]
    if single:                                     # exactly represented
        a = [round(v * 1024) / 1024 for v in a]
    c = [round(rng.uniform(-2, 2) * 64) / 64 for _ in range(n)]
    x0 = [ci + rng.choice([-1, 1]) * round(rng.uniform(.5, 4) * 256) / 256 for ci in c]
    lo, up, lam, lok, upk = [-INF] * n, [INF] * n, [0.] * n, 0, 0
    if alg and rng.random() < .6:
        lok, upk = rng.choice([(1, 0), (0, 1), (1, 1)])
        for i in range(n):
            if lok:
                k = rng.random()
                if k < .4:
                    lo[i], lam[i] = c[i], rng.choice([0, .125, 1, 10])
                elif k < .8:
                    lo[i] = c[i] - rng.choice([.25, 1, 5])
            if upk:
                k = rng.random()
                if k < .4 and lo[i] != c[i]:
                    up[i], lam[i] = c[i], -rng.choice([0, .125, 1, 10])
                elif k < .8:
                    up[i] = c[i] + rng.choice([.25, 1, 5])
    lsk = 0 if alg == 0 else rng.choice([0, 0, 1, 2] if lok or upk else [0, 0, 1, 2, 3])
    p = {0: [0, 0, 0], 1: [1e-4, .1, 0], 2: [1e-4, .1, .9], 3: [rng.choice([1e-4, .05]), rng.choice([.1, .5, .9]), 1e-17]}[lsk]
    flags = rng.randrange(1, 9) | rng.choice([0, 256]) | rng.choice([0, 512, 512])
    return "solve %d %d %d %d %d %d %d %d %s %s %s %s %d %d %s %s %s %s %s %d %d %s" % (
        alg, single, n, 400 if alg else 600, flags, rng.randrange(1, 8), rng.random() < .4, rng.random() < .5,
        H(rng.choice([1e-3, .1] if alg == 0 else [0, 1e-3, .1])), H(0), H(1e-3 if single else rng.choice([1e-6, 1e-4, 1e-8])), H(rng.choice([.01, 5e-2])),
        lsk, rng.randrange(1, 6), *map(H, p), H(rng.choice([0, .5, 3])), H(rng.choice([0, 0, .125, 1])), lok, upk,
        " ".join(H(v) for v in x0 + c + a + lam + lo + up))


def body(c):
    rng = c.rng
    cfg = "SPECIFICATION Spec\nCONSTANTS\n R = 2\nINVARIANTS SolutionIsC Certificate StationaryIsSolution Convex Projection\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MCSolve", cfg, workers=4)
    exe = c.build("solve", "solve", libs=["algebra", "dblvector", "driver", "fltvector", "lnsrch", "nlcg", "utils", "vmlmb", "linalg"], wrap=False)
    calls = [problem(rng, c.thorough) for _ in range(20000 if c.thorough else 1200)]
    rc, out, err = c.run(exe, stdin="".join("reset\n%s\n" % s for s in calls))
    traces = vlib.split_traces(vlib.parse_ndjson(out))
    if rc != 0 or len(traces) != len(calls):
        k = max(0, len(traces) - 1)
        c.violation("the optimizer crashes or hangs (%s) in: %s" % (rc, calls[k]), dict(call=calls[k]))
        return
    c.notes["runs_checked"] = len(calls)
    c.sample(calls[0])
    c.sample(calls[-1])
    c.validate("TraceSolve", traces, "", shards=7, label="run", timeout=800, describe=lambda i: "run: " + calls[i])


vlib.main("S01", body)
