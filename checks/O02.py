#!/usr/bin/env python3
"""O02: the simple driver (Driver.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib

INF = float("inf")
SCAL = ["SCALAR_FLOAT", "SCALAR_DOUBLE"]
ARR = ["STATIC_FLOAT", "STATIC_DOUBLE", "VOLATILE_FLOAT", "VOLATILE_DOUBLE"]


def H(x):
    return "inf" if x == INF else "-inf" if x == -INF else float(x).hex()


def bound(rng, t, addr, n, up):
    m = max(1, n)
    s = 1 if up else -1
    v = [s * rng.choice([0.0, .25, .5, 1.0, 2.0, rng.randrange(1, 40) / 16]) for _ in range(m)]
    if t in ARR:
        v = [s * INF if rng.random() < .1 else a for a in v]
    return "%s %d %s" % (t, addr, " ".join(H(a) for a in v))


def new(rng, alg, etype, n, ls=None, opts=None, lt="NONE", ut="NONE", la=None, ua=None):
    la = lt != "NONE" if la is None else la
    ua = ut != "NONE" if ua is None else ua
    flags = rng.randrange(1, 9) + rng.choice([0, 256, 512, 768])
    return "new %s %s %d %d %d %d %d %d %s %s %s %s" % (
        alg, etype, n, rng.randrange(4) if ls is None else ls, rng.choice([0, 1, 1]) if opts is None else opts,
        flags, rng.randrange(1, 7), rng.random() < .4, H(rng.choice([1e-6, 1e-3, 0])), H(rng.choice([1e20, 2.0, 10.0])),
        bound(rng, lt, la, n, False), bound(rng, ut, ua, n, True))


def good(rng, k):
    etype = ["float", "double"][k % 2]
    n = rng.randrange(1, 9)
    if k % 3 == 0:
        return new(rng, "nlcg", etype, n)
    kinds = ["NONE"] + SCAL + ARR
    if k % 3 == 1 and rng.random() < .5:
        return new(rng, "vmlmb", etype, n)
    return new(rng, "vmlmb", etype, n, lt=rng.choice(kinds), ut=rng.choice(kinds))


def body(c):
    rng = c.rng
    th = c.thorough
    exe = c.build("driver", "driver")
    cfg = ("SPECIFICATION MCSpec\nCONSTANTS\n Depth = %d\n Emit = %s\nINVARIANTS DeadIsError Transparent\nPROPERTY OnlyStartRevives\nCHECK_DEADLOCK FALSE\n")
    c.model_check("MCDriver", cfg % (3, "FALSE"), workers=4)
    n = 2500 if th else 220
    r = c.model_check("MCDriver", cfg.replace("PROPERTY OnlyStartRevives\n", "") % (12, "TRUE"), workers=1, extra=("-simulate", "num=%d" % n, "-depth", "16", "-seed", str(c.seed)))
    behs = vlib.Check.printed(r["out"])
    sessions = []
    for k, h in enumerate(behs):
        s = ["reset", good(rng, k), "problem %d %d" % (rng.randrange(4), rng.randrange(10 ** 9))]
        for op in h:
            op = list(op)
            if op[0] == "start":
                op = ["start", op[1], int(rng.random() < .5), rng.randrange(10 ** 9)]
            s.append(" ".join(str(a) for a in op))
        sessions.append(s + ["end"])
    # complete runs
    for k in range(1500 if th else 150):
        s = ["reset", good(rng, k), "problem %d %d" % (k % 3, rng.randrange(10 ** 9))]
        for _ in range(rng.choice([1, 1, 2])):
            s += ["start %d 1 %d" % (rng.randrange(4), rng.randrange(10 ** 9)), "iter %d %d %d" % (rng.randrange(4), rng.randrange(4), rng.choice([20, 60]))]
        sessions.append(s + ["end"])
    # creations, valid or not
    kinds = ["NONE", "VECTOR"] + SCAL + ARR + ["-1", "8", "100"]
    bad = []
    for lt in kinds:
        for ut in kinds:
            for rep in range(6 if th else 2):
                e = ["float", "double"][rep % 2]
                bad.append(new(rng, "vmlmb", e, rng.randrange(1, 5), lt=lt, ut=ut))
                bad.append(new(rng, rng.choice(["vmlmb", "nlcg"]), e, rng.randrange(1, 5), lt=lt, ut=ut,
                               la=rng.random() < .5, ua=rng.random() < .5))
    for alg in ("nlcg", "vmlmb", "-1", "2", "77"):
        for e in ("float", "double", "-1", "2", "5"):
            for n in (-3, 0, 1, 4):
                bad.append(new(rng, alg, e, n))
                bad.append(new(rng, alg, e, n, opts=2))
                bad.append(new(rng, alg, e, n, lt=rng.choice(kinds), ut="NONE", opts=rng.choice([0, 1, 2])))
    for k in range(0, len(bad), 8):
        s = ["reset", "nothing"]
        for b in bad[k:k + 8]:
            s += [b, "start 0 0", "iter 0 1 2", "end"]
        sessions.append(s)
    rc, out, err = c.run(exe, stdin="\n".join("\n".join(s) for s in sessions) + "\n", timeout=200)
    traces = vlib.split_traces(vlib.parse_ndjson(out))
    if rc != 0:
        k = max(0, len(traces) - 1)
        c.violation("the library crashed or hung (%s) during: %s" % (rc, " ; ".join(sessions[k])[:800]), dict(session=sessions[k]))
        return
    c.sample(sessions[0])
    c.sample(traces[0][:2])
    c.notes["calls_replayed"] = sum(len(t) for t in traces)
    c.validate("TraceDriver", traces, "", shards=6, invariants=["DeadIsError", "Transparent"], label="session",
               describe=lambda i: "session: " + " ; ".join(sessions[i])[:700])


vlib.main("O02", body)
