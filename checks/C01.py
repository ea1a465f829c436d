#!/usr/bin/env python3
"""C01: linear conjugate gradients (Lcg.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib


def body(c):
    rng = c.rng
    cfg = "SPECIFICATION MCSpec\nCONSTANTS\n Depth = %d\n Emit = %s\nINVARIANTS TypeOK AsksForProducts NoPrecond\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MCLcg", cfg % (9, "FALSE") + "VIEW View\nPROPERTIES Stays StepsOnProducts Forward\n", workers=4)
    r = c.model_check("MCLcg", cfg % (12, "TRUE"), workers=1, extra=("-simulate", "num=%d" % (3000 if c.thorough else 400), "-depth", "16", "-seed", str(c.seed)))
    exe = c.build("lcg", "lcg", libs=["lcg", "linalg", "utils"])

    def problem(pre, tr, k):
        algo = 2 if tr else (1 if pre else rng.choice([0, 1]))
        n = rng.choice([1, 2, 3, 4, 5, 6, 8]) if k % 40 else 0
        ka = rng.choice([0, 0, 0, 0, 1, 1, 2, 3, 4, 5, 6, 7])
        km = rng.choice([0, 0, 0, 5, 5, 0, 1, 2, 3, 4, 7])
        return "problem %d %d %d %d %d %d %d %d %r %r %r %d" % (
            algo, rng.choice([0, 0, 1]), n, pre, rng.choice([0, 0, 1]), ka, km, rng.choice([0, 0, 0, 0, 1, 2, 3, 4]),
            rng.choice([1, 1, 1, 8, .01, 1e4]), rng.choice([1, 1, 4, .01, 100]), rng.choice([.1, .5, 1, 2, 2, 5, 10, 1e3, 1e6]), rng.randrange(1, 10 ** 9))

    sessions = []
    for k, h in enumerate(vlib.Check.printed(r["out"])):
        s = [problem(int(h[0][1]), int(h[0][2]), k + 1), "begin %d" % rng.randrange(2)]
        for a in h[1:]:
            s.append({"call": "call %d" % rng.choice([1, 1, 1, 2, 3]), "radius": "radius %r" % rng.choice([0.0, -1.0, -1e-30])}.get(a[0], "%s %d" % (a[0], a[1] if len(a) > 1 else 0)))
        # nothing is known of the arrays used after a wrong stage: begin again
        sessions.append(s + ["begin 0", "call 6", "stage %d" % rng.choice([-3, 8, 1000]), "call 2"])
    for k in range(6000 if c.thorough else 700):
        tr = rng.choice([0, 1])
        s = [problem(rng.choice([0, 1]), tr, k), "begin %d" % rng.randrange(2), "call %d" % rng.choice([30, 30, 30, 7, 8, 9, 10, 11])]
        if tr and rng.random() < .5:
            s += ["scale %r" % rng.choice([.25, .5, 1, 2, 4, 100])]
        if rng.random() < .7:
            s += ["again", "call 30"]
        sessions.append(s)
    rc, out, err = c.run(exe, stdin="\n".join("\n".join(["reset"] + s) for s in sessions) + "\n")
    traces = vlib.split_traces(vlib.parse_ndjson(out))
    if rc != 0 or len(traces) != len(sessions):
        k = max(0, len(traces) - 1)
        c.violation("conjugate gradients crash or hang (%s) in session %s" % (rc, " ; ".join(sessions[k])[:600]), dict(session=sessions[k]))
        return
    c.notes["sessions"] = len(sessions)
    c.notes["calls_checked"] = sum(1 for t in traces for e in t if e["ev"] == "call")
    c.sample(sessions[0])
    c.sample(sessions[-1])
    c.validate("TraceLcg", traces, "", shards=7, label="CG run", timeout=800, describe=lambda i: "session: " + " ; ".join(sessions[i])[:900])


vlib.main("C01", body)
