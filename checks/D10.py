#!/usr/bin/env python3
"""D10: COBYLA moves its simplex by Powell's rules (Cobyla.tla)."""
import concurrent.futures, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib


def body(c):
    rng = c.rng
    c._java()
    exe = c.build("cob", "cob", libs=["cobyla"], wrap=False)
    runs = []
    for k in range(16000 if c.thorough else 600):
        n = rng.choice([1, 2, 2, 2, 3, 3, 4])
        m = rng.choice([0, 0, 1, 2, 3, 3, 4])
        kind = rng.randrange(16)
        rb = rng.choice([1, .5, 2, .3])
        re = rb * rng.choice([1, .5, .1, .01, .001, 1e-4])
        x = [rng.choice([round(rng.uniform(-2, 2), 3), 0]) for _ in range(n)]
        runs.append("run %d %d %r %r %d %s %d %d" % (n, m, rb, re, rng.choice([1, 2, 5, 20, 40, 60, 120]), " ".join(map(repr, x)), kind, rng.randrange(1, 10 ** 6)))

    # every answer sequence of the closed model, given to the implementation
    cfg = "SPECIFICATION MCSpec\nCONSTANTS N = %d M = %d Longest = %d Emit = TRUE\nVIEW View\nINVARIANTS Radius Penalty StepFits StepHopes GeometryHelps PoleIsBest LeastKept Decided NeverLost Out\nPROPERTIES RadiusFalls Alternate\nCHECK_DEADLOCK FALSE\n"
    tables = 0
    for n, m, longest in [(1, 0, 7), (2, 0, 6), (1, 1, 6), (2, 1, 5), (1, 2, 4)] if c.thorough else [(1, 0, 6), (2, 0, 5), (1, 1, 4), (2, 1, 4)]:
        r = c.model_check("MCCobyla", cfg % (n, m, longest), workers=7, timeout=800)
        seqs = sorted({tuple((tuple(e["c"]), e["f"]) for e in q) for q in c.printed(r["out"])})
        for q in seqs:
            runs.append("run %d %d 1.0 0.5 %d %s table %d %s" % (n, m, longest + 3, " ".join(["0"] * n), len(q), " ".join(" ".join(map(str, k + (f,))) for k, f in q)))
        tables += len(seqs)
    c.notes["model_behaviours_replayed"] = tables

    def one(r):
        rc, out, err = c.run(exe, stdin=r + "\n", timeout=60)
        return rc, vlib.parse_ndjson(out)
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        res = [t for part in ex.map(lambda part: [one(r) for r in part], [runs[i:i + 20] for i in range(0, len(runs), 20)]) for t in part]
    for r, (rc, t) in zip(runs, res):
        if rc != 0:
            c.violation("a run of COBYLA crashes or never ends (%s): %s" % (rc, r[:300]), dict(run=r))
            return
    c.notes["runs"] = len(runs)
    c.notes["evaluations"] = sum(len(t) - 2 for _, t in res)
    c.sample(runs[0])
    c.validate("TraceCobyla", [t for _, t in res], "", shards=7, label="run", timeout=800, describe=lambda i: runs[i][:300])


vlib.main("D10", body)
