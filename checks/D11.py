#!/usr/bin/env python3
"""D11: NEWUOA chooses its points by Powell's rules (Newuoa.tla)."""
import concurrent.futures, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib


def body(c):
    rng = c.rng
    c._java()
    exe = c.build("newu", "newu", libs=["newuoa"], wrap=False)
    runs = []
    for k in range(6000 if c.thorough else 220):
        n = rng.choice([2, 2, 2, 3, 3, 4])
        full = (n + 1) * (n + 2) // 2
        npt = rng.choice([2 * n + 1, 2 * n + 1, n + 2, full] + list(range(n + 2, full + 1)))
        rb = rng.choice([1, .5, 2, .3])
        re = rb * rng.choice([1, .5, .1, .01, .001, 1e-4])
        x = [rng.choice([round(rng.uniform(-2, 2), 3), 0]) for _ in range(n)]
        runs.append("run %d %d %d %r %r %d %s %d %d" % (rng.choice([0, 0, 0, 1, 2, 3]), n, npt, rb, re, rng.choice([5, 20, 40, 60, 120] if c.thorough else [5, 20, 40, 60]),
                                                     " ".join(map(repr, x)), rng.randrange(8), rng.randrange(1, 10 ** 6)))

    # every answer sequence of the closed model, given to the implementation
    cfg = "SPECIFICATION MCSpec\nCONSTANTS N = %d NPT = %d Longest = %d Answers = %s Emit = TRUE\nVIEW View\nINVARIANTS Radius Interpolates Symmetric Lagrange StepFits ModelFits LeastKept BestIsLeast Decided LostIfVague Out\nPROPERTIES RadiusFalls\nCHECK_DEADLOCK FALSE\n"
    tables = 0
    for n, m, longest, ans in ([(2, 4, 8, "{0, 1, 3}"), (2, 5, 9, "{0, 1, 3}"), (2, 6, 9, "{0, 1, 3}"), (3, 5, 8, "{0, 1, 3}"), (3, 7, 11, "{0, 1}")] if c.thorough
                               else [(2, 4, 6, "{0, 1, 3}"), (2, 5, 7, "{0, 1}"), (2, 6, 8, "{0, 1}")]):
        r = c.model_check("MCNewuoa", cfg % (n, m, longest, ans), workers=7, timeout=800)
        seqs = sorted({tuple(q) for q in c.printed(r["out"])})
        for q in seqs:
            runs.append("run 0 %d %d 1.0 0.5 %d %s table %d %s" % (n, m, longest + 3, " ".join(["0"] * n), len(q), " ".join(map(str, q))))
        tables += len(seqs)
    c.notes["model_behaviours_replayed"] = tables

    def one(r):
        rc, out, err = c.run(exe, stdin=r + "\n", timeout=60)
        return rc, vlib.parse_ndjson(out)
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        res = [t for part in ex.map(lambda part: [one(r) for r in part], [runs[i:i + 20] for i in range(0, len(runs), 20)]) for t in part]
    for r, (rc, t) in zip(runs, res):
        if rc != 0:
            c.violation("a run of NEWUOA crashes or never ends (%s): %s" % (rc, r[:300]), dict(run=r))
            return
    c.notes["runs"] = len(runs)
    c.notes["evaluations"] = sum(len(t) - 2 for _, t in res)
    c.sample(runs[0])
    c.validate("TraceNewuoa", [t for _, t in res], "", shards=7, label="run", timeout=800, describe=lambda i: runs[i][:300])


vlib.main("D11", body)
