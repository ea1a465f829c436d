#!/usr/bin/env python3
"""D09: the derivative-free optimizers are economical (Effort.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, dfo, effort


def body(c):
    cfg = "SPECIFICATION MCSpec\nCONSTANT Longest = %d\nINVARIANTS Whole NeverWronged Detected Joined\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MCEffort", cfg % (30 if c.thorough else 14), workers=4)
    exe = c.build("dfo", "dfo", libs=dfo.LIBS)
    runs = 6000 if c.thorough else 800
    scripts, res = effort.measure(c, exe, runs, 700 if c.thorough else 200)
    traces = []
    for f, s, (rc, t) in zip(effort.FAMILIES, scripts, res):
        if rc != 0:
            k = len(t)
            c.violation("family %s: a run does not end as it should (%s): %s" % (f[0], rc, s[1 + 2 * k] if 2 * k + 1 < len(s) else ""), dict(family=f[0], script=s[:1] + s[1 + 2 * k:3 + 2 * k]))
            return
        traces.append([dict(ev="open", family=f[0])] + [{k: e[k] for k in ("ev", "n", "calls", "miss", "status")} for e in t] + [dict(ev="close", runs=runs)])
    c.notes["runs_measured"] = sum(len(t) - 2 for t in traces)
    c.notes["families"] = len(traces)
    c.sample(scripts[0][1:3])
    c.sample(traces[0][1])

    def means(i):
        t = [e for e in traces[i] if e["ev"] == "effort"]
        return "family %s: " % effort.FAMILIES[i][0] + ", ".join("n=%s: %.1f evaluations, miss %.1f, %d fail" % (
            n or "all", sum(e["calls"] for e in u) / len(u), sum(e["miss"] for e in u) / len(u), sum(e["status"] != "SUCCESS" for e in u))
            for n in (0, 2, 3, 4, 5) for u in [[e for e in t if n in (0, e["n"])]])
    c.validate("TraceEffort", traces, "", shards=7, label="family", timeout=800, describe=means)


vlib.main("D09", body)
