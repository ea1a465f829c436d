#!/usr/bin/env python3
"""A05: failing allocations (Alloc.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib


def body(c):
    exe = c.build("alloc", "alloc", libs=vlib.LIBOPK + ["newuoa", "cobyla"])
    c.model_check("MCAlloc", "SPECIFICATION MCSpec\nCONSTANTS NArgs = 2 MaxSteps = %d\nINVARIANTS RefusedIsClean CreatedHolds\nCHECK_DEADLOCK FALSE\n" % (10 if c.thorough else 7))
    ncase = 46
    traces = []
    for k in range(ncase):
        rc, out, err = c.run(exe, [k, k + 1], timeout=60)
        lines = [l for l in out.splitlines() if l.endswith("}")]
        evs = vlib.split_traces(vlib.parse_ndjson("\n".join(lines)))
        if rc != 0:
            last = out.splitlines()[-1] if out else ""
            prev = evs[0][-1].get("name") if evs and evs[0] else ""
            c.violation("crash or hang (%s) when an allocation fails in constructor %d (%s): %s" % (rc, k, prev, last), dict(case=k, log=out[-2000:]), key="crash-%d" % k)
            if evs and evs[0]:
                traces.append(evs[0])
            continue
        traces += evs
    n = sum(1 for t in traces for e in t if e["ev"] == "create" and e["failed"])
    c.notes["evaluations"] = n
    c.notes["distinct_nontrivial"] = len(set((e["case"], e["at"]) for t in traces for e in t if e["ev"] == "create" and e["failed"]))
    c.notes["rule"] = "one case per constructor, variant of its arguments and index of the allocation made to fail; non-trivial: the allocation was reached and failed"
    c.notes["exhaustive"] = True
    c.sample(traces[-3][:3])
    c.validate("TraceAlloc", traces, "", shards=4, label="construction",
               describe=lambda i: "constructor: %s" % next((e["name"] for e in traces[i] if "name" in e), "?"), max_reports=10)


vlib.main("A05", body, level="fault_enumeration")
