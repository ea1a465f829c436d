#!/usr/bin/env python3
"""A02: vectors wrapping memory of the client (Wrap.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib

CFG = """SPECIFICATION MCSpec
CONSTANTS
 V = {1, 2}
 M = {1, 2}
 N = 3
 MaxOps = %d
 MaxRefs = 2
 CbUsed = {%s}
 CdUsed = {%s}
INVARIANTS TypeOK Owed
VIEW View
ACTION_CONSTRAINT EmitStep
CHECK_DEADLOCK FALSE
"""


def body(c):
    exe = c.build("wrap", "wrap", wrap=False)
    r = c.model_check("MCWrap", CFG % (6 if c.thorough else 5, "0, 1, 2", "0, 1" if not c.thorough else "0, 1, 2"), workers=1)
    behs = vlib.Check.printed(r["out"])
    keys = sorted(tuple(tuple(op) for op in h) for h in behs)
    behs = [list(k) for k, n in zip(keys, keys[1:] + [()]) if n[:len(k)] != k]
    c.notes["behaviours_of_the_model"] = len(behs)
    limit = 30000 if c.thorough else 2500
    if len(behs) > limit:
        behs = c.rng.sample(behs, limit)
    # long random histories, with uses of the vectors and refused calls
    rng = c.rng
    for _ in range(3000 if c.thorough else 300):
        refs = {}
        h = []
        for _ in range(rng.randrange(10, 60)):
            alive = [v for v in refs if refs[v] > 0]
            k = rng.random()
            v = rng.choice(alive) if alive else 0
            if (k < .15 or not alive) and len(alive) < 4:
                v = rng.choice([u for u in (1, 2, 3, 4) if refs.get(u, 0) == 0])
                refs[v] = 1
                h.append(["wrap", v, rng.randrange(1, 4), rng.randrange(3), rng.randrange(3)])
            elif k < .4:
                h.append(["rewrap", v, rng.randrange(1, 4), rng.randrange(3), rng.randrange(3)])
            elif k < .5:
                refs[v] += 1
                h.append(["hold", v])
            elif k < .65:
                refs[v] -= 1
                h.append(["drop", v])
            elif k < .72:
                h.append(["fill", v, rng.randrange(-9, 9)])
            elif k < .8:
                h.append(["poke", v, rng.randrange(1, 4), rng.randrange(-9, 9)])
            elif k < .86:
                h.append(["peek", v, rng.randrange(1, 4)])
            elif k < .93:
                h.append(["copy", v, rng.choice(alive)])
            else:
                h.append(["badwrap", v, rng.randrange(6)])
        behs.append(h)
    lines = []
    full = []
    for h in behs:
        refs = {}
        for op in h:
            if op[0] == "wrap":
                refs[op[1]] = 1
            elif op[0] == "hold":
                refs[op[1]] += 1
            elif op[0] == "drop":
                refs[op[1]] -= 1
        h = [list(op) for op in h] + [["drop", v] for v in refs for _ in range(refs[v])]
        full.append(h)
        lines.append("reset %d" % rng.randrange(2))
        lines += [" ".join(str(x) for x in op) for op in h] + ["end"]
    rc, out, err = c.run(exe, stdin="\n".join(lines) + "\n")
    traces = vlib.split_traces(vlib.parse_ndjson(out))
    if rc != 0:
        k = max(0, len(traces) - 1)
        c.violation("the library crashed or hung (%s) while replaying %s" % (rc, full[k]), dict(behaviour=full[k]))
        return
    c.sample(full[0])
    c.sample(full[-1])
    c.notes["calls_replayed"] = sum(len(t) for t in traces)
    c.validate("TraceWrap", traces, "CONSTANTS\n V = {1, 2, 3, 4}\n M = {1, 2, 3}\n N = 3\n", shards=7,
               invariants=["Owed"], label="history", describe=lambda i: "calls: %s" % full[i])


vlib.main("A02", body)
