#!/usr/bin/env python3
"""A01: lifetime and reference counts of objects (Objects.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib

CFG = """SPECIFICATION MCSpec
CONSTANTS
 Id = {%s}
 MaxOps = %d
 MaxRefs = %d
 Emit = %s
 WithOpt = %s
 MaxSpaces = %d
VIEW View
INVARIANTS TypeOK NoDangling ClientHoldsLive NoLeak AllGone
PROPERTY DeadForever
CHECK_DEADLOCK FALSE
"""


def ids(n):
    return ", ".join(str(i) for i in range(1, n + 1))


def complete(h, rng):
    """Extend a behaviour with the drop of everything still held, in random order."""
    cl = {}
    for op in h:
        if op[0] == "hold":
            cl[op[1]] += 1
        elif op[0] == "drop":
            cl[op[1]] -= 1
        elif op[0] != "run":
            cl[op[1]] = 1
    rest = [o for o, c in cl.items() for _ in range(c)]
    rng.shuffle(rest)
    return h + [["drop", o] for o in rest]


def maximal(behs):
    """Remove the behaviours which are a prefix of another one."""
    keys = sorted(tuple(tuple(op) for op in h) for h in behs)
    return [list(k) for k, n in zip(keys, keys[1:] + [()]) if n[:len(k)] != k]


def body(c):
    exe = c.build("objects", "objects")
    behs = []
    # every transition of the graph of small histories
    r = c.model_check("MCObjects", CFG % (ids(3), 7 if c.thorough else 6, 2, "FALSE", "TRUE", 2) +
                      "ACTION_CONSTRAINT EmitStep\n", workers=1)
    small = maximal(vlib.Check.printed(r["out"]))
    # a larger graph, model only
    c.model_check("MCObjects", CFG % (ids(4), 8 if c.thorough else 6, 2, "FALSE", "TRUE", 2), workers=6)
    # long random histories
    nsim = 1500 if c.thorough else 60
    depth = 45 if c.thorough else 32
    cfg = CFG % (ids(9), depth, 3, "TRUE", "TRUE", 2)
    cfg = cfg.replace("VIEW View\n", "").replace("PROPERTY DeadForever\n", "")
    r = c.tlc("MCObjects", cfg, workers=4,
              extra=["-simulate", "num=%d" % nsim, "-depth", str(depth + 2), "-seed", str(c.seed)])
    if r["rc"] != 0:
        raise vlib.CheckError("simulation failed: " + r["out"][-3000:])
    long_ = vlib.Check.printed(r["out"])
    c.notes["random_histories"] = len(long_)
    c.cov["states"] += r["states"]
    c.cov["transitions"] += r["generated"]
    limit = 40000 if c.thorough else 6000
    if len(small) > limit:
        small = c.rng.sample(small, limit)
    behs = small + long_
    lines = []
    full = []
    for h in behs:
        h = complete([list(x) for x in h], c.rng)
        full.append(h)
        lines.append("reset %d" % c.rng.randrange(32))
        k = c.rng.randrange(len(h) + 1) if c.rng.random() < .1 else -1
        for j, op in enumerate(h):
            lines += (["null"] if j == k else []) + [" ".join(str(x) for x in op)]
        lines.append("end")
    rc, out, err = c.run(exe, stdin="\n".join(lines) + "\n", timeout=300)
    traces = vlib.split_traces(vlib.parse_ndjson(out))
    if rc != 0:
        k = max(0, len(traces) - 1)
        c.violation("the library crashed or hung (%s) while replaying a behaviour: %s" % (rc, full[k]), dict(behaviour=full[k]))
        return
    c.sample(full[len(full) // 3])
    c.sample(full[-1])
    c.notes["behaviours_replayed"] = len(traces)
    c.notes["calls_replayed"] = sum(len(t) for t in traces)
    c.notes["longest_behaviour"] = max(len(t) for t in traces)
    consts = "CONSTANTS\n Id = {%s}\n" % ids(9)
    c.validate("TraceObjects", traces, consts, shards=7, label="history",
               invariants=["NoDangling", "ClientHoldsLive", "NoLeak", "AllGone"],
               describe=lambda i: "calls: %s" % full[i])
    c.assumptions += ["the number of references an optimizer takes on its space (its hidden work vectors) is read from the library when it is created and must be released in full"]


vlib.main("A01", body)
