"""Scenarios for the derivative-free optimizers (spec/Dfo.tla, harness/dfo.c)."""
import os
import vlib

LIBS = ["cobyla", "newuoa", "bobyqa"]
KINDS = [0, 1, 2, 3, 4, 5, 6, 7, 9, 11, 12, 14]    # 11, 12: unbounded below, 14: stiff; they damage the quadratic models (rescue, bigden)
UNBOUNDED = [11, 12]


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def npt(self, n):
        r = self.rng
        return r.choice([n + 2, 2 * n + 1, 2 * n + 1, min(2 * n + 3, (n + 1) * (n + 2) // 2), (n + 1) * (n + 2) // 2, r.randrange(n + 2, (n + 1) * (n + 2) // 2 + 1)])

    def problem(self, k, solver, n=None, m=None, npt=None, maximize=0, scaling=0, rhobeg=None, ratio=None, maxfun=400, iprint=0,
                kind=None, seed=None, spread=None, slack=0, nmax=5):
        r = self.rng
        if n is None:
            n = r.randrange(1 if solver == "cobyla" else 2, nmax + 1)
        if m is None:
            m = r.choice([0, 0, 1, 2, n, n + 2]) if solver == "cobyla" else 0
        if kind is None:
            kind = r.choice(KINDS)
        if kind in UNBOUNDED:
            maxfun = min(maxfun, 160)      # the steps double: nothing overflows
        if npt is None:
            npt = self.npt(n)
        if kind == 14 and ratio is None:
            ratio = r.choice([1e3, 1e6, 1e8, 1e10])
        if rhobeg is None:
            rhobeg = r.choice([.5, .25, .125, 1.0])
        if ratio is None:
            ratio = r.choice([1, 2, 3, 8, 10, 16, 20, 100, 250, 300, 1e3, 1e4])
        if spread is None:
            spread = r.choice([0, .5, 1, 2, 4])
        if seed is None:
            seed = r.randrange(1, 10 ** 9)
        return "set %d %s %d %d %d %d %d %r %r %d %d %d %d %r %d" % (k, solver, n, m, npt, maximize, scaling, rhobeg, rhobeg / ratio, maxfun, iprint, kind, seed, spread, slack)


    def damaged(self, k, solver, **more):
        """A problem that damages the quadratic model; for NEWUOA it takes many evaluations."""
        r = self.rng
        a = dict(kind=r.choice([11, 11, 12, 14] if solver != "newuoa" else [11]), maxfun=r.choice([20, 30, 40, 60, 100, 160] if solver == "bobyqa" else [100, 130, 160]),
                 ratio=r.choice([10, 1e3, 1e6, 1e8]), spread=r.choice([0, .5, 1, 2]))
        a.update(more)
        return self.problem(k, solver, **a)


def model(c, depth=5):
    cfg = ("SPECIFICATION MCSpec\nCONSTANTS\n Slots = {0, 1}\n Depth = %d\n Emit = FALSE\n Lengths = {1, 2, 4}\n Budgets = {1, 3}\n"
           "INVARIANTS InBudget StoppedByBudget Asking Fresh\nPROPERTY Isolated\nVIEW View\nCHECK_DEADLOCK FALSE\n")
    c.model_check("MCDfo", cfg % depth, workers=4)


def behaviours(c, num, depth=14):
    cfg = ("SPECIFICATION MCSpec\nCONSTANTS\n Slots = {0, 1, 2}\n Depth = %d\n Emit = TRUE\n Lengths = {3, 12, 60}\n Budgets = {1, 3, 20, 400}\n"
           "INVARIANTS InBudget StoppedByBudget Asking Fresh\nCHECK_DEADLOCK FALSE\n") % depth
    r = c.model_check("MCDfo", cfg, workers=1, extra=("-simulate", "num=%d" % num, "-depth", str(depth + 3), "-seed", str(c.seed)))
    return vlib.Check.printed(r["out"])


def check(c, exe, aspect, sessions, shards=7, label="run", timeout=None):
    rc, out, err = c.run(exe, stdin="\n".join("\n".join(["reset"] + s) for s in sessions) + "\n", timeout=timeout or (400 if c.thorough else 120))
    events = vlib.parse_ndjson(out)
    traces = vlib.split_traces(events)
    if rc != 0 or len(traces) != len(sessions):
        k = max(0, len(traces) - 1)
        last = events[-1] if events else None
        what = ("runs away (more evaluations than allowed)" if rc == 3 else
                "calls the objective function with wrong arguments" if rc == 2 else "crashes or hangs (%s)" % rc)
        c.violation("an optimizer %s in session: %s" % (what, " ; ".join(sessions[k])[:800]), dict(session=sessions[k], last=last))
        return traces
    if os.environ.get("DFO_STATS"):
        import json
        for t in traces:
            for e in t:
                if e["ev"] == "begin": b = e
                if e["ev"] == "end" and b["sol"]:
                    u = [float.fromhex(v) for v in e["x"]]
                    if b["scl"]: u = [v / float.fromhex(w) for v, w in zip(u, b["scl"])]
                    d = sum((v - float.fromhex(w)) ** 2 for v, w in zip(u, b["sol"])) ** .5 / float.fromhex(b["rhoend"])
                    print("STAT", b["solver"], b["n"], b["m"], e["status"], "%.3g" % d, "%.3g" % (float.fromhex(e["cv"]) / float.fromhex(b["rhoend"])), e["calls"])
    c.notes["evaluations_checked"] = sum(1 for t in traces for e in t if e["ev"] in ("eval", "iterate"))
    c.notes["sessions"] = len(sessions)
    c.sample(sessions[0])
    c.sample(sessions[len(sessions) // 2])
    c.validate("TraceDfo", traces, "CONSTANTS\n Slots = {0, 1, 2, 3, 4, 5}\n Aspect = \"%s\"\n" % aspect, shards=shards, label=label, timeout=800, heap="3g",
               describe=lambda i: "session: " + " ; ".join(sessions[i])[:900])
    return traces
