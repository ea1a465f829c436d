"""Families of problems on which the effort of the derivative-free optimizers is measured
(spec/Effort.tla).  Run as a program, it measures the sources of a repository and prints the
table of spec/EffortTable.tla:  python3 tools/effort.py  [runs per dimension]"""
import json, os, random, subprocess, sys, concurrent.futures
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import dfo, vlib

DIMS = (2, 3, 4, 5)
#            name          solver    kind  more
FAMILIES = [("cobyla free", "cobyla", 0, dict(m=0)),
            ("cobyla constrained", "cobyla", 0, dict(m=lambda r, n: r.choice([1, 2, n, n + 2]))),
            ("cobyla vertex", "cobyla", 10, dict(m=lambda r, n: r.choice([n, n + 1, n + 3]))),
            ("cobyla curved", "cobyla", 1, dict(m=0)),
            ("cobyla narrow", "cobyla", 14, dict(m=0, maxfun=400, spread=1)),
            ("cobyla nonsmooth", "cobyla", 2, dict(m=0)),
            ("cobyla unbounded", "cobyla", 11, dict(m=0, maxfun=60)),
            ("newuoa quadratic", "newuoa", 0, {}),
            ("newuoa curved", "newuoa", 1, {}),
            ("newuoa narrow", "newuoa", 14, dict(maxfun=400, spread=1)),
            ("newuoa nonsmooth", "newuoa", 2, {}),
            ("newuoa waves", "newuoa", 3, {}),
            ("newuoa steps", "newuoa", 6, {}),
            ("newuoa unbounded", "newuoa", 11, dict(maxfun=100)),
            ("newuoa far", "newuoa", 11, dict(maxfun=160)),
            ("bobyqa quadratic", "bobyqa", 0, {}),
            ("bobyqa vertex", "bobyqa", 10, {}),
            ("bobyqa curved", "bobyqa", 1, {}),
            ("bobyqa narrow", "bobyqa", 14, dict(maxfun=400, spread=1)),
            ("bobyqa nonsmooth", "bobyqa", 2, {}),
            ("bobyqa waves", "bobyqa", 3, {}),
            ("bobyqa steps", "bobyqa", 6, {}),
            ("bobyqa unbounded", "bobyqa", 11, dict(maxfun=60)),
            ("bobyqa far", "bobyqa", 11, dict(maxfun=130))]


def problem(rng, fam, n):
    name, solver, kind, more = fam
    a = dict(n=n, m=0, kind=kind, rhobeg=rng.choice([.25, .5]), ratio=rng.choice([1e3, 1e4, 1e5, 1e6]), spread=rng.choice([.5, 1, 2, 4]), maxfun=2000)
    a.update(more)
    if callable(a["m"]):
        a["m"] = a["m"](rng, n)
    return dfo.Gen(rng).problem(0, solver, **a)


def script(rng, fam, runs):
    """runs: number of problems of each dimension"""
    return ["reset"] + [s for k in range(runs) for n in DIMS for s in (problem(rng, fam, n), "effort 0")]


def measure(c, exe, runs, timeout):
    """One trace per family, in the order of FAMILIES; None where the harness fails."""
    scripts = [script(c.rng, f, runs) for f in FAMILIES]

    def go(s):
        rc, out, err = c.run(exe, stdin="\n".join(s) + "\n", timeout=timeout)
        return rc, [e for e in vlib.parse_ndjson(out) if e["ev"] != "reset"]
    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        return scripts, list(ex.map(go, scripts))


if __name__ == "__main__":
    runs = int(sys.argv[1]) if len(sys.argv) > 1 else 5000
    c = vlib.Check("EFFORT", argv=["x"])
    c.rng = random.Random("reference")
    exe = c.build("dfo", "dfo", libs=dfo.LIBS)
    scripts, res = measure(c, exe, runs, 3000)
    out = []
    for f, (rc, t) in zip(FAMILIES, res):
        assert rc == 0 and len(t) == len(DIMS) * runs, (f, rc, len(t))
        rows = []
        for n in (0,) + DIMS:
            e = [x for x in t if n in (0, x["n"])]
            def q(v):
                m = sum(v) / len(v)
                return m, (sum((a - m) ** 2 for a in v) / len(v)) ** .5
            if n == 0:      # the dimensions are as many each: only what varies within them counts
                def q(v, e=e):
                    m = sum(v) / len(v)
                    w = 0
                    for k in DIMS:
                        u = [a for a, x in zip(v, e) if x["n"] == k]
                        mu = sum(u) / len(u)
                        w += sum((a - mu) ** 2 for a in u)
                    return m, (w / len(v)) ** .5
            (m, s), (a, b), (p, r) = q([x["calls"] for x in e]), q([x["miss"] for x in e]), q([int(x["status"] != "SUCCESS") for x in e])
            rows.append("[calls |-> <<%d, %d>>, miss |-> <<%d, %d>>, fails |-> <<%d, %d>>]" % tuple(round(v) for v in (10 * m, 10 * s, a, b, 1000 * p, 1000 * r)))
        out.append('  "%s" :> <<%s>>' % (f[0], ",\n    ".join(rows)))
    import shutil
    shutil.rmtree(c.work, ignore_errors=True)
    print("----------------------------- MODULE EffortTable -----------------------------\n"
          "(* Mean and standard deviation, for one run, of the number of evaluations  *)\n"
          "(* (in tenths), of the miss (in hundredths) and of the failures (in        *)\n"
          "(* thousandths), all dimensions together and for 2, 3, 4 and 5 variables.  *)\n"
          "(* Measured once with tools/effort.py (%6d problems for each line).       *)\n"
          "EXTENDS Integers, TLC\nTable ==\n" % runs + " @@\n".join(out) + "\n=============================================================================")
