"""Generation and replay of runs of the optimizers (N01, N02, V01-V03)."""
import vlib

INF = float("inf")


def H(x):
    return x if isinstance(x, str) else "inf" if x == INF else "-inf" if x == -INF else float(x).hex()


def Hs(v):
    return " ".join(H(x) for x in v)


def behaviours(c, module, cfg, depth, simulate):
    r = c.model_check(module, cfg, workers=1, extra=("-simulate", "num=%d" % simulate, "-depth", str(depth + 5), "-seed", str(c.seed)))
    out = vlib.Check.printed(r["out"])
    if not out:
        raise vlib.CheckError("no behaviour generated by " + module)
    return [["reset"] + [" ".join(str(w) for w in e) for e in h] for h in out]


def search(rng, alg):
    k = rng.random()
    if k < .35:
        return "none"
    if k < .55:
        return "backtrack %s %s" % (H(rng.choice([1e-4, .1, .3])), H(rng.choice([.1, .3, .5])))
    if k < .7:
        return "nonmonotone %d %s %s %s" % (rng.randrange(1, 6), H(rng.choice([1e-4, .1])), H(.1), H(.9))
    return "csrch %s %s %s" % (H(rng.choice([1e-4, .05, .3])), H(rng.choice([.1, .5, .9])), H(rng.choice([0, 2.0 ** -52, .1])))


def tolerances(rng):
    """delta epsilon gatol grtol stpmin stpmax"""
    stpmin, stpmax = rng.choice([(1e-20, 1e20)] * 6 + [(0, 1e3), (.01, 10.0), (.5, 1.0), (1.0, 4.0), (1e-3, 2.0)])
    if rng.random() < .03:
        stpmin, stpmax = rng.choice([(2.0, 5.0), (.1, .5)])
    return Hs([10 ** rng.uniform(-3, 0), rng.choice([0, 0, 1e-3, .1, .5]), rng.choice([0, 0, 1e-3, .1]),
               rng.choice([0, 1e-6, 1e-3, .1]), stpmin, stpmax])


def nlcg_new(rng, n, rule=None):
    return "new nlcg %s %d %s %d %d %d %s %d %s" % (
        rng.choice(["double", "double", "float"]), n, search(rng, 0), rule or rng.randrange(1, 9), rng.random() < .6, rng.random() < .6,
        tolerances(rng), rng.random() < .3, H(rng.choice([-1.0, 0.0, -10.0, 2.0])))


def bounds(rng, n):
    """Bounds of either side: none, scalar or vector (with the values used in the starts around them)."""
    def one(up):
        k = rng.choice([0, 1, 1, 2, 2])
        def v():
            t = rng.choice([0.0, .1, .5, 1.0, rng.uniform(0, 2)])
            return t if up else -t
        if k == 0:
            return "0"
        if k == 1:
            return "1 " + H(v())
        return "2 " + Hs([(INF if up else -INF) if rng.random() < .15 else v() for _ in range(n)])
    lo, up = one(False), one(True)
    if lo == up == "0" and rng.random() < .7:
        up = "1 " + H(.5)
    if rng.random() < .05 and lo != "0":
        up = lo       # lower = upper
    return "1 " + lo + " " + up


def vmlmb_new(rng, n, bounded, prec=None):
    return "new vmlmb %s %d %s %d %d %d %s %s" % (
        prec or rng.choice(["double", "double", "float"]), n, search(rng, 1), rng.randrange(1, 7), rng.random() < .4, rng.random() < .5,
        tolerances(rng), bounds(rng, n) if bounded else "0")


def answers(rng, n, calls):
    k = rng.random()
    if k < .65:
        return "run %d %d %d %d" % (rng.randrange(8), rng.randrange(10 ** 9), calls, rng.randrange(3))
    return "adv %d %d %d" % (rng.randrange(4), rng.randrange(10 ** 9), calls)


def start(rng, n):
    k = rng.random()
    if k < .12:
        return "start " + Hs([0.0] * n)
    w = rng.choice([3, 3, .3])
    return "start " + Hs([rng.uniform(-w, w) for _ in range(n)])


def session(rng, new, n, calls):
    s = ["reset", new]
    if rng.random() < .1:
        s.append("ans 1 " + " ".join(["1"] * n))
    for _ in range(rng.choice([1, 1, 1, 2, 3])):
        s.append(start(rng, n))
        s.append(answers(rng, n, rng.randrange(2, calls)))
        if rng.random() < .1:
            s.append("ans %s %s" % (H(rng.uniform(-1, 1)), Hs([rng.uniform(-1, 1) for _ in range(n)])))
        if rng.random() < .1:
            s.append("again")
    return s


def run(c, sessions, module, consts, label, key=None):
    exe = c.build("optim", "optim", wrap=False)
    text = "\n".join("\n".join(s) for s in sessions) + "\n"
    rc, out, err = c.run(exe, stdin=text, timeout=120)
    traces = vlib.split_traces(vlib.parse_ndjson(out))
    if rc != 0:
        k = max(0, len(traces) - 1)
        c.violation("the library crashed or hung (%s) during %s" % (rc, " ; ".join(sessions[k])[:800]),
                    dict(session=sessions[k], done=traces[k] if traces else []))
        return
    c.notes["calls_replayed"] = c.notes.get("calls_replayed", 0) + sum(len(t) for t in traces)
    c.sample(sessions[0])
    c.sample(traces[0][:3])
    c.validate(module, traces, consts, shards=8, label=label,
               describe=lambda i: "session: " + " ; ".join(sessions[i])[:600])


def vmlmb(c, aspect):
    rng, th = c.rng, c.thorough
    cfg = ("SPECIFICATION MCSpec\nCONSTANTS\n Depth = %d\n Bounded = %s\n Emit = TRUE\n"
           "INVARIANTS Counters Descending Ends Goes InBounds Remembers Moves\nCHECK_DEADLOCK FALSE\n")
    sessions = []
    for b, n in (("TRUE", 250), ("FALSE", 0 if aspect == "feasible" else 120)):
        if n:
            sessions += behaviours(c, "MCVmlmb", cfg % (14, b), 14, n * (10 if th else 1))
    for k in range(4000 if th else 240):
        n = rng.choice([1, 2, 2, 3, 4])
        s = session(rng, vmlmb_new(rng, n, aspect == "feasible" or k % 3 > 0), n, 50)
        sessions.append(s)
    run(c, sessions, "TraceVmlmb", 'CONSTANT Aspect = "%s"\n' % aspect, "VMLMB run")
