"""Generation and replay of line searches (L01-L03)."""
import vlib

def H(x):
    return x if isinstance(x, str) else "inf" if x == float("inf") else float(x).hex()


def model(c, kinds, depth, starts, simulate=0, sim_depth=40, emit=True):
    cfg = "SPECIFICATION MCSpec\nCONSTANTS\n Kinds = {%s}\n Depth = %d\n Starts = %d\n Emit = %s\nINVARIANTS InBounds Shrinks Bracket Refines\nCHECK_DEADLOCK FALSE\n" % (
        ", ".join('"%s"' % k for k in kinds), depth, starts, "TRUE" if emit else "FALSE")
    extra = ("-simulate", "num=%d" % simulate, "-depth", str(sim_depth), "-seed", str(c.seed)) if simulate else ()
    r = c.model_check("MCLineSearch", cfg, workers=1 if emit else 8, extra=extra)
    return vlib.Check.printed(r["out"])


def to_session(hist):
    s = ["reset"]
    for e in hist:
        if e[0] == "stop":
            break
        if e[0] == "new":
            s.append("new %s %s" % (e[1], " ".join(H(x) for x in map(str, e[2]))))
        else:
            s.append(" ".join(str(x) for x in e))
    return s


def dyadic(rng, lo, hi, den=64):
    return rng.randrange(int(lo * den), int(hi * den) + 1) / den


def new_cmd(rng, kind, exact=False):
    if kind == "backtrack":
        p = [rng.choice([1e-4, .1, .25, .4]), rng.choice([.05, .1, .3, .5, .7])]
        if exact:
            p = [rng.choice([1 / 1024, .125, .25]), rng.choice([.0625, .125, .25, .5])]
        return "new backtrack %s %s" % tuple(map(H, p)), p
    if kind == "nonmonotone":
        m = rng.randrange(1, 6)
        p = [m] + [rng.choice([1e-4, .1]), rng.choice([.1, .3]), rng.choice([.5, .9])]
        if exact:
            p = [m, rng.choice([1 / 1024, .125]), rng.choice([.125, .25]), rng.choice([.5, .875])]
        return "new nonmonotone %d %s %s %s" % ((m,) + tuple(map(H, p[1:]))), p
    p = [rng.choice([1e-4, .01, .2, .5]), rng.choice([.1, .5, .9, .99]), rng.choice([0, 1e-10, .1, 1e-3])]
    if exact:
        p = [rng.choice([1 / 1024, .125, .5]), rng.choice([.25, .5, .875]), rng.choice([0, .0625])]
    return "new csrch %s %s %s" % tuple(map(H, p)), p


KINDS = ["backtrack", "nonmonotone", "csrch"]


def start_cmd(rng, exact=False):
    r = (lambda a, b: dyadic(rng, a, b)) if exact else rng.uniform
    k = rng.random()
    if k < .4:
        lo, hi, stp = 0, 2.0 ** rng.randrange(5, 60), 2.0 ** rng.randrange(-4, 5)
    elif k < .8:
        lo = r(0, 1)
        hi = lo + r(0.25, 4)
        stp = rng.choice([lo, hi, (lo + hi) / 2, lo + (hi - lo) / 4])
    elif k < .9:
        lo = hi = stp = r(.1, 3)
    else:
        lo, stp, hi = 1e-20, 1.0, 1e20
    if exact and k >= .9:
        lo, stp, hi = 2.0 ** -60, 1.0, 2.0 ** 60
    f0 = r(-5, 5) * (1 if exact else 10 ** rng.randrange(-2, 3))
    g0 = -r(.0625, 4) * (1 if exact else 10 ** rng.randrange(-2, 3))
    return "start %s" % " ".join(map(H, (f0, g0, stp, lo, hi))), (f0, g0, stp, lo, hi)


def func_cmd(rng, k):
    i = rng.randrange(8)
    a = 10 ** rng.uniform(-2, 2)
    return "func %d %s %s %s %d" % (i, H(a), H(rng.choice([rng.uniform(0, 3), 10 ** rng.uniform(-1, 1)])), H(10 ** rng.uniform(-2, 0)), k)


def run(c, sessions, aspect, label):
    exe = c.build("lnsrch", "lnsrch", wrap=False)
    text = "\n".join("\n".join(s) for s in sessions) + "\n"
    rc, out, err = c.run(exe, stdin=text, timeout=120)
    traces = vlib.split_traces(vlib.parse_ndjson(out))
    if rc != 0:
        k = max(0, len(traces) - 1)
        c.violation("the library crashed or hung (%s) during %s" % (rc, " ; ".join(sessions[k])[:800]),
                    dict(session=sessions[k], done=traces[k] if traces else []))
        return
    c.notes["calls_replayed"] = sum(len(t) for t in traces)
    c.sample(sessions[0])
    c.sample(traces[0][:3])
    c.validate("TraceLineSearch", traces, 'CONSTANT Aspect = "%s"\n' % aspect, shards=8, label=label,
               describe=lambda i: "session: " + " ; ".join(sessions[i])[:600])


def histories(c, n_exhaustive, n_sim):
    """Behaviours of the model: exhaustive to a small depth, random beyond."""
    th = c.thorough
    hs = model(c, ["csrch"], 3 if th else 2, 1)
    hs2 = model(c, ["backtrack", "nonmonotone"], 4 if th else 3, 2 if th else 1)
    c.notes["behaviours_of_the_model"] = len(hs) + len(hs2)
    hs = sorted(hs, key=repr)
    hs2 = sorted(hs2, key=repr)
    out = c.rng.sample(hs, min(len(hs), n_exhaustive)) + c.rng.sample(hs2, min(len(hs2), n_exhaustive // 2))
    out += model(c, KINDS, 12, 3, simulate=n_sim, sim_depth=50)
    return [to_session(h) for h in out]
