"""Generation and replay of operations on bound sets (B01-B04, A04)."""
import math, struct
import vlib

SCAL = ["SCALAR_FLOAT", "SCALAR_DOUBLE"]
ARR = ["STATIC_FLOAT", "STATIC_DOUBLE", "VOLATILE_FLOAT", "VOLATILE_DOUBLE"]
INF = float("inf")


def f32(x):
    return x if math.isinf(x) or x != x else struct.unpack("f", struct.pack("f", x))[0]


def num(x):
    return "inf" if x == INF else "-inf" if x == -INF else float(x).hex()


def nums(xs):
    return " ".join(num(x) for x in xs)


def cases(c, R):
    """The grid of one-variable cases of MCBox.tla."""
    cfg = "SPECIFICATION MCSpec\nCONSTANTS\n R = %d\n Emit = TRUE\nINVARIANTS Closest RoomToMove Limits EmitCase\nCHECK_DEADLOCK FALSE\n" % R
    r = c.model_check("MCBox", cfg, workers=1)
    res = []
    for lo, up, x, d, o in vlib.Check.printed(r["out"]):
        f = lambda s: float.fromhex(s) if "x" in s else float(s)
        res.append((f(lo), f(up), f(x), f(d), o))
    if not res:
        raise vlib.CheckError("no case generated")
    return sorted(set(res))


def bound(rng, vals, isfloat, vec, fill, which):
    """Text describing a bound with the values `vals` (same order as the variables)."""
    absent = INF if which else -INF
    kinds = ["VECTOR", "VECTOR"] + ARR
    if all(v == absent for v in vals):
        kinds = ["NONE"] * 6 + kinds
    if len(set(vals)) == 1:
        kinds += SCAL * 3
    if any(f32(v) != v for v in vals):
        # rounding could make the bounds inconsistent
        kinds = [k for k in kinds if not k.endswith("FLOAT")]
    k = rng.choice(kinds)
    if k == "NONE":
        return k, "NONE 0"
    if k == "VECTOR":
        fill.append("put %d %s" % (vec, nums(vals)))
        return k, "VECTOR 1 %d" % vec
    if k in SCAL:
        return k, "%s 1 %s" % (k, num(vals[0]))
    return k, "%s 1 %s" % (k, nums(vals))


def session(rng, comps, ops, isfloat=None, n2=None):
    """One trace: variables `comps` = list of (lo, up, x, d); ops(rng, b) gives the commands."""
    fl = rng.randrange(2) if isfloat is None else isfloat
    n = len(comps)
    s = ["reset %d %d %d %d" % (fl, n, rng.randrange(2), n2 or rng.choice([n, n + 1]))]
    fill = []
    s.append("put 1 " + nums([q[2] for q in comps]))
    s.append("put 2 " + nums([q[3] for q in comps]))
    s.append("put 3 " + nums([rng.uniform(-9, 9) for _ in comps]))
    lk, lt = bound(rng, [q[0] for q in comps], fl, 4, fill, 0)
    uk, ut = bound(rng, [q[1] for q in comps], fl, 5, fill, 1)
    s += fill + ["load", "box 1 1 %s %s" % (lt, ut)]
    if rng.random() < .5:
        s.append("scribble 1")
    s += ops(rng, 1)
    return s, (lk, uk)


def grid_groups(rng, cs, n_max):
    """Pack grid cases into vectors, in ways allowing every kind of bounds."""
    groups = []
    by = {}
    for q in cs:
        by.setdefault(("s", q[0], q[1], q[4]), []).append(q)
        by.setdefault(("l", q[0], q[4]), []).append(q)
        by.setdefault(("u", q[1], q[4]), []).append(q)
        by.setdefault(("v", q[4]), []).append(q)
    for key in sorted(by, key=repr):
        qs = by[key]
        rng.shuffle(qs)
        i = 0
        while i < len(qs):
            n = rng.randrange(1, n_max + 1)
            groups.append(qs[i:i + n])
            i += n
    return groups


def random_comps(rng, n, feasible, isfloat):
    """Random variables with bounds of several kinds; values representable in the space."""
    r = f32 if isfloat or rng.random() < .4 else (lambda v: v)
    style = rng.randrange(6)
    sl, su = sorted([r(rng.uniform(-5, 5)), r(rng.uniform(-5, 5))])
    comps = []
    for _ in range(n):
        a, b = sorted([r(rng.uniform(-5, 5) * 10 ** rng.randrange(-3, 4)) for _ in range(2)])
        if rng.random() < .1:
            b = a
        lo, up = [(a, b), (sl, su), (sl, max(b, sl)), (min(a, su), su), (-INF, b), (a, INF)][style]
        if style == 0 and rng.random() < .15:
            lo = -INF
        if style == 0 and rng.random() < .15:
            up = INF
        k = rng.random()
        w = (min(up, 1e3) - max(lo, -1e3)) or 1.0
        if k < .25 and lo > -INF:
            x = lo
        elif k < .5 and up < INF:
            x = up
        elif k < .55 and lo > -INF:
            x = r(lo + abs(lo) * (6e-8 if isfloat else 1.2e-16))
        else:
            x = r(max(lo, -1e3) + w * rng.uniform(-.5, 1.5))
        if feasible:
            x = min(max(x, lo), up)
        d = r(rng.choice([0, 1, -1, rng.uniform(-3, 3), rng.uniform(-1e-3, 1e-3)]))
        comps.append((lo, up, x, d))
    return comps


def run(c, exe, sessions, label):
    text = "\n".join("\n".join(s) for s in sessions) + "\n"
    rc, out, err = c.run(exe, stdin=text, timeout=300)
    traces = vlib.split_traces(vlib.parse_ndjson(out))
    if rc != 0:
        k = max(0, len(traces) - 1)
        c.violation("the library crashed or hung (%s) during %s" % (rc, " ; ".join(sessions[k])[:800]),
                    dict(session=sessions[k], done=traces[k] if traces else []))
        return
    c.notes["calls_replayed"] = c.notes.get("calls_replayed", 0) + sum(len(t) for t in traces)
    c.sample(sessions[0])
    c.sample(traces[0][-1])
    c.validate("TraceBox", traces, shards=8, label=label)


def standard(c, ops, feasible, label, nrand):
    """Grid of the model and random values, over all kinds of bounds."""
    exe = c.build("box", "box", wrap=False)
    rng = c.rng
    cs = [q for q in cases(c, 3 if c.thorough else 2) if not feasible or q[0] <= q[2] <= q[1]]
    c.notes["cases_of_the_model"] = len(cs)
    sessions, kinds = [], {}
    for rep in range(4 if c.thorough else 1):
        for g in grid_groups(rng, cs, 16):
            o = g[0][4]
            s, k = session(rng, [q[:4] for q in g], lambda r, b: ops(r, b, o))
            sessions.append(s)
            kinds[k] = kinds.get(k, 0) + 1
    for i in range(nrand):
        fl = rng.randrange(2)
        comps = random_comps(rng, rng.choice([1, 2, 3, 5, 8, 17]), feasible, fl)
        s, k = session(rng, comps, lambda r, b: ops(r, b, r.choice([-1, 1])), isfloat=fl)
        sessions.append(s)
        kinds[k] = kinds.get(k, 0) + 1
    c.notes["pairs_of_bound_kinds"] = len(kinds)
    run(c, exe, sessions, label)
