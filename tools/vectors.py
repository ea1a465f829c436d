"""Generation and replay of vector operations (A03, A04)."""
import vlib


def calls(c, scalars, mix):
    cfg = "SPECIFICATION MCSpec\nCONSTANTS\n Scalars = {%s}\n Mix = %s\nCHECK_DEADLOCK FALSE\n" % (
        ", ".join('"%s"' % s for s in scalars), "TRUE" if mix else "FALSE")
    r = c.model_check("MCAlgebra", cfg, workers=1)
    res = vlib.Check.printed(r["out"])
    if not res:
        raise vlib.CheckError("no call generated")
    return res


def sources(k):
    op = k[0]
    if op in ("vzero", "vfill"):
        return set()
    if op == "vcopy":
        return {k[2]}
    if op == "vscale":
        return {k[3]}
    if op == "vproduct":
        return {k[2], k[3]}
    if op == "vaxpby":
        return {k[3], k[5]}
    if op == "vaxpbypcz":
        return {k[3], k[5], k[7]}
    return {k[1]} | set(x for x in k[2:])


def access(rng, n, vecs=(1, 2, 3)):
    v = rng.choice(vecs)
    w = rng.randrange(4)
    k = rng.choice([-1, 0, n - 1, n, n + 1, rng.randrange(n), -rng.randrange(1, 1000), 2 ** 40])
    nn = rng.choice([1, 1, 1, 1, 0, 2])
    if w == 0:
        return ["vpeek %d %d %d" % (v, k, nn)]
    if w == 1:
        return ["vpoke %d %d %d %g" % (v, k, nn, rng.randrange(-20, 20) / 4)]
    ty = rng.choice(["float", "double", "float", "double", "7", "99"])
    m = rng.choice([n, n, n, n, n - 1, n + 1, 0, -1])
    return ["%s %d %s %d %d" % ("vimport" if w == 2 else "vexport", v, ty, m, nn)]


def run(c, exe, sessions, label):
    text = "\n".join("\n".join(s) for s in sessions) + "\n"
    rc, out, err = c.run(exe, stdin=text, timeout=300)
    traces = vlib.split_traces(vlib.parse_ndjson(out))
    if rc != 0:
        k = max(0, len(traces) - 1)
        c.violation("the library crashed or hung (%s) during %s" % (rc, sessions[k][:3]), dict(session=sessions[k], done=traces[k] if traces else []))
        return
    c.notes["calls_replayed"] = c.notes.get("calls_replayed", 0) + sum(len(t) for t in traces)
    c.sample(sessions[0][:6])
    c.sample(traces[0][1:3])
    c.validate("TraceAlgebra", traces, shards=8, label=label)
