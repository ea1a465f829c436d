"""Option sets, names, descriptions and utilities (O01, U01)."""
import vlib


def grid(c):
    cfg = "SPECIFICATION MCSpec\nCONSTANT Emit = TRUE\nINVARIANTS Sound EmitCase\nCHECK_DEADLOCK FALSE\n"
    r = c.model_check("MCOptions", cfg, workers=1)
    res = []
    for case in vlib.Check.printed(r["out"]):
        res.append((case[0], case[1], [str(v) for v in case[2:]]))
    if not res:
        raise vlib.CheckError("no option set generated")
    return res


def run(c, cmds, label):
    exe = c.build("options", "options", wrap=False, sanitize=True)
    n = 24
    text = ""
    for k in range(0, len(cmds), n):
        text += "reset\n" + "\n".join(cmds[k:k + n]) + "\n"
    rc, out, err = c.run(exe, stdin=text, timeout=200, env={"ASAN_OPTIONS": "detect_leaks=0"})
    traces = vlib.split_traces(vlib.parse_ndjson(out))
    if rc != 0:
        k = sum(len(t) for t in traces)
        bad = cmds[k] if k < len(cmds) else "?"
        c.violation("the library crashed or wrote out of its memory (%s) during: %s" % (rc, bad[:400]),
                    dict(command=bad, stderr=err[-1500:]))
        return
    c.sample(cmds[0])
    c.sample(traces[0][0])
    c.notes["calls_replayed"] = sum(len(t) for t in traces)
    c.validate("TraceOptions", traces, "", shards=8, label=label,
               describe=lambda i: "commands: " + " ; ".join(cmds[i * n:(i + 1) * n])[:800])
