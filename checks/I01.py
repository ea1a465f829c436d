#!/usr/bin/env python3
"""I01: sessions do not interfere (Isolation.tla)."""
import concurrent.futures, os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib

KINDS = ["backtrack", "nonmonotone", "csrch", "nlcg", "vmlmb", "driver nlcg", "driver vmlmb", "fmin", "plcg", "trcg", "gqt", "cobyla", "newuoa",
         "bobyqa run", "cobyla run", "newuoa run", "vectors", "fmin run", "text"]
NOT_AGAIN = {1}          # the nonmonotone line search remembers the previous searches
SLOTS = "CONSTANTS\n Slots = {%s}\n"


def body(c):
    rng = c.rng
    base = "SPECIFICATION MCSpec\nCONSTANTS\n Depth = %d\n Emit = %s\n Leak = \"%s\"\n Many = %s\n Slots = %s\n"
    for leak in ("none", "shared", "kept", "stale"):
        c.model_check("MCIsolation", base % ((7 if c.thorough else 5) if leak == "none" else 4, "FALSE", leak, "FALSE", "{0, 1}") + "INVARIANTS Silent Solo\nCONSTRAINT Heard\nPOSTCONDITION Found\nVIEW View\nCHECK_DEADLOCK FALSE\n", workers=1 if leak != "none" else 4)
    n = 4000 if c.thorough else 420
    r = c.model_check("MCIsolation", base % (16, "TRUE", "none", "TRUE", "{0, 1, 2, 3}") + "INVARIANT Silent\nCHECK_DEADLOCK FALSE\n", workers=1,
                      extra=("-simulate", "num=%d" % n, "-depth", "20", "-seed", str(c.seed)))
    hists = vlib.Check.printed(r["out"])
    libs = vlib.LIBOPK + vlib.DFO
    exe = c.build("iso", "iso", libs=libs, wrap=False, flags=("-pthread",))

    def lines(text, timeout=60):
        rc, out, err = c.run(exe, stdin=text, timeout=timeout)
        return rc, vlib.parse_ndjson(out)

    def alone(prog, steps):
        """the program in a process of its own"""
        (kind, seed), v = prog
        rc, ev = lines("begin 90 %d %d %d\nstep 90 %d\nend 90\n".replace("90", "15") % (kind, seed, v, steps))
        for e in ev:
            if e["ev"] == "begin":
                e.update(cfg="%d/%d" % (kind, seed), v=v)
        return rc, ev

    jobs = []
    for k, h in enumerate(hists):
        kind = k % len(KINDS)
        cfg = {1: (kind, rng.randrange(1, 10 ** 6)), 2: (kind if rng.random() < .6 else rng.randrange(len(KINDS)), rng.randrange(1, 10 ** 6))}
        cmds, marks, most = [], [], {}
        prog, at = {}, {}
        for op in h:
            s = op[1]
            if op[0] == "begin":
                prog[s], at[s] = (cfg[op[2]], op[3]), 0
                cmds.append("begin %d %d %d %d" % (s, cfg[op[2]][0], cfg[op[2]][1], op[3]))
                marks.append(("begin", prog[s]))
            elif op[0] == "step":
                at[s] += op[2]
                cmds.append("step %d %d" % (s, op[2]))
                marks += [None] * op[2]
            elif op[0] == "again":
                if prog[s][0][0] in NOT_AGAIN:
                    continue
                prog[s], at[s] = (prog[s][0], op[2]), 0
                cmds.append("again %d %d" % (s, op[2]))
                marks.append(("again", prog[s]))
            else:
                cmds.append("end %d" % s)
                marks.append(None)
            if op[0] != "end":
                most[prog[s]] = max(most.get(prog[s], 0), at[s])
        jobs.append((cmds, marks, most))
    # threads: the same sessions at the same time
    tjobs = []
    for k in range(400 if c.thorough else 57):
        kind = k % len(KINDS)
        progs = [(kind if k < 2 * len(KINDS) and i < 4 else rng.randrange(len(KINDS)), rng.randrange(1, 10 ** 6)) for i in range(8)]
        tjobs.append(("threads 4 40 " + " ".join("%d %d" % p for p in progs), progs))

    def one(job):
        cmds, marks, most = job
        out = []
        for p, m in most.items():
            rc, ev = alone(p, m)
            if rc != 0:
                return ("alone", p, rc)
            out += ev
        rc, ev = lines("\n".join(cmds) + "\n")
        if rc != 0 or len(ev) != len(marks):
            return ("together", cmds, rc)
        for e, m in zip(ev, marks):
            if m:
                (kind, seed), v = m[1]
                e.update(cfg="%d/%d" % (kind, seed), v=v)
        return out + ev

    def thread(job):
        cmd, progs = job
        out = []
        for p in sorted(set(progs)):
            rc, ev = alone((p, 0), 40)
            if rc != 0:
                return ("alone", p, rc)
            out += ev
        rc, ev = lines(cmd + "\n", 120)
        if rc != 0:
            return ("threads", cmd, rc)
        for e in ev:
            if e["ev"] == "begin":
                e.update(cfg="%d/%d" % progs[e["s"]], v=0)
        return out + ev

    with concurrent.futures.ThreadPoolExecutor(7) as ex:
        traces = list(ex.map(one, jobs))
    with concurrent.futures.ThreadPoolExecutor(2) as ex:
        ttraces = list(ex.map(thread, tjobs))
    for t in traces + ttraces:
        if isinstance(t, tuple):
            c.violation("sessions crash or hang (%s, status %s): %s" % (t[0], t[2], str(t[1])[:600]), dict(session=t[1]))
            return
    c.notes["histories"] = len(traces)
    c.notes["threaded_runs"] = len(ttraces)
    c.notes["steps_compared"] = sum(len(t) for t in traces + ttraces)
    c.sample(jobs[0][0])
    c.sample(tjobs[0][0])
    c.validate("TraceIsolation", traces + ttraces, SLOTS % ", ".join(map(str, range(16))), shards=7, timeout=800, label="history",
               describe=lambda i: "sessions: " + (" ; ".join(jobs[i][0]) if i < len(jobs) else tjobs[i - len(jobs)][0])[:900])
    # the same threads watched by the thread sanitizer, where it runs
    tsan = c.build("isotsan", "iso", libs=libs, wrap=False, flags=("-pthread", "-fsanitize=thread"), opt="-O1", link=("-fsanitize=thread",))
    rc, out, err = c.run(tsan, stdin="begin 0 0 1 0\nend 0\n", timeout=60)
    c.notes["thread_sanitizer"] = rc == 0
    if rc == 0:
        def watch(job):
            return job, c.run(tsan, stdin=job[0].replace("threads 4 40", "threads 1 12") + "\n", timeout=200)
        with concurrent.futures.ThreadPoolExecutor(3) as ex:
            for job, (rc, out, err) in ex.map(watch, tjobs[:400 if c.thorough else 19]):
                if "WARNING: ThreadSanitizer" in err:
                    c.violation("data race between sessions of different threads: %s | %s" % (job[0], " ".join(err.split())[:700]), dict(session=job[0], report=err[:5000]))
                    return


vlib.main("I01", body)
