#!/usr/bin/env python3
"""M01: small linear algebra kernels (Blas.tla)."""
import os, struct, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib

LEVEL1 = {"swap", "scal", "copy", "axpy", "dot", "asum", "sum", "nrm2", "amax", "iamax", "zero"}
ORDER = ["ta", "tb", "up", "di", "m", "n", "k", "alpha", "beta", "ao", "lda", "bo", "ldb", "co", "ldc", "xo", "incx", "yb", "yo", "incy"]
NAN = float("nan")


def f32(v):
    return struct.unpack("f", struct.pack("f", v))[0]


def body(c):
    rng = c.rng
    inv = "INVARIANTS Frame Solved AsProduct AsColumn Adjoint SwapBack Copied InField\nCHECK_DEADLOCK FALSE\n"
    c.model_check("MCBlas", "SPECIFICATION MCSpec\nCONSTANTS\n P = 2\n Depth = 1\n Emit = FALSE\n" + inv, workers=7, heap="6g") if c.thorough else None
    c.model_check("MCBlas", "SPECIFICATION RSpec\nCONSTANTS\n P = 5\n Depth = 1\n Emit = FALSE\n" + inv, workers=4,
                  extra=("-simulate", "num=%d" % (20000 if c.thorough else 2500), "-depth", "3", "-seed", str(c.seed)))
    r = c.model_check("MCBlas", "SPECIFICATION ESpec\nCONSTANTS\n P = 2\n Depth = 25\n Emit = TRUE\nCHECK_DEADLOCK FALSE\n", workers=1,
                      extra=("-simulate", "num=%d" % (1500 if c.thorough else 360), "-depth", "30", "-seed", str(c.seed)))
    exe = c.build("blas", "blas", libs=["linalg"], sanitize=True, wrap=False)

    def vlen(o, n, inc, doc):
        return o + (max(n, 0) * abs(inc) if doc else (1 + (n - 1) * abs(inc) if n > 0 else 0))

    def session(h):
        op, up, n, m, k = h["op"], h["up"], max(h["n"], 0), max(h["m"], 0), max(h["k"], 0)
        single = rng.random() < .4
        mode = rng.choice(["exact", "exact", "exact", "real"])
        if op in ("nrm2", "amax", "iamax", "swap", "copy") and rng.random() < .5:
            mode = "extreme"
        rnd = f32 if single else float
        sc = 2.0 ** rng.randint(-3, 3) if mode == "exact" else 10.0 ** rng.choice([0, 0, 3, -3])
        big = rng.choice([1.7e38, 1e30, 1e-30, 1e-38, 3e-44]) if single else rng.choice([1.7e308, 1e200, 1e-200, 1e-308, 2e-320])

        def val():
            if mode == "exact":
                return rng.randint(-4, 4) * sc
            if mode == "real":
                return rnd(rng.gauss(0, 1) * sc)
            return rnd(rng.choice([0, 1, -1, rng.uniform(-1, 1), 1e-3]) * big)

        def arr(L):
            return [val() for _ in range(L)]
        if mode == "real":
            h = dict(h, alpha=rnd(h["alpha"] * rng.choice([1, 1, .37])), beta=rnd(h["beta"] * rng.choice([1, 1, .37])))
        ta, ra = h["ta"], None
        if op in LEVEL1:
            b2 = vlen(h["xo"], n, h["incx"], True)
            b3 = vlen(h["yo"], n, h["incy"], True)
            if h["yb"] == 2:
                b2, b3 = max(b2, b3), 2
            mem = [arr(2), arr(b2), arr(b3)]
        else:
            rows = {"gemv": m, "trmv": n, "trsv": n, "potf2": n, "gemm": m if ta == 111 else k, "syrk": n if ta == 111 else k}[op]
            cols = {"gemv": n, "trmv": n, "trsv": n, "potf2": n, "gemm": k if ta == 111 else m, "syrk": k if ta == 111 else n}[op]
            A = arr(h["ao"] + max(h["lda"], rows, 1) * cols)
            B, C = arr(3), arr(3)
            at = lambda i, j: h["ao"] + j * h["lda"] + i
            ok = h["lda"] >= max(rows, 1)
            if op in ("trmv", "trsv"):
                B = arr(vlen(h["xo"], n, h["incx"], False))
                if op == "trsv":
                    if mode == "exact":
                        B = [rng.randint(-3, 3) * sc for _ in B]
                    for j in range(n if ok else 0):
                        for i in range(n):
                            if mode == "exact":
                                A[at(i, j)] = rng.choice([1, -1, 2, -2, .5]) if i == j else rng.choice([-1, 0, 1, 1])
                            elif i == j and abs(A[at(i, j)]) < .1 * sc:
                                A[at(i, j)] = rnd(sc)
            elif op == "potf2" and ok:
                U = [[0.0] * n for _ in range(n)]
                bad = rng.random() < .35
                d = [1.0] * n
                if bad and n:
                    d[rng.randrange(n)] = rng.choice([-1.0, -1.0, 0.0])
                for i in range(n):
                    for j in range(i, n):
                        U[i][j] = (rng.choice([1, 2, 4]) if i == j else rng.randint(-3, 3)) * 1.0 if mode == "exact" else rng.gauss(0, 1) * (3 if i == j else 1)
                    if mode != "exact" and abs(U[i][i]) < .3:
                        U[i][i] = .5
                for j in range(n):
                    for i in range(n):
                        A[at(i, j)] = rnd(sum(U[l][i] * d[l] * U[l][j] for l in range(min(i, j) + 1)))
            elif op == "gemv":
                B = arr(vlen(h["xo"], n if ta == 111 else m, h["incx"], False))
                C = arr(vlen(h["yo"], m if ta == 111 else n, h["incy"], False))
            elif op == "gemm":
                B = arr(h["bo"] + max(h["ldb"], 1) * (n if h["tb"] == 111 else k))
                C = arr(h["co"] + max(h["ldc"], 1) * n)
            elif op == "syrk":
                C = arr(h["co"] + max(h["ldc"], 1) * n)
            # what is documented not to be used
            if ok and rng.random() < .5:
                if op in ("trmv", "trsv", "potf2"):
                    for j in range(n):
                        for i in range(n):
                            if (i > j if up == 121 else i < j) or (i == j and h["di"] == 132 and op != "potf2"):
                                A[at(i, j)] = NAN
                if op in ("gemv", "gemm") and h["beta"] == 0:
                    C = [NAN] * len(C)
                for j in range(cols):
                    for i in range(rows, h["lda"]):
                        A[at(i, j)] = NAN
            mem = [A, B, C]
        fill = "fill %d %d %s" % (single, mode == "exact", " ".join("%d %s" % (len(b), " ".join(float(v).hex() for v in b)) for b in mem))
        return [fill, "call %s %s" % (op, " ".join(float(h[f]).hex() if f in ("alpha", "beta") else str(h[f]) for f in ORDER))]

    sessions = []
    for h in vlib.Check.printed(r["out"]):
        sessions.append([])
        for x in h:
            sessions[-1] += session(x)
    rc, out, err = c.run(exe, stdin="\n".join("\n".join(["reset"] + s) for s in sessions) + "\n", env={"ASAN_OPTIONS": "detect_leaks=0"})
    traces = vlib.split_traces(vlib.parse_ndjson(out))
    if rc != 0 or len(traces) != len(sessions):
        k = max(0, len(traces) - 1)
        last = sessions[k][len(traces[k]) if traces else 0:][:1]
        c.violation("a kernel crashes, hangs or reads beyond its operands (%s) in %s" % (rc, str(last)[:300]), dict(session=sessions[k]))
        return
    c.notes["calls_checked"] = sum(1 for t in traces for e in t if e["ev"] == "call")
    c.sample(sessions[0][:6])
    c.validate("TraceBlas", traces, "", shards=7, label="call", timeout=800,
               describe=lambda i: "session starting with " + " ; ".join(s for s in sessions[i] if s.startswith("call"))[:600])


vlib.main("M01", body)
