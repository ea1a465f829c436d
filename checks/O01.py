#!/usr/bin/env python3
"""O01: options, names and descriptions (Options.tla)."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, options, optim


def body(c):
    rng = c.rng
    cases = options.grid(c)
    few = 60000 if c.thorough else 3000
    bare = [x for x in cases]
    if len(bare) > few:
        bare = rng.sample(bare, few)
    cmds = ["defaults", "null"]
    for alg, n, args in bare:
        drv = 0
        if rng.random() < .2:
            drv = 1
            if alg == "vmlmb":
                args = args[:-1] + [str(min(1, int(args[-1])))]
        if not drv and n == 0 and alg == "vmlmb":
            args = args[:-1] + ["0"]
        # (the box flag comes after save_memory)
        if alg == "vmlmb":
            args = args[:-1] + [str(rng.randrange(2)), args[-1]]
        cmds.append("%s %d %d %s" % (alg, n, drv, " ".join(args)))
    # every rule and every combination of bounds with valid options, for sure
    ok = "0.5 0 0 0.1 0 10"
    for f in [0] + [r + b for r in range(1, 9) for b in (0, 256, 512, 768)]:
        for drv in (0, 1):
            cmds.append("nlcg 2 %d %s %d 0 0" % (drv, ok, f))
    for mem in (1, 2, 3, 10, 2000000000):
        for n in (1, 2, 12):
            for bl in (0, 1):
                for box in (0, 1):
                    for drv in (0, 1):
                        cmds.append("vmlmb %d %d %s %d %d %d %d" % (n, drv, ok, mem, bl, rng.randrange(2), box))
    for alg in (0, 1):
        for fl in (0, 1):
            for b in ((0, 1) if alg else (0,)):
                for k in ((0,) if alg else (0, 1)):
                    for _ in range(40 if c.thorough else 4):
                        cmds.append("twin %d %d %d %d %d" % (alg, fl, b, k, rng.randrange(10 ** 9)))
    options.run(c, cmds, "options")
    # the options are honoured: runs with many of them
    for aspect in ("contract", "direction"):
        runs = []
        for k in range(800 if c.thorough else 96):
            n = rng.choice([1, 2, 3])
            runs.append(optim.session(rng, optim.nlcg_new(rng, n, k % 8 + 1), n, 30))
        optim.run(c, runs, "TraceNlcg", 'CONSTANT Aspect = "%s"\n' % aspect, "NLCG run")
    for aspect in ("contract", "memory"):
        runs = []
        for k in range(800 if c.thorough else 96):
            n = rng.choice([1, 2, 3])
            runs.append(optim.session(rng, optim.vmlmb_new(rng, n, k % 3 > 0), n, 30))
        optim.run(c, runs, "TraceVmlmb", 'CONSTANT Aspect = "%s"\n' % aspect, "VMLMB run")


vlib.main("O01", body)
