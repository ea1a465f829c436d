#!/usr/bin/env python3
"""U01: strings, statuses and constants (Util.tla, Options.tla)."""
import os, re, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "tools"))
import vlib, options


def body(c):
    rng = c.rng
    c.model_check("MCOptions", "SPECIFICATION MCSpec\nCONSTANT Emit = FALSE\nINVARIANTS Sound\nCHECK_DEADLOCK FALSE\n", workers=4)
    cmds = ["null"]
    top = 40 if c.thorough else 18
    for n in range(top + 1):
        t = "".join(rng.choice("abcxyzABC0189_.%$") for _ in range(n)) or "~"
        for size in range(top + 4):
            cmds.append("copy %d 0 %s" % (size, t))
        for size in (0, 1, n, n + 1, 100):
            cmds.append("copy %d 1 %s" % (size, t))
    for size in range(6):
        cmds += ["copy %d 0 -" % size, "copy %d 1 -" % size]
    for _ in range(2000 if c.thorough else 150):
        n = rng.randrange(1, 300)
        cmds.append("copy %d 0 %s" % (max(0, n + rng.randrange(-3, 4)), "".join(rng.choice("abc,;:") for _ in range(n))))
    cmds += ["reason %d" % k for k in list(range(-40, 80)) + [255, 256, 257, 1000, 65536, -65536, 2 ** 31 - 1, -2 ** 31]]
    cmds += ["guess %d" % k for k in range(-5, 140)]
    spec = open(os.path.join(vlib.VERIF, "spec", "Util.tla")).read()
    names = sorted(set(re.findall(r'"(OPK_\w+)"', spec)))
    cmds += ["const " + n for n in names]
    for n in names:
        for m in (n[:-1], n + "_", n.lower(), n[1:], n[4:], n[:4] + "_" + n[4:]):
            cmds.append("const " + m)
    cmds += ["const -", "const ~", "const OPK_", "const OPK", "const O", "const OPK_MAX_STATUS", "const foo"]
    # descriptions in buffers of all sizes
    ok = "0.5 0 0 0.1 0 10"
    for f in [0] + [r + b for r in range(1, 9) for b in (0, 256, 512, 768)]:
        for drv in (0, 1):
            cmds.append("nlcg 2 %d %s %d 0 0" % (drv, ok, f))
    for mem, n in ((1, 1), (7, 10000), (300, 400), (3, 2)):
        for box in (0, 1):
            for drv in (0, 1):
                cmds.append("vmlmb %d %d %s %d %d 1 %d" % (n, drv, ok, mem, rng.randrange(2), box))
    options.run(c, cmds, "utilities")


vlib.main("U01", body)
