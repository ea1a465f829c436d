#!/usr/bin/env python3
"""Nothing is kept between runs: every check compiles what it needs from /repo's current tree.
This only verifies that the tools are there and that the specifications parse."""
import os, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import vlib
for tool in ("gcc", "java", "javac"):
    if subprocess.run(["which", tool], capture_output=True).returncode != 0:
        sys.exit("missing tool: " + tool)
for j in (vlib.TLA_JAR, vlib.CM_JAR):
    if not os.path.exists(j):
        sys.exit("missing: " + j)
print("ok")
