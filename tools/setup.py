#!/usr/bin/env python3
"""setup_cmd: the framework needs no build of its own (every check builds its driver from /repo); verify the tools are there."""
import os, shutil, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(V, "build"), exist_ok=True)
os.makedirs(os.path.join(V, "evidence"), exist_ok=True)
for t in ("java", "g++"):
    if not shutil.which(t):
        sys.exit(f"{t} is missing")
for j in ("tla2tools.jar", "CommunityModules-deps.jar"):
    if not os.path.exists("/opt/veriftools/tla/" + j):
        sys.exit(f"{j} is missing")
print("ok")
