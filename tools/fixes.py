#!/usr/bin/env python3
"""For each 'fixed:' entry of known_findings.txt: take the repair back in a scratch copy and see whether the check reports it.
usage: fixes.py [property or commit ...]"""
import os, re, subprocess, sys, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/fixrepo"
ents = re.findall(r"^fixed: property=(\S+) (\S+) (.*)", open(f"{V}/known_findings.txt").read(), re.M)
want = sys.argv[1:]
shutil.rmtree(W, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", W])
res = []
for prop, h, what in ents:
    if want and prop not in want and h not in want:
        continue
    subprocess.call(["git", "-C", W, "reset", "-q", "--hard", "HEAD"])
    p = subprocess.run(["git", "-C", W, "revert", "-n", h], capture_output=True, text=True)
    if p.returncode:
        subprocess.call(["git", "-C", W, "revert", "--abort"], stderr=subprocess.DEVNULL)
        subprocess.call(["git", "-C", W, "reset", "-q", "--hard", "HEAD"])
        res.append((prop, h, "conflict", what))
    else:
        r = subprocess.run([sys.executable, f"{V}/check.py", prop], capture_output=True, text=True, env={**os.environ, "VF_REPO": W})
        res.append((prop, h, {0: "MISSED", 1: "reported"}.get(r.returncode, "error " + (r.stdout + r.stderr)[-300:]), what))
    print(*res[-1], flush=True)
shutil.rmtree(W)
