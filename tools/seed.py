"""Plant a bug: build it in a scratch copy, run the stable tests and the demonstration, run the checks, store it.
usage: seed.py new SPEC.py   (SPEC defines id, prop, needs, breaks, edits=[(file, old, new)...], demo=C++ source)
       seed.py run [ids...]  re-run the checks against the stored bugs
"""
import json, os, re, runpy, shutil, subprocess, sys
S = "/tmp/seedrepo"
SEEDED = "/verif/seeded"


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def scratch():
    head = sh("git -C /repo rev-parse HEAD").stdout.strip()
    if not os.path.exists(S):
        sh(f"git clone -q /repo {S}")
        for f in ("build.sh", "test.sh"):
            t = open(f"/opt/vp/{f}").read().replace("/repo", S).replace("/opt/vp/build.sh", f"{S}/.b/build.sh")
            os.makedirs(f"{S}/.b", exist_ok=True)
            open(f"{S}/.b/{f}", "w").write(t)
    sh(f"git -C {S} fetch -q /repo && git -C {S} checkout -qf {head} && git -C {S} submodule update --init")


def tests():
    r = sh(f"bash {S}/.b/test.sh {S}/.b/out.json")
    if not os.path.exists(f"{S}/.b/out.json"):
        return None, r.stdout + r.stderr
    o = json.load(open(f"{S}/.b/out.json"))
    base = set(json.load(open("/opt/vp/BASELINE.json"))["stable_pass"]) if "stable_pass" in open("/opt/vp/BASELINE.json").read() else None
    return o, r.stdout + r.stderr


def demo(d):
    return sh(f"bash {d}/demo.sh", cwd=S, timeout=300)


def check(prop, tier="quick"):
    env = dict(os.environ, VF_REPO=S)
    r = sh(f"python3 /verif/check.py {prop} {tier}", cwd="/verif", env=env)
    v = [l for l in r.stdout.splitlines() if l.startswith("VIOLATION")]
    return r.returncode, (v or r.stdout.splitlines()[-3:] + r.stderr.splitlines()[-3:])[:2]


DEMO = '''#!/bin/bash
# exit 0: behaves as stated; nonzero: it does not.  Run in the repository's root after the build.
here=$(cd "$(dirname "$0")" && pwd)
d=$(mktemp -d) || exit 3
trap 'rm -rf "$d"' EXIT
g++ -std=c++17 -w -O1 -g -pthread -I"$PWD" "$here/demo.cpp" %s -o "$d/demo" -ldl || exit 3
cd "$d" && timeout 60 ./demo
'''


def new(spec):
    m = runpy.run_path(spec)
    scratch()
    d = f"/tmp/seednew-{m['id']}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(f"{d}/demo.cpp", "w").write(m["demo"])
    lib = '"$PWD"/xo/*/*.cpp' if m.get("lib", True) else ""
    open(f"{d}/demo.sh", "w").write(m.get("demosh", DEMO % lib))
    r0 = demo(d)
    if r0.returncode:
        print("DEMO FAILS ON UNCHANGED TREE", r0.returncode, r0.stdout[-800:], r0.stderr[-2500:]); return
    for f, a, b in m["edits"]:
        p = f"{S}/{f}"
        s = open(p, encoding="latin-1", newline="").read()
        if "\r\n" in s:
            a, b = a.replace("\n", "\r\n"), b.replace("\n", "\r\n")
        assert s.count(a) == 1, (f, s.count(a), a)
        open(p, "w", encoding="latin-1", newline="").write(s.replace(a, b))
    patch = subprocess.run(["git", "-C", S, "diff", "--binary"], capture_output=True).stdout
    open(f"{d}/patch.diff", "wb").write(patch)
    json.dump({"property": m["prop"], "needs": m["needs"], "what_it_breaks": m["breaks"]},
              open(f"{d}/meta.json", "w"), indent=1)
    o, txt = tests()
    base = json.load(open("/opt/vp/BASELINE.json"))
    names = base["stable"]
    miss = [n for n in names if n not in o["passed"]]
    r1 = demo(d)
    print(m["id"], "tests missing:", miss, "demo with patch:", r1.returncode, (r1.stdout + r1.stderr)[-200:].strip())
    if miss or r1.returncode in (0, 3):
        print("REJECTED", txt[-300:] if miss else r1.stderr[-2000:])
    else:
        shutil.rmtree(f"{SEEDED}/{m['id']}", ignore_errors=True)
        shutil.copytree(d, f"{SEEDED}/{m['id']}")
        print("  check", m["prop"], *check(m["prop"]))
    sh(f"git -C {S} checkout -qf .")
    shutil.rmtree(d)


def run(ids):
    scratch()
    for i in ids or sorted(os.listdir(SEEDED)):
        meta = json.load(open(f"{SEEDED}/{i}/meta.json"))
        r = sh(f"git -C {S} apply {SEEDED}/{i}/patch.diff")
        if r.returncode:
            print(i, "DOES NOT APPLY", r.stderr); continue
        print(i, meta["property"], *check(meta["property"]), flush=True)
        sh(f"git -C {S} checkout -qf .")


if __name__ == "__main__":
    (new(sys.argv[2]) if sys.argv[1] == "new" else run(sys.argv[2:]))
