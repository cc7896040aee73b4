from vf import beh

STEPS = ["ok", "bad", "cthrow", "throw", "empty", "int", "cint"]


def suites(ctx, n):
    r = ctx.rng
    segs = []
    for _ in range(n):
        ops = []
        for _ in range(4):
            good = r.random() < 0.4

            def run():
                return [r.choice(["ok"] * 8 + (["ok"] if good else STEPS)) for _ in range(r.choice([0, 1, 2, 5]))]
            cs = [[run() for _ in range(r.choice([1, 1, 2, 3]))] for _ in range(r.choice([1, 2, 5, 12]))]
            ops.append({"op": "suite", "cs": cs, "times": r.choice([1, 1, 2]), "how": [r.choice(["sync", "async", "main"]) for _ in range(r.choice([1, 2, 3]))]})
            if r.random() < 0.5:
                ops.append({"op": "case", "c": cs[0], "n": r.choice([1, 2, 4])})
        segs.append({"ops": ops})
    # many failures
    segs += [{"ops": [{"op": "suite", "cs": [[["bad"]]], "times": m, "how": h}]} for m in (255, 256, 257, 512) for h in (["main"], ["sync"])]
    segs.append({"ops": [{"op": "suite", "cs": [[["ok"]]], "times": 300, "how": ["main", "async"]}]})
    return segs


def run(ctx):
    exe = ctx.build("test_fw")
    q = ctx.quick
    listed = {"Listed": "{" + ", ".join(f'"{k}"' for k in ctx.known) + "}"}

    def compare(behaviours, label):
        """Where a listed defect makes a difference, the code does the right thing or exactly what is listed."""
        strict, odd = [], []
        for b in behaviours:
            for o in b["ops"]:
                key, alt = o.pop("key"), o.pop("alt")
                if key:
                    odd.append((o, alt, key))
                else:
                    strict.append({**b, "ops": [o]})
        ctx.replay(exe, strict, label, batch=200)
        ctx.replay_known(exe, odd, label)

    def every(c):
        def go():
            r = ctx.explore("TestFw", consts=c, timeout=850)
            compare(beh(ctx.emitted(r)), f"every suite of {c['MaxCases']} cases of {c['MaxSteps']} steps")
        return go

    def traces():
        tr = ctx.record(exe, suites(ctx, 60 if q else 1000), label="suites", timeout=600)
        ctx.validate("TestFwTrace", tr, exe=exe, label="recorded suites", timeout=850, consts=listed)
        for m in (256, 512):  # a multiple of 256 failures
            o = {"op": "suite", "cs": [[["bad"]]], "times": m, "how": ["main"]}
            rep, crash = ctx.execute(exe, [o])
            if crash or rep[0]["ret"]["v"][0]["failed"] != 1 and not ctx.known_finding("exit-code-256"):
                ctx.violation(f"a program with {m} failed test cases returned exit code 0", {"kind": "replay", "ops": [o]})

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "suite" and e["how"][0] == "sync")
            v = t[i]["ret"]["v"]
            yield t[:i] + [{**t[i], "ret": {"ok": True, "v": [{**v[0], "failed": v[0]["failed"] + 1}] + v[1:]}}]
        ctx.binding_check("TestFwTrace", tr, corrupt)
    a = '{"ok", "bad", "cthrow", "throw", "empty", "int", "cint"}'
    jobs = [every({"Steps": a, "MaxSteps": 1, "MaxCases": 2}), every({"Steps": '{"ok", "bad", "empty"}', "MaxSteps": 3 if not q else 2, "MaxCases": 1})]
    if not q:
        jobs += [every({"Steps": a, "MaxSteps": 2, "MaxCases": 1}), every({"Steps": '{"ok", "bad", "throw"}', "MaxSteps": 2, "MaxCases": 2})]
    ctx.par(traces, *jobs)
    ctx.need_ops(["suite", "case"])
    ctx.assumptions.append("a test case makes its checks from one thread; process exit codes are 8 bits wide")
