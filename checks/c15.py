from vf import beh


def segments(ctx, n, length):
    r = ctx.rng
    segs = []
    for _ in range(n):
        ops, depth, on, total, names = [], 0, False, 0, r.choice(["ab", "abc", "abcdefgh"])
        if r.random() < 0.3:
            ops.append({"op": "report", "min": 0, "tag": False})
        for _ in range(length):
            x = r.random()
            if not on and r.random() < 0.4:
                ops.append({"op": "start", "name": r.choice(["TOTAL", "run"])})
                on, total, depth = True, 0, 0
            elif x < 0.35:
                d = r.choice([0, 1, 1, 2, 3, 10, 50, 333])
                ops.append({"op": "tick", "d": d})
                total += d * on
            elif x < 0.65 and (depth < 8 or not on):
                if on:
                    ops.append({"op": "enter", "name": r.choice(names)})
                    depth += 1
            elif x < 0.93:
                if on and depth:
                    ops.append({"op": "leave"})
                    depth -= 1
            elif on and depth == 0 and x < 0.97:
                if total == 0:
                    ops.append({"op": "tick", "d": 7})
                if r.random() < 0.5:
                    ops.append({"op": "stop"})
                ops += [{"op": "report", "min": m, "tag": t} for m, t in r.sample([(0, False), (0, True), (1, False), (5, True), (50, False), (100, True), (101, False)], 3)]
                on = False
            elif on:
                ops.append(r.choice([{"op": "start", "name": "x"}] + [{"op": "stop"}, {"op": "report", "min": 0, "tag": False}] * (depth > 0)))
        if on:
            ops += [{"op": "leave"}] * depth + [{"op": "tick", "d": 3}, {"op": "report", "min": 0, "tag": True}]
        segs.append({"ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("profiler")
    q = ctx.quick

    def every():
        r = ctx.explore("Profiler", consts={"MaxNow": 3, "MaxNodes": 4, "MaxLen": 9} if q else {"MaxNow": 4, "MaxNodes": 4, "MaxLen": 13}, timeout=850)
        ctx.replay(exe, beh(ctx.emitted(r)), "every transition")

    def runs():
        r = ctx.simulate("Profiler", "ProfilerSim.cfg", num=150 if q else 3000, depth=52, timeout=850)
        ctx.replay(exe, beh(ctx.emitted(r)), "long runs")

    def traces():
        tr = ctx.record(exe, segments(ctx, 60 if q else 1000, 120), label="recorded")
        ctx.validate("ProfilerTrace", tr, exe=exe, label="recorded runs")

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "report" and e["ret"].get("v") and e["ret"]["v"][0]["ch"])
            for f, v in (("ms", 1), ("count", 1), ("excl", 2)):
                c = [dict(e) for e in t[:i + 1]]
                root = c[i]["ret"]["v"][0]
                kid = {**root["ch"][0], f: root["ch"][0][f] + v}
                c[i] = {**c[i], "ret": {"ok": True, "v": [{**root, "ch": [kid] + root["ch"][1:]}]}}
                yield c
        ctx.binding_check("ProfilerTrace", tr, corrupt)
    ctx.par(every, runs, traces)
    ctx.need_ops("tick start enter leave stop report".split())
    ctx.assumptions.append("sections are entered and left by one thread in nested order; a section has one label object (labels are compared by address); "
                           "the clock does not run backwards; the run took time before it is reported")
