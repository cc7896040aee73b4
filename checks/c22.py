from vf import beh


def segments(ctx, n, length):
    r = ctx.rng
    segs = []
    for _ in range(n):
        ops = []
        for _ in range(length):
            k, t = r.sample(range(1, 5), 2)
            a, b = r.sample(range(1, 7), 2)
            i, j = r.sample(range(1, 4), 2)
            w = r.random() < 0.2
            ops.append(r.choice([{"op": "new_source", "k": k, "w": w}, {"op": r.choice(["copy_source", "assign_source", "move_source", "move_assign_source"]), "k": k, "t": t},
                                 {"op": "get_token", "k": k, "t": a}, {"op": "get_token", "k": t, "t": b}, {"op": "new_token", "k": a},
                                 {"op": r.choice(["copy_token", "assign_token", "move_token", "move_assign_token"]), "k": a, "t": b},
                                 {"op": "request", "k": k, "w": w}, {"op": "new_int", "k": i, "w": w}, {"op": "interrupt", "k": i, "w": w},
                                 {"op": r.choice(["copy_int", "assign_int"]), "k": i, "t": j}]))
        segs.append({"init": {"ns": 4, "nt": 6, "ni": 3}, "ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("stop")
    q = ctx.quick

    def every():
        c = {"NSrc": 2, "NTok": 2 if q else 3, "NInt": 1 if q else 2, "MaxState": 3 if q else 4}
        r = ctx.explore("Stop", consts=c, timeout=850)
        ctx.replay(exe, beh(with_init(ctx.emitted(r), c)), "every transition")

    def runs():
        r = ctx.simulate("Stop", "StopSim.cfg", num=300 if q else 8000, depth=42, timeout=850)
        ctx.replay(exe, beh(with_init(ctx.emitted(r), {"NSrc": 3, "NTok": 4, "NInt": 2})), "long runs")

    def traces():
        tr = ctx.record(exe, segments(ctx, 40 if q else 600, 100), label="recorded")
        ctx.validate("StopTrace", tr, exe=exe, label="recorded runs")

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "request" and any(e["obs"]["tr"]))
            c = [dict(e) for e in t[:i + 1]]
            c[i] = {**c[i], "obs": {**c[i]["obs"], "tr": [not x for x in c[i]["obs"]["tr"]]}}
            yield c
        ctx.binding_check("StopTrace", tr, corrupt)

    def races():
        ctx.races(["stop", "interrupt"])
    ctx.par(every, runs, traces, races)
    ctx.need_ops("new_source copy_source assign_source move_source move_assign_source get_token new_token copy_token assign_token move_token "
                 "move_assign_token request new_int interrupt copy_int assign_int".split())


def with_init(emitted, c):
    for e in emitted:
        yield {**e, "i": {"ns": c["NSrc"], "nt": c["NTok"], "ni": c["NInt"]}}
