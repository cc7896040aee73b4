from vf import beh


def segments(ctx, n, length):
    r = ctx.rng
    segs = []
    for _ in range(n):
        ops = []
        for i in range(length):
            n_ = r.randrange(1, 10)
            t = r.randrange(1, 5)
            ops.append(r.choice([{"op": "register", "n": n_, "t": t}, {"op": "register_default", "t": t}, {"op": "unregister", "n": n_},
                                 {"op": "create", "n": n_, "x": i, "y": -i}, {"op": "try_create", "n": n_, "x": i, "y": -i}, {"op": "has", "n": n_},
                                 {"op": "find_node", "ks": [r.randrange(1, 10) for _ in range(r.randrange(5))]}, {"op": "copy"},
                                 {"op": "registrant", "r": r.randrange(1, 3), "n": n_, "t": t}, {"op": "registrant_end", "r": r.randrange(1, 3)}]))
        segs.append({"init": {}, "ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("factory")
    q = ctx.quick

    def ex():
        r = ctx.explore("Factory", consts=None if q else {"Names": "{1, 3, 4, 9}"}, timeout=800)
        ctx.replay(exe, beh(ctx.emitted(r)), "factory: every transition")

    def sim():
        r = ctx.simulate("Factory", "FactorySim.cfg", num=60 if q else 2000, depth=42, timeout=800)
        ctx.replay(exe, beh(ctx.emitted(r)), "factory: long runs")

    def traces():
        tr = ctx.record(exe, segments(ctx, 30 if q else 400, 150), label="factory")
        ctx.validate("FactoryTrace", tr, exe=exe, label="recorded runs")

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "create" and e["ret"]["ok"])
            c = [dict(e) for e in t[:i + 1]]
            v = c[i]["ret"]["v"]
            c[i] = {**c[i], "ret": {"ok": True, "v": [v[0] % 2 + 1] + v[1:]}}
            yield c
        ctx.binding_check("FactoryTrace", tr, corrupt)
    ctx.par(ex, sim, traces)
    ctx.need_ops("register register_default unregister create try_create has find_node registrant registrant_end copy".split())
