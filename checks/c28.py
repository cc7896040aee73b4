from vf import beh


def segments(ctx, n, length):
    r = ctx.rng
    many = lambda lo, hi, a, b: [r.randrange(a, b) for _ in range(r.randrange(lo, hi))]
    vec = lambda m: [r.randrange(-m, m + 1) for _ in range(3)]
    direction = lambda: next(v for v in iter(lambda: vec(3), None) if any(v))
    segs = []
    for _ in range(n):
        ops, mem = [], 0
        for _ in range(length):
            x = r.random()
            if mem > 0:
                # filters: a few steps at a time, the fractions get long
                mem -= 1
                if kind == "f":
                    y = r.random()
                    ops.append({"op": "f_fast", "v": r.randrange(-5, 6), "dt": r.choice([1, 2, 4])} if y < 0.4 else {"op": "f_acc", "v": r.randrange(-5, 6), "k": r.randrange(0, 3)} if y < 0.8
                               else {"op": "f_set", "v": r.randrange(-5, 6)} if y < 0.9 else {"op": "f_rate", "r": r.choice([1, 2, 4, 8])})
                else:
                    ops.append({"op": "r_in", "v": r.randrange(-5, 6)})
            elif x < 0.04:
                kind, mem = "f", 4
                ops.append({"op": "f_new", "v": r.randrange(-5, 6), "r": r.choice([1, 2, 4])})
            elif x < 0.08:
                kind, mem = "r", 6
                ops.append({"op": "r_new", "c": [r.randrange(-2, 3) for _ in range(5)]})
            elif x < 0.18:
                ops.append({"op": "scalar", **{k: r.choice([r.randrange(-12, 13), r.randrange(-28, 29)]) for k in "abc"}})
            elif x < 0.24:
                ops.append({"op": "bits", "v": r.choice([r.randrange(0, 300), r.randrange(0, 2 ** 31 - 1), 10 ** r.randrange(0, 10), 2 ** r.randrange(0, 31)]), "b": r.randrange(2, 37), "p": r.randrange(0, 1000), "q": r.randrange(0, 1000)})
            elif x < 0.27:
                ops.append(r.choice([{"op": "tobyte", "v": r.randrange(-3, 12)}, {"op": "rounded", "v": r.randrange(-800, 801), "n": r.randrange(0, 3)}]))
            elif x < 0.31:
                ops.append({"op": "cmp", "a": r.randrange(-20, 21), "b": r.randrange(-20, 21), "k": r.randrange(0, 9)})
            elif x < 0.39:
                l = r.randrange(-40, 41)
                ops.append({"op": "wave", "v": r.choice([r.randrange(-100, 101), l, l - 40]), "l": l, "u": l + r.choice([1, 2, 5, 8, 20])})
            elif x < 0.43:
                l = r.randrange(-10, 11)
                ops.append({"op": "soft", "v": r.randrange(-60, 61), "l": l, "u": l + r.choice([2, 8, 20]), "k": r.randrange(1, 5)})
            elif x < 0.48:
                ops.append({"op": "poly", "c": many(2, 5, -5, 6), "x": r.randrange(-16, 17)})
            elif x < 0.51:
                l = r.randrange(-10, 11)
                ops.append({"op": "eval", "c": many(1, 4, -5, 6), "l": l, "u": l + r.randrange(1, 20), "n": r.randrange(1, 8)})
            elif x < 0.54:
                ops.append({"op": "lerp", "a": r.randrange(-40, 41), "b": r.randrange(-40, 41), "t": r.randrange(-4, 9)})
            elif x < 0.58:
                ks = sorted(set(many(1, 6, -9, 10)))
                ops.append({"op": "lerpmap", "p": [[k, r.randrange(-9, 10)] for k in ks], "k": r.randrange(-45, 46)})
            elif x < 0.61:
                v = many(1, 7, -9, 10)
                ops.append({"op": "lerpvec", "v": v, "k": r.randrange(-4, 4 * len(v) + 5)})
            elif x < 0.64:
                ops.append({"op": "catmull", "p": [r.randrange(-3, 4) for _ in range(4)], "t": r.randrange(0, 5)})
            elif x < 0.67:
                p = many(4, 8, -9, 10)
                t = [r.randrange(-5, 5)]
                while len(t) < len(p) - 2:
                    t.append(t[-1] + r.randrange(1, 4))
                ops.append({"op": "spline", "p": p, "times": t, "k": r.randrange(4 * t[0] - 2, 4 * t[-1] + 3)})
            elif x < 0.77:
                v = many(1, 9, -9, 10)
                ops.append({"op": "stats", "v": v, "k": r.randrange(1, len(v) + 1)})
            elif x < 0.81:
                xs = r.sample(range(-5, 6), r.randrange(2, 6))
                ops.append({"op": "regr", "x": xs, "y": [r.randrange(-5, 6) for _ in xs]})
            elif x < 0.84:
                ops.append({"op": "regrstep", "y": many(2, 7, -5, 6), "x0": r.randrange(-5, 6), "d": r.choice([1, 2, -1, 3])})
            elif x < 0.87:
                c = r.randrange(1, 4)
                ops.append({"op": "cov", "m": [[r.randrange(-5, 6) for _ in range(c)] for _ in range(r.randrange(1, 6))]})
            elif x < 0.91:
                a = vec(5)
                ops.append({"op": "seg", "p": vec(5), "a": a, "b": r.choice([vec(5), vec(5), a])})
            elif x < 0.95:
                d = direction()
                ops.append({"op": "lines", "p": vec(3), "d": d, "q": vec(3), "e": r.choice([direction(), direction(), d, [-2 * i for i in d]])})
            elif x < 0.985:
                ops.append({"op": "path", "s": [[r.randrange(1, 4), r.choice([-5, -2, -1, 1, 2, 3])] for _ in range(r.randrange(1, 6))], "k": r.randrange(-2, 60)})
            elif x < 0.995:
                ops.append(r.choice([{"op": "butter", "k": r.randrange(1, 10)}, {"op": "acos", "k": r.randrange(-2, 3)}, {"op": "span", "v": r.randrange(-10 ** 6, 10 ** 6)}, {"op": "arc", "v": [r.randrange(-9, 10) for _ in range(r.randrange(2, 7))]},
                                     {"op": "table", "lo": r.randrange(-9, 10), "n": r.randrange(0, 300), **r.choice([{"d": 4, "b": -2}, {"d": 5, "b": 0}, {"d": 10, "b": 0}, {"d": 100, "b": 0}])}]))
            else:
                l = r.randrange(-50, 50)
                ops.append({"op": "rng", "seed": r.randrange(0, 10 ** 6), "l": l, "u": l + r.randrange(1, 100)})
        segs.append({"ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("num")
    q = ctx.quick

    def ex(part, **c):
        def go():
            r = ctx.explore("Num", consts={"Part": f'"{part}"', **c}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"{part}: every transition")
        return go

    def traces():
        tr = ctx.record(exe, segments(ctx, 40 if q else 500, 120), label="recorded")
        ctx.validate("NumTrace", tr, exe=exe, label="recorded runs", timeout=850)

        def corrupt(t):
            for op, bad in (("scalar", lambda v: {**v, "sq": [v["sq"][0] + 1, v["sq"][1]]}), ("stats", lambda v: {**v, "median": [v["median"][0] - 1, v["median"][1]]}), ("f_acc", lambda v: {**v, "v": [v["v"][0] + 1, v["v"][1]]})):
                i = max(k for k, e in enumerate(t) if e["op"] == op)
                s = max(k for k in range(i) if t[k]["op"] == "reset")
                yield t[s:i] + [{**t[i], "ret": {"ok": True, "v": bad(t[i]["ret"]["v"])}}]
        ctx.binding_check("NumTrace", tr, corrupt)
    ctx.par(traces, ex("scalar", M=3 if q else 10), ex("bits", M=3 if q else 12), ex("wave", M=3 if q else 8), ex("poly", M=3 if q else 6), ex("lerp", M=1 if q else 2), ex("spline", M=1 if q else 2),
            ex("stats", M=4 if q else 6), ex("regr", M=3 if q else 4), ex("dist"), ex("filter", MaxLen=3 if q else 4), ex("iir", MaxLen=4 if q else 5), ex("odd"))
    ctx.need_ops("scalar bits tobyte rounded cmp wave soft poly eval lerp lerpmap lerpvec catmull spline stats regr regrstep cov seg lines path butter acos span arc table rng f_new f_set f_rate f_fast f_acc r_new r_in".split())
    ctx.assumptions.append("inputs are whole quarters or integers, for which the exact result is a fraction; double results within 1e-9, float results within 2e-4 of them; ranges are not empty, regression has at least two different positions, path points are at least one apart")
