from vf import beh


def segments(ctx, n, length):
    r = ctx.rng
    segs = []
    for _ in range(n):
        unit = r.choice([1, 7, 1000, 1000000, 1000000000])
        ops = []
        ms = unit == 1000000
        for _ in range(length):
            k, d = r.randrange(1, 3), r.choice([0, 1, 2, 5, 10, 1000, 12345, 99999])
            x = r.random()
            if x < 0.35:
                ops.append({"op": "tick", "d": d})
            elif x < 0.7:
                ops.append(r.choice([{"op": "pause", "k": k}, {"op": "resume", "k": k}, {"op": "restart", "k": k}, {"op": "new", "k": k, "start": r.random() < 0.5},
                                     {"op": "set", "k": k, "v": d}, {"op": "copy", "k": k, "t": 3 - k}, {"op": "scoped", "k": k, "d": d}]))
            elif x < 0.85:
                ops.append(r.choice([{"op": "sw_split", "n": r.choice("abcd")}] * 5 + [{"op": "sw_restart"}, {"op": "sw_clear"}, {"op": "sw_new"}] + [{"op": "sw_report"}] * 2 * ms))
            elif x < 0.93:
                ops.append(r.choice([{"op": "ch", "k": k}] * 4 + [{"op": "ch_new", "k": k, "d": d}]))
            else:
                v, dec = r.choice([0, 1, 999, 1000, 9999, 10000, 59999, 60000, 3599999, 3600000, r.randrange(100000), r.randrange(2000000000)]), r.choice([3, 3, 1, 2, 4, 6, 0, -1])
                if dec in (1, 2):
                    v -= v % 10      # no ties
                    if dec == 1 and v % 100 == 50:
                        v += 10
                ops.append(r.choice([{"op": "text", "v": v, "d": dec, "hide": r.choice([10, 10, 0, 5, 100])},
                                     {"op": "from", "f": "s", "n": r.choice([-1, 1]) * r.randrange(100000)},
                                     {"op": "from", "f": r.choice(["ms", "ns", "frac", "str"]), "n": r.choice([-1, 1]) * r.choice([r.randrange(100), r.randrange(2000000000)])},
                                     {"op": "big", "neg": r.random() < 0.5, "s": r.choice([r.randrange(100), r.randrange(2147483647)]), "n": r.randrange(10 ** 9)},
                                     {"op": "div", "a": r.choice([r.randrange(-99, 99), r.randrange(-100000000, 100000000)]), "n": r.randrange(1, 20)}, {"op": "units", "n": r.randrange(69)},
                                     {"op": "conv", "n": r.randrange(-200000, 200000)}, {"op": "arith", "a": r.choice([-5, 0, 3, 10 ** 9]), "b": r.choice([-5, 0, 3, 10 ** 9])}]))
        segs.append({"init": {"unit": unit}, "ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("timer")
    q = ctx.quick

    def ex(part, **c):
        def go():
            r = ctx.explore("Timer", consts={"Part": f'"{part}"', **c}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"{part}: every transition")
        return go

    def runs():
        for part in ("timer", "watch", "check"):
            for unit in (1, 1000000):
                r = ctx.simulate("Timer", "TimerSim.cfg", consts={"Part": f'"{part}"', "Unit": unit}, num=60 if q else 2000, depth=42, timeout=850)
                if part == "watch" and unit != 1000000:
                    continue      # reports are stated in milliseconds
                ctx.replay(exe, beh(ctx.emitted(r)), f"{part}: long runs")

    def traces():
        tr = ctx.record(exe, segments(ctx, 50 if q else 800, 120), label="recorded")
        ctx.validate("TimerTrace", tr, exe=exe, label="recorded runs")

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "pause" and e["ret"]["v"] > 0)
            c = [dict(e) for e in t[:i + 1]]
            c[i] = {**c[i], "ret": {"ok": True, "v": c[i]["ret"]["v"] + 1}}
            yield c
        ctx.binding_check("TimerTrace", tr, corrupt)
    ctx.par(ex("timer1", MaxNow=5 if q else 9), ex("timer", MaxNow=2 if q else 3, Ds="{1}" if q else "{1, 2}"), ex("watch", MaxNow=4 if q else 6), ex("check", MaxNow=5 if q else 8), ex("calc", MaxLen=1), runs, traces)
    ctx.need_ops("tick new pause resume restart set copy scoped sw_new sw_restart sw_clear sw_split sw_report ch_new ch text from conv arith big div units".split())
    ctx.assumptions.append("the clock does not run backwards; a timer is set to a time that is not negative; times fit the 64-bit nanosecond range")
