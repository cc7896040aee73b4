from vf import beh


def deque_segments(ctx, n, length):
    r = ctx.rng
    segs = []
    for _ in range(n):
        size, ops, v = 0, [], 0
        bias = r.choice([0.3, 0.5, 0.7])
        for _ in range(length):
            x = r.random()
            v += 1
            if x < 0.75:
                push = r.random() < bias
                side = r.choice(["back", "front"])
                if push:
                    ops.append({"op": "push_" + side, "v": v})
                    size += 1
                else:
                    ops.append({"op": "pop_" + side})
                    size = max(0, size - 1)
            elif x < 0.80 and size:
                ops.append({"op": r.choice(["push_back_alias", "push_front_alias"])})
                size += 1
            elif x < 0.84:
                ops.append({"op": "reserve", "n": r.randrange(0, size + 6)})
            elif x < 0.90 and size:
                ops.append({"op": "set", "i": r.randrange(size), "v": v})
            elif x < 0.91:
                ops.append({"op": "clear"})
                size = 0
            elif x < 0.94:
                ops.append({"op": "copy"})
            else:
                ops.append({"op": r.choice(["front", "back", "cfront", "cback"])})
        segs.append({"init": {"cap": r.choice([0, 0, 1, 2, 5, 8, 16])}, "ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("circ_deque", lib=False)
    r = ctx.explore("CircDeque", consts=None if ctx.quick else {"MaxCap": 8, "MaxSize": 8, "MaxLen": 24})
    ctx.replay(exe, beh(ctx.emitted(r)), "circular_deque: every transition")
    r = ctx.simulate("CircDeque", "CircDequeSim.cfg", num=100 if ctx.quick else 3000, depth=62)
    ctx.replay(exe, beh(ctx.emitted(r)), "circular_deque: long runs")
    tr = ctx.record(exe, deque_segments(ctx, 20 if ctx.quick else 400, 200), label="circular_deque")
    ctx.validate("CircDequeTrace", tr, exe=exe, label="circular_deque: recorded runs")

    def corrupt(t):
        i = next(k for k, e in enumerate(t) if len(e.get("obs", {}).get("at", [])) > 2)
        c = [dict(e) for e in t[:i + 1]]
        c[i] = {**c[i], "obs": {**c[i]["obs"], "at": c[i]["obs"]["at"][::-1]}}
        yield c
    ctx.binding_check("CircDequeTrace", tr, corrupt)

    exe = ctx.build("circ_buffer", lib=False)
    r = ctx.explore("CircBuffer", consts=None if ctx.quick else {"MaxF": 4, "MaxC": 2, "MaxLen": 16})
    ctx.replay(exe, beh(ctx.emitted(r)), "circular_buffer: every transition")
    r = ctx.simulate("CircBuffer", "CircBufferSim.cfg", num=150 if ctx.quick else 3000, depth=52)
    ctx.replay(exe, beh(ctx.emitted(r)), "circular_buffer: long runs")
    ctx.need_ops("push_back push_front push_back_alias push_front_alias pop_back pop_front front back cfront cback "
                 "clear reserve set copy set_back advance clear_back reset_buffer resize add_channel add_frame".split())
