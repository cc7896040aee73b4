from vf import beh

KINDS = ["vec", "col", "ic"]


def segments(ctx, n, length):
    r = ctx.rng
    segs = []
    for _ in range(n):
        kind, size, ops = r.choice(KINDS), 0, []
        big = r.random() < 0.5
        for v in range(1, length + 1):
            x, k = r.random(), r.randrange(1, 4)
            if x < (0.45 if big else 0.3):
                ops.append({"op": r.choice(["push", "push_move"]), "v": v, "k": k})
                size += 1
            elif x < 0.5:
                ops.append({"op": r.choice(["get", "cget", "get"]), "k": k})
            elif x < 0.58 and size:
                ops.append({"op": "handle_of", "i": r.randrange(size), "k": k})
            elif x < 0.66 and kind != "ic":
                i = r.randrange(size + 1)
                j = min(size, i + r.choice([0, 1, 1, 2, 5]))
                ops.append({"op": r.choice(["erase_update", "erase_update", "erase_span"]), "i": i, "j": j})
                size -= j - i
            elif x < 0.70 and size:
                i = r.randrange(size)
                ops += [{"op": "handle_of", "i": i, "k": k}, {"op": "erase", "k": k}]
                size -= 1
            elif x < 0.75 and size:
                ops += [{"op": "handle_of", "i": r.randrange(size), "k": k}, {"op": "set", "k": k, "v": 1000 + v}]
            elif x < 0.79:
                ops.append({"op": "pop_back"})
                size = max(0, size - 1)
            elif x < 0.80:
                ops.append({"op": "clear"})
                size = 0
            elif x < 0.84:
                ops.append({"op": "back_handle", "k": k})
            elif x < 0.92:
                ops.append({"op": r.choice(["copy", "move", "move_assign"]), "k": k, "t": k % 3 + 1})
            elif x < 0.96 and kind == "vec" and size:
                ops.append(r.choice([{"op": "find", "v": r.randrange(v), "k": k}, {"op": "find_from", "v": r.randrange(v), "i": r.randrange(size + 1), "k": k},
                                     {"op": "at", "i": r.randrange(size + 1), "k": k}]))
            elif kind != "vec":
                ops.append(r.choice([{"op": "push_b", "v": v}, {"op": "pop_b"}]))
            else:
                ops.append({"op": "reset_h", "k": k})
        segs.append({"init": {"kind": kind}, "ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("handles", lib=False)

    def ex(kind):
        def go():
            r = ctx.explore("Handles", consts={"Kind": f'"{kind}"', "MaxSize": 2 if ctx.quick else 3}, timeout=800)
            ctx.replay(exe, beh(ctx.emitted(r)), f"{kind}: every transition")
            r = ctx.simulate("Handles", "HandlesSim.cfg", consts={"Kind": f'"{kind}"'}, num=60 if ctx.quick else 1500, depth=62, timeout=800)
            ctx.replay(exe, beh(ctx.emitted(r)), f"{kind}: long runs")
        return go

    def traces():
        tr = ctx.record(exe, segments(ctx, 30 if ctx.quick else 400, 150), label="handles")
        ctx.validate("HandlesTrace", tr, exe=exe, label="recorded runs")

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "erase_update" and any(x >= 0 for x in e["obs"]["h"]))
            c = [dict(e) for e in t[:i + 1]]
            c[i] = {**c[i], "obs": {**c[i]["obs"], "h": [x + 1 for x in c[i]["obs"]["h"]]}}
            yield c
        ctx.binding_check("HandlesTrace", tr, corrupt)
    ctx.par(*[ex(k) for k in KINDS], traces)
    ctx.need_ops("push push_move emplace push_b pop_b get cget set erase erase_span erase_update pop_back clear find find_from at "
                 "handle_of back_handle copy move move_assign reset_h idx8".split())
