from vf import beh

KINDS = ["lv", "sto", "tab"]
NAMES = "abcd"


def segments(ctx, n, length):
    r = ctx.rng
    segs = []
    for _ in range(n):
        kind, ops, nr, nc = r.choice(KINDS + ["sto", "tab"]), [], 0, 0
        names = r.choice([list("abcd"), list("abcd") + [f"ch{i}" for i in range(12)]])
        big = r.choice([3, 8, 20])
        v = 0
        if r.random() < 0.3 and kind != "lv":
            nr, nc = r.randrange(4), r.randrange(4)
            ops.append({"op": "make", "r": nr, "c": nc, "v": 0 if kind == "tab" else 5})
        for _ in range(length):
            v += 1
            w = r.randrange(-50, 1000) if r.random() < 0.5 else v
            lab = r.choice(names)
            x = r.random()
            if x < 0.14:
                ops.append({"op": r.choice(["add_col", "goa_col"]), "l": lab, "v": w})
            elif kind == "lv":
                ops.append(r.choice([{"op": "find", "l": lab}, {"op": "set_label", "i": r.randrange(8), "l": lab}, {"op": "set_label", "i": r.randrange(4), "l": lab},
                                     {"op": "resize", "r": 0, "c": r.randrange(12), "v": 0}] + [{"op": "clear"}] * (r.random() < 0.1)))
            elif x < 0.2:
                ops.append({"op": "resize", "r": r.randrange(big), "c": r.randrange(big), "v": w})
            elif kind == "tab":
                ops.append(r.choice([
                    {"op": "add_row", "l": lab, "v": w}, {"op": "goa_row", "l": lab, "v": w}, {"op": "set", "i": r.randrange(big), "j": r.randrange(big), "v": w},
                    {"op": "set_back", "j": r.randrange(big), "v": w}, {"op": "lset", "m": r.choice(names), "l": lab, "v": w}, {"op": "lset", "m": r.choice(names), "l": lab, "v": w},
                    {"op": "lget", "m": r.choice(names), "l": lab}, {"op": "fget", "i": r.randrange(big), "l": lab}, {"op": "text"}, {"op": "reread", "sep": r.choice(["\t", " ", "\t ", "  "])}]))
            else:
                o = r.choice(["set_label", "add_frame", "add_frame", "frames", "add_col_data", "set", "set_back", "fset", "fset", "fget", "channel", "interp", "nearest", "cov", "text",
                              "file", "reread", "vec", "sorted", "clear"])
                if o == "set_label":
                    ops.append({"op": o, "i": r.randrange(big), "l": lab})
                elif o == "add_frame":
                    ops.append({"op": o, "v": w})
                elif o == "add_col_data":
                    ops.append({"op": o, "l": lab, "d": [r.randrange(100) for _ in range(r.randrange(big))]})
                elif o == "frames":
                    ops.append({"op": "add_frame_data", "d": [r.randrange(100) for _ in range(r.randrange(6))]})
                elif o in ("set", "set_back"):
                    ops.append({"op": o, "i": r.randrange(big), "j": r.randrange(big), "v": w} if o == "set" else {"op": o, "j": r.randrange(big), "v": w})
                elif o in ("fset", "fget"):
                    ops.append({"op": o, "i": r.randrange(4), "l": lab, "v": w})
                elif o == "channel":
                    ops.append({"op": o, "l": lab})
                elif o == "interp":
                    ops.append({"op": o, "q": r.randrange(4 * big), "j": r.randrange(4)})
                elif o == "nearest":
                    ops.append({"op": o, "x": r.randrange(-3, 30), "j": r.randrange(3)})
                elif o == "vec":
                    ops.append({"op": o, "i": r.randrange(3), "v": w, "q": r.random() < 0.5})
                elif o == "reread":
                    ops.append({"op": o, "sep": r.choice(["\t", " ", "\t ", "  "])})
                elif o == "sorted":  # a time channel, then searches in it
                    ts = sorted(r.randrange(20) for _ in range(r.randrange(1, 9)))
                    ops += [{"op": "clear"}, {"op": "add_col_data", "l": "a", "d": ts}] + [{"op": "nearest", "x": r.randrange(-2, 23), "j": 0} for _ in range(6)]
                elif o == "clear":
                    if r.random() < 0.3:
                        ops.append({"op": o})
                else:
                    ops.append({"op": o})
        segs.append({"init": {"kind": kind}, "ops": ops})
    for _ in range(max(6, n // 10)):
        segs.append({"init": {"kind": "sto"}, "ops": [{"op": "debug", "w": [{"l": r.choice("abc"), "v": r.randrange(50)} for _ in range(r.randrange(9))]} for _ in range(3)]})
    return segs


def run(ctx):
    exe = ctx.build("tables")
    q = ctx.quick

    def ex(kind):
        def go():
            c = {"Kind": f'"{kind}"'}
            if not q:
                c |= {"MaxR": 3, "MaxC": 3, "MaxLen": 14} if kind != "tab" else {"MaxC": 3, "MaxR": 3, "MaxLen": 14, "Names": '{"a", "b", "c"}'}
            elif kind == "lv":
                c |= {"MaxC": 3}
            r = ctx.explore("Tables", consts=c, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"{kind}: every transition")
            r = ctx.simulate("Tables", "TablesSim.cfg", consts={"Kind": f'"{kind}"'}, num=60 if q else 1500, depth=42, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"{kind}: long runs")
        return go

    def traces():
        tr = ctx.record(exe, segments(ctx, 40 if q else 600, 60), label="tables")
        ctx.validate("TablesTrace", tr, exe=exe, label="recorded runs")

        def corrupt(t):
            i = next(k for k, e in enumerate(t) if e["op"] == "resize" and e["ret"]["ok"] and e["obs"]["g"] and e["obs"]["g"][0])
            c = [dict(e) for e in t[:i + 1]]
            c[i] = {**c[i], "obs": {**c[i]["obs"], "g": [[x + 1 for x in w] for w in c[i]["obs"]["g"]]}}
            yield c
        ctx.binding_check("TablesTrace", tr, corrupt)
    ctx.par(*[ex(k) for k in KINDS], traces)
    ctx.need_ops("make add_col add_row add_col_data goa_col goa_row find set_label add_frame add_frame_data clear resize set set_back fset fget lset lget vec channel "
                 "interp nearest cov text file reread debug".split())
    ctx.assumptions.append("labels are non-empty text without white space; values are whole numbers that the streams print in full (at most 6 digits); "
                           "frames obtained before channels are added are not used afterwards for reading through const access")
