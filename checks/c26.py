from vf import beh

NONE = -1000


def segments(ctx, n, length):
    r = ctx.rng
    segs = []
    for _ in range(n):
        ops = []
        av, pl = 0, 0
        w, nn = r.choice([1, 2, 4, 8]), r.choice([2, 3, 5])
        ops.append({"op": "dy_new", "n": nn, "w": w, "v": r.choice([0, 3, -7]), "smooth": r.random() < 0.5})
        xs = set()
        for _ in range(length):
            i, v, b = r.choice([1, 2]), r.choice([0, 1, 2, -1, 5, 100, -77, r.randrange(-1000, 1000)]), r.randrange(-30, 30)
            x = r.random()
            if x < 0.1:
                ops.append({"op": r.choice(["cv"] * 5 + ["cv_new"]), "t": r.choice([0, 1, 5, 6]), "n": r.choice([v, v, NONE]) if ops and r.random() < 0.5 else v})
            elif x < 0.16:
                ops.append({"op": r.choice(["dl"] * 5 + ["dl_new"]), "v": v})
            elif x < 0.28:
                wt = r.choice([0, 1, 1, 2, 3])
                if av + wt > 8 or r.random() < 0.1:
                    ops.append({"op": "av_reset"})
                    av = 0
                else:
                    ops.append({"op": "av_add", "v": v, "w": wt})
                    av += wt
            elif x < 0.42:
                k = r.choice(["int", "double", "bool", "string"])
                f = r.choice(["op_new", "op_reset", "op_copy", "op_assign", "op_value", "op_make", "op_set", "op_set", "op_edit"])
                z = abs(v) % 2 if k == "bool" else abs(v) if k == "string" else r.choice([v] * 5 + [NONE] * (f != "op_edit"))
                ops.append({"op": f, "k": k, "i": i, **({"v": z} if f in ("op_make", "op_set", "op_edit") else {})})
            elif x < 0.5:
                ops.append(r.choice([{"op": r.choice(["rs_new", "rs_copy", "rs_assign"]), "i": i}, {"op": r.choice(["rs_make", "rs_set"]), "i": i, "v": v},
                                     {"op": r.choice(["rs_err", "rs_seterr"]), "i": i, "e": [ord(ch) for ch in r.choice(["x", "no value", "e" * 40])]},
                                     {"op": r.choice(["em_set", "em_append"]), "e": [ord(ch) for ch in r.choice(["a", "bc", "def", "m" * 30])]}]))
            elif x < 0.6:
                k = r.choice(["u8", "u32"])
                f = r.choice(["int", "size", "raw", "none"])
                z = r.choice([0, 1, 2, 100, 253, 254, 255, 256, 1000, 65535])
                ops.append(r.choice([{"op": "ix_new", "k": k, "i": i, "f": f, "v": min(z, 254) if f == "raw" else z}] * 2 + [{"op": r.choice(["ix_copy", "ix_assign", "ix_move", "ix_move_assign"]), "k": k, "i": i}]))
            elif x < 0.65:
                ops.append({"op": r.choice(["bd_new", "bd_set", "bd_assign"]), "v": r.choice([-3, -2, 0, 3, 4, v])})
            elif x < 0.75:
                lo = r.randrange(-50, 50)
                ops.append(r.choice([{"op": r.choice(["bo_new", "bo_extend"]), "l": lo, "u": lo + r.choice([0, 1, 10, 33])}, {"op": "bo_q", "v": r.choice([lo, b, v])},
                                     {"op": "bo_text", "f": r.choice(["str", "pair", "names", "other", "swapped"])}]))
            elif x < 0.8:
                ops.append({"op": "pc_put", "x": r.randrange(-3, 6), "y": v})
                # places of a line stay within eight of each other
                ops.append({"op": "pl_put", "x": r.choice([-2, -1, 0, 1, 2, 3]), "y": r.randrange(-50, 50)})
            elif x < 0.82:
                ops.append({"op": "rp", "f": [r.randrange(-50, 50) for _ in range(4)], "l": b, "s": r.choice([1, 2, 3, 8])})
            elif x < 0.92:
                ops += [{"op": "dy", "v": r.randrange(-20, 20), "dt": r.choice([1, 1, w, r.randrange(1, w + 1)])} for _ in range(3)]
            elif x < 0.96:
                n2 = r.randrange(1, 9)
                ops.append(r.choice([{"op": "ir", "b": b, "e": r.randrange(-40, 40), "s": r.choice([1, 1, 2, 3, 7, -1, -2, -5])}, {"op": "fr", "l": b, "u": b + r.randrange(0, 20), "n": n2},
                                     {"op": "fi", "l": b, "u": b + r.choice([0, 1, 2]), "inc": r.choice([1, 2, 3, 4, 8])}]))
            else:
                xs = [r.randrange(0, 5) for _ in range(r.choice([0, 1, 5, 20]))]
                ops.append(r.choice([{"op": "vi", "xs": xs, "keep": r.sample(range(5), r.randrange(0, 5))},
                                     {"op": "zp", "xs": xs, "ys": [r.randrange(0, 50) for _ in range(len(xs) + r.choice([0, 0, 3]))]}]))
        segs.append({"ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("incr")
    q = ctx.quick

    def ex(part, **c):
        def go():
            r = ctx.explore("Incr", consts={"Part": f'"{part}"', **c}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"{part}: every transition")
        return go

    def traces():
        tr = ctx.record(exe, segments(ctx, 40 if q else 600, 150), label="recorded")
        ctx.validate("IncrTrace", tr, exe=exe, label="recorded runs", timeout=850)

        def corrupt(t):
            for op, bad in (("dy", lambda v: v + 1), ("dl", lambda v: v + 1), ("pl_put", lambda v: {**v, "v": [x + 1 for x in v["v"]]})):
                i = max(k for k, e in enumerate(t) if e["op"] == op and (op != "pl_put" or e["ret"]["v"]["v"]))
                s = max(k for k in range(i) if t[k]["op"] == "reset")
                yield t[s:i] + [{**t[i], "ret": {"ok": True, "v": bad(t[i]["ret"]["v"])}}]
        ctx.binding_check("IncrTrace", tr, corrupt)
    big = {"MaxLen": 40}
    ctx.par(traces, ex("cv", **big), ex("dl", MaxV=3 if q else 8, **big), ex("av", MaxN=3 if q else 6, **big), ex("op", MaxLen=40, MaxV=1 if q else 2), ex("rs", MaxV=1, **big),
            ex("ix", MaxLen=3 if q else 5, Rich="FALSE" if q else "TRUE"), ex("bd", MaxV=4, **big), ex("bo", MaxV=2 if q else 4, **big), ex("pc", MaxN=2 if q else 3, MaxV=1 if q else 2, **big), ex("rp", MaxV=1 if q else 2, MaxLen=1),
            ex("dy", MaxLen=11 if q else 14, MaxV=4), ex("range", MaxLen=1, MaxV=4 if q else 9), ex("view", MaxLen=1, MaxN=4 if q else 6))
    ctx.need_ops("cv cv_new dl dl_new av_add av_reset op_new op_make op_set op_reset op_copy op_assign op_value op_edit rs_new rs_make rs_set rs_err rs_seterr rs_copy rs_assign em_set em_append "
                 "ix_new ix_copy ix_assign ix_move ix_move_assign ix_inc ix_add ix_span bd_new bd_set bd_assign bo_new bo_extend bo_q bo_text pc_put pl_put rp dy_new dy ir fr fi vi zp".split())
    ctx.assumptions.append("exact results: values, places, windows and steps are such that the floating point results are exact or within 1e-4 of a multiple of 1/840; weights are not negative; ranges have a step other than 0; a view outlives its iterators; the second range of zip is at least as long as the first")
