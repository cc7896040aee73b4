from vf import beh

NAMES = ["red", "green", "blue", "dark_red"]
DATES = [("2024-01-02", True), ("2024.01.02", True), ("2024/1/2", True), ("2024-01", False), ("", False), ("2024-x-02", False), ("1-2-3-4", False), ("--", False), ("2024 01 02", False)]


def segments(ctx, n, length):
    r = ctx.rng

    def some(xs, m):
        return [r.choice(xs) for _ in range(r.randrange(0, m + 1))]

    def word():
        if r.random() < 0.06:
            return {"t": r.choice(["x", "a1", "--3", ".", "NaN"]), "n": -1000}
        k = r.choice([0, 7, -1, 12345, -99, r.randrange(-10 ** 9, 10 ** 9)])
        return {"t": "%d" % k, "n": k if k != -1000 else -999}
    segs = []
    for _ in range(n):
        ops = []
        for _ in range(length):
            x, i = r.random(), r.randrange(1, 3)
            if x < 0.2:
                f = some(range(1, 6), 3)
                ops.append(r.choice([{"op": "fl_set", "i": i, "f": f, "v": r.random() < 0.7}, {"op": "fl_clear", "i": i, "f": f}, {"op": "fl_q", "i": i, "f": f}, {"op": "fl_new", "i": i, "f": f},
                                     {"op": "fl_toggle", "i": i, "f": r.randrange(1, 6)}, {"op": "fl_copy", "i": i}, {"op": "fl_none", "i": i}]))
            elif x < 0.45:
                k, v = r.randrange(0, 12), r.randrange(0, 50)
                ops.append(r.choice([{"op": "dy_new", "i": i, "n": k, "v": v}, {"op": "dy_resize", "i": i, "n": k, "v": v}, {"op": "dy_alias", "i": i, "n": k}, {"op": "dy_set", "i": i, "k": k // 2, "v": v}, {"op": "dy_set", "i": i, "k": k, "v": v},
                                     {"op": "dy_at", "i": i, "k": k}, {"op": "dy_assign", "i": i, "v": v}, {"op": "dy_self", "i": i}, {"op": "dy_copy", "i": i}, {"op": "dy_move", "i": i}, {"op": "dy_clear", "i": i}]))
            elif x < 0.5:
                ops.append({"op": "pd"})
            elif x < 0.58:
                ops.append({"op": "search", "xs": some(range(-3, 4), 9), "e": r.randrange(-4, 4), "k": r.randrange(0, 10)})
            elif x < 0.62:
                a, b = sorted([some(range(50), 7), some(range(50), 7)], key=len)
                ops.append({"op": "copy", "xs": a, "ys": b})
            elif x < 0.65:
                ops.append({"op": "stream", "v": [r.randrange(-99, 99) for _ in range(3)], "q": [r.randrange(-99, 99) for _ in range(4)], "x": r.randrange(-99, 99)})
            elif x < 0.73:
                ops.append({"op": "words", "w": [word() for _ in range(r.randrange(0, 9))], "s": r.choice([" ", "\n", "\t", "\r\n", "   ", " \n "]), "lead": r.random() < 0.3, "end": r.random() < 0.5})
            elif x < 0.78:
                w = r.randrange(1, 10)
                ops.append({"op": "plot", "f": [[r.randrange(-9, 10) for _ in range(w)] for _ in range(r.randrange(1, 7))], "x": r.randrange(-9, 3), "h": r.randrange(1, 12)})
            elif x < 0.82:
                ops.append({"op": "hash", "s": some(range(1, 128), 12)})
            elif x < 0.87:
                t = some([97, 95, 108, 114, 76, 200], 5)
                ops.append({"op": "side", "s": t + r.choice([[], [95, 108], [95, 114], [95], [108]]), "d": r.randrange(-1, 2), "t": some([97, 95, 114], 3)})
            elif x < 0.9:
                ops.append({"op": "tidy", "s": some([97, 95, 46, 58, 66], 9)})
            elif x < 0.93:
                w = r.choice(NAMES)
                ops.append({"op": "enum", "w": r.choice([w, w, w[:-1], w + "x", w.upper(), w[1:]]), "end": r.random() < 0.5})
            elif x < 0.94:
                ops.append({"op": "enumtext", "n": r.randrange(4)})
            elif x < 0.96:
                ops.append({"op": "date", "y": r.randrange(0, 10000), "m": r.randrange(1, 13), "d": r.randrange(1, 32)})
            elif x < 0.97:
                s, o = r.choice(DATES)
                ops.append({"op": "dateread", "s": s, "ok": o, "d": [2024, 1, 2]})
            elif x < 0.975:
                ops.append(r.choice([{"op": "cast", "o": r.randrange(5), "t": r.randrange(1, 5)}, {"op": "dict", "d": [{"k": r.randrange(9), "n": r.choice(["a", "b", "", "ab", "a b"])} for _ in range(r.randrange(0, 5))], "k": r.randrange(9), "n": r.choice(["a", "b", "", "c"])},
                                     {"op": "type", "p": [{"n": r.choice(["xo", "vec3_", "T9", "_x"]), "a": some(["i", "d", "path", "vec3"], 2)} for _ in range(r.randrange(1, 5))]}]))
            elif x < 0.99:
                ops.append({"op": "moment", "d": r.randrange(0, 24000), "s": r.randrange(0, 86400)})
            else:
                a, b, c, d = (r.randrange(-99, 99) for _ in range(4))
                ops.append({"op": "misc", "a": a, "b": b, "c": c, "d": d, "k": r.randrange(1, 4)})
        segs.append({"ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("elems")
    q = ctx.quick

    def ex(part, **c):
        def go():
            r = ctx.explore("Elems", consts={"Part": f'"{part}"', **c}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"{part}: every transition")
        return go

    def traces():
        tr = ctx.record(exe, segments(ctx, 40 if q else 500, 120), label="recorded")
        ctx.validate("ElemsTrace", tr, exe=exe, label="recorded runs", timeout=850)

        def corrupt(t):
            for op, bad in (("search", lambda v: {**v, "count": v["count"] + 1}), ("hash", lambda v: [v[0] ^ 1] + v[1:]), ("words", lambda v: {**v, "v": v["v"] + [1]}), ("pd", lambda v: not v), ("fl_set", lambda v: {**v, "any": [not v["any"][0], v["any"][1]]}), ("dy_new", lambda v: {**v, "eq": not v["eq"]})):
                i = max(k for k, e in enumerate(t) if e["op"] == op)
                s = max(k for k in range(i) if t[k]["op"] == "reset")
                yield t[s:i] + [{**t[i], "ret": {"ok": True, "v": bad(t[i]["ret"]["v"])}}]
        ctx.binding_check("ElemsTrace", tr, corrupt)
    ctx.par(traces, ex("flags", M=2 if q else 3), ex("array", M=2 if q else 4), ex("search", MaxLen=1, M=3 if q else 5), ex("words", MaxLen=1, M=2 if q else 4), ex("plot", MaxLen=1), ex("names", MaxLen=1, M=4 if q else 6), ex("types", MaxLen=1, M=2 if q else 4))
    ctx.need_ops("fl_set fl_clear fl_new fl_toggle fl_none fl_copy fl_q dy_new dy_resize dy_alias dy_clear dy_assign dy_copy dy_move dy_self dy_at dy_set pd search copy stream words plot hash side tidy enum enumtext date dateread moment misc type dict cast".split())
    ctx.assumptions.append("flags 0 to 63 in 64 bits and up to the last bit in 8 and 16 bits; elements are numbers and texts; plots of functions with whole values, one column per whole x; hashes of text of ASCII characters (the value of other bytes depends on the sign of char, and only the four ways to compute it are compared); moments in UTC from 1970 to 2038; small_vector.h and transform_srt.h are unfinished in the library and are not claimed")
