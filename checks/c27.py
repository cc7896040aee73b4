from vf import beh

GENS = [[1, 1, 0, 0], [1, 0, 0, 1], [1, 1, 1, 1], [0, 0, 1, 0], [-1, 0, 1, 0], [1, -1, 0, 0], [0, 1, 1, 0], [1, -1, 1, 1], [1, 0, 0, 0], [-1, 0, 0, 0]]
SQ = [[1, 2, 2], [2, 2, 1], [2, 1, 2], [3, 0, 0], [0, 3, 0], [0, 0, 3]]


def segments(ctx, n, length):
    r = ctx.rng

    def quat(m):
        while True:
            q = [r.randrange(-m, m + 1) if r.random() < 0.85 else 0 for _ in range(4)]
            if any(q):
                return q

    def vec(m, k=3):
        return [r.randrange(-m, m + 1) if r.random() < 0.9 else 0 for _ in range(k)]

    def unit():
        return [x * r.choice([1, -1]) for x in r.choice(SQ)]
    segs = []
    for _ in range(n):
        ops = []
        for _ in range(length):
            x = r.random()
            s = r.choice([2, 3, -1, -4, 7])
            if x < 0.3:
                ops.append({"op": r.choice(["w_mul", "w_pre", "w_rel"]), "q": r.choice(GENS), "p": r.choice([[0, 0, 0], vec(2)])})
            elif x < 0.36:
                ops.append({"op": r.choice(["w_inv", "w_mir"])})
            elif x < 0.46:
                ops.append({"op": "vec3", "a": vec(9), "b": vec(9), "s": s})
            elif x < 0.5:
                ops.append({"op": "vec4", "a": vec(9, 4), "b": vec(9, 4), "s": s})
            elif x < 0.55:
                k = r.choice([0, 1, 3, 8])
                ops.append({"op": "vecn", "a": vec(9, k), "b": vec(9, k), "s": s})
            elif x < 0.57:
                k, m = r.choice([1, 2, 5]), r.choice([1, 2, 4])
                ops.append({"op": "matn", "m": [vec(9, k) for _ in range(m)], "v": vec(9, k), "c": r.choice([1, 3, 6]), "r": r.choice([1, 3, 6])})
            elif x < 0.59:
                ops.append({"op": "scale3", "s": [r.choice([1, 2, -1, 5]) for _ in range(3)], "v": vec(9)})
            elif x < 0.69:
                ops.append({"op": "rot", "q": quat(r.choice([1, 3, 5])), "v": vec(4)})
            elif x < 0.74:
                q, a = quat(4), r.choice([[1, 0, 0], [0, 1, 0], [0, 0, 1], unit(), [0, 3, 4], [2, 3, 6]])
                if q[0] or sum(u * v for u, v in zip(q[1:], a)):
                    ops.append({"op": "around", "q": q, "a": a})
            elif x < 0.79:
                ops.append({"op": "qq", "q": quat(3), "r": quat(3), "v": vec(3)})
            elif x < 0.83:
                a = unit()
                b = r.choice([unit(), a, unit()])
                if b != [-v for v in a]:
                    ops.append({"op": "dirs", "a": a, "b": b})
            elif x < 0.88:
                ops.append({"op": "euler", "o": r.choice(["xyz", "xzy", "yxz", "yzx", "zxy", "zyx"]), "k": vec(4)})
            elif x < 0.92:
                ops.append({"op": "euler_of", "o": r.choice(["xyz", "xzy", "yxz", "yzx", "zxy", "zyx"]), "q": quat(r.choice([1, 4, 9]))})
            elif x < 0.95:
                ops.append({"op": "tf", "q": quat(3), "p": vec(3), "r": quat(2), "s": vec(3), "v": vec(3)})
            elif x < 0.97:
                ops.append({"op": "mirror", "q": quat(4), "v": vec(5)})
            elif x < 0.99:
                ops.append({"op": "angle", "a": r.randrange(-400, 400), "b": r.randrange(-400, 400), "s": s})
            else:
                ops.append({"op": "trig", "k": r.randrange(-9, 10)})
        segs.append({"ops": ops})
    return segs


def run(ctx):
    exe = ctx.build("geo")
    q = ctx.quick

    def ex(part, **c):
        def go():
            r = ctx.explore("Geo", consts={"Part": f'"{part}"', **({} if part == "walk" else {"MaxLen": 1}), **c}, timeout=850)
            ctx.replay(exe, beh(ctx.emitted(r)), f"{part}: every transition")
        return go

    def opposite():
        """half a turn, around an axis that is perpendicular to the directions"""
        right, listed = [sorted((b["ops"][0] for b in beh(ctx.emitted(ctx.explore("Geo", consts={"Part": '"opp"', "MaxLen": 1, "Listed": x}, timeout=850)))), key=lambda o: o["a"])
                         for x in ("{}", '{"opposite-directions"}')]
        ctx.replay_known(exe, [(o, p["ret"], "opposite-directions") for o, p in zip(right, listed)], "opposite directions")

    def traces():
        tr = ctx.record(exe, segments(ctx, 40 if q else 500, 120), label="recorded")
        ctx.validate("GeoTrace", tr, exe=exe, label="recorded runs", timeout=850)

        def corrupt(t):
            for op, bad in (("rot", lambda v: {**v, "rot": v["back"]}), ("qq", lambda v: {**v, "mul": [x + 1 for x in v["mul"]]}), ("w_mul", lambda v: {**v, "p": [x + 1 for x in v["p"]]})):
                i = max(k for k, e in enumerate(t) if e["op"] == op and bad(e["ret"]["v"]) != e["ret"]["v"])
                s = max(k for k in range(i) if t[k]["op"] == "reset")
                yield t[s:i] + [{**t[i], "ret": {"ok": True, "v": bad(t[i]["ret"]["v"])}}]
        ctx.binding_check("GeoTrace", tr, corrupt)
    ctx.par(traces, opposite, ex("walk", M=1 if q else 2), ex("vec3"), ex("vec4"), ex("vecn", M=3), ex("rot", M=1 if q else 3), ex("around", M=1 if q else 3), ex("qq", M=1 if q else 2),
            ex("dirs"), ex("euler", M=1 if q else 4), ex("tf", M=1 if q else 2), ex("angle"))
    ctx.need_ops("vec3 vec4 vecn scale3 matn rot around qq dirs euler euler_of tf mirror angle trig lean made tan w_mul w_pre w_inv w_mir w_rel".split())
    ctx.assumptions.append("inputs with exact results: vectors of integers, and rotations given by quaternions of integers, for float (within 0.02 times the denominator, for angles are found by arc cosine) and double (within 1e-6); no vectors or quaternions of length zero where they are divided by; a rotation around an axis has to have a part around that axis; directions have length one")
